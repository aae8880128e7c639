#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work, simctl

CODES = [1, 2, 3, 127, 128, 255, 256, 259, 512, 1000, 65536, 2147483647, -1, -2, -2147483648]


def common(g, r, fails, h):
    """what must hold for every schedule; fails: ids of commands that fail if they run"""
    errs = []
    failed = [t for t in g.t.values() if any(c.id in fails and c.id in h for c in t.cmds)]
    for t in failed:
        after = False
        for c in t.cmds:
            if after and c.id in h:
                errs.append("command %s ran after command of its target %s had failed" % (c.id, t.name))
            if c.id in fails and c.id in h:
                after = True
    for n in g.dependents_of([t.name for t in failed]):
        for c in g.t[n].cmds:
            if c.id in h:
                errs.append("target %s ran although a dependent of it failed" % n)
    for n, t in g.t.items():
        ran = [c.id in h for c in t.cmds]
        if any(ran) and t not in failed and not all(ran):
            errs.append("target %s was started but not completed: %s" % (n, list(zip([c.id for c in t.cmds], ran))))
        for c in t.cmds:
            if len(h.get(c.id, [])) > 1:
                errs.append("command %s ran twice" % c.id)
            for (s, e, code) in h.get(c.id, []):
                if e is None and not any(o in ("crash",) for o in c.ops):
                    errs.append("command %s has no end" % c.id)
    if r.alive_after:
        errs.append("jom exited while commands were running: %s" % r.alive_after)
    errs += gen.check_order(g, r, h)[0] if not failed else []
    errs += gen.check_sequential(g, r, h)
    if failed and r.rc != 2:
        errs.append("exit code %s although a command failed (expected 2)" % r.rc)
    if not failed and not any(True for _ in fails) and r.rc != 0:
        errs.append("exit code %s although nothing failed" % r.rc)
    return errs, failed


def gated(ctx, J, seed, again=False):
    """the exact set of running commands is predicted before and after the failure"""
    rng = random.Random(seed)
    g = gen.gen_graph(rng, rng.randint(2, 20), ops=lambda _: ["wait"], maxcmds=4, forms=gen.ALL_FORMS)
    jn = rng.choice([1, 2, 3, 4, 6, 8])
    fails = set()
    for t in g.t.values():
        for c in t.cmds:
            if rng.random() < .15 or (not fails and t is list(g.t.values())[-1]):
                fails.add(c.id)
                if rng.random() < .2:
                    c.ops.append("crash")
                else:
                    c.code = rng.choice(CODES)
    files = {}
    setup = gen.stale(g, rng, files)
    mk = files["Makefile"] = gen.render(g, rng)
    args = ["-nologo", "-s", "-j", str(jn)]
    m = simctl.ModelCtl(g, jn, rng, fails=fails, patience=12.0 if again else 3.0)
    kw = {}
    if rng.random() < .25:
        kw["chaos"] = (rng.randint(1, 10**6), rng.choice([1, 8, 9]), 600)
    r = ctx.run(J, files, args, "gated failing build", setup=setup, control=m.policy, timeout=60, **kw)
    if r.bad:
        return
    h = gen.history(r)
    errs, failed = common(g, r, fails, h)
    errs = list(m.errs) + errs
    if not m.errs and m.missing():
        errs.append("jom ended without running %s of targets in progress" % m.missing())
    if errs and not again and errs[0].startswith("only"):
        return gated(ctx, J, seed, True)
    ctx.count("gated_builds")
    ctx.count("failing_commands_observed", len(failed))
    ctx.count("targets_in_progress_at_failure", sum(1 for n in m.started if m.aborted) - len(failed))
    ctx.distinct(("g", hash(tuple(sorted(m.seen_states)))))
    ctx.sample({"makefile": mk, "args": args, "failing": sorted(fails), "starts": r.order()}, 2)
    if errs:
        ctx.violation("%s (%s)" % (errs[0], " ".join(args)), replay=ctx.replay_of(r, files, args, outdated=list(g.plain), errors=errs[:8], failing=sorted(fails), seed=seed))


def free(ctx, J, seed):
    rng = random.Random(seed)
    s = work.Sched(rng)
    g = gen.gen_graph(rng, rng.randint(2, 24), ops=s.ops, maxcmds=4, forms=gen.ALL_FORMS, shape=rng.choice(["wide", "random", "layered", "diamond", "tree"]))
    fails, injected, first = set(), 0, {}
    for t in g.t.values():
        for k, c in enumerate(t.cmds):
            if rng.random() < .12:
                fails.add(c.id)
                way = rng.choice(["code", "code", "crash", "silent", "output", "tolerated"])
                if way == "code":
                    c.code = rng.choice(CODES)
                elif way == "crash":
                    c.ops.append("crash")
                elif way == "silent":
                    c.code, c.pre = 1, "@"
                elif way == "output":
                    c.ops.append("P:%d:60:x" % rng.choice([1, 50, 2000]))
                    c.code = 3
                else:
                    fails.discard(c.id)
                    c.code, c.pre = rng.choice([(1, "-"), (300, "-"), (3, "-3"), (2, "-5"), (7, "-@")])
    files = {}
    setup = gen.stale(g, rng, files)
    mk = files["Makefile"] = gen.render(g, rng)
    args = ["-nologo", "-s", "-j", str(work.jobs(rng))]
    r = ctx.run(J, files, args, "failing build", setup=setup, **s.kwargs(work.all_ids(g)))
    if r.bad:
        return
    h = gen.history(r)
    errs, failed = common(g, r, fails, h)
    if not failed and r.rc != 0:
        errs.append("exit code %s although no command failed" % r.rc)
    ctx.count("free_builds_failed" if failed else "free_builds_ok")
    ctx.distinct(("f", work.interleaving(r)))
    if errs:
        ctx.violation("%s (%s, %s)" % (errs[0], " ".join(args), s.name), replay=ctx.replay_of(r, files, args, outdated=list(g.plain), errors=errs[:8], failing=sorted(fails), seed=seed))


BADCMD = ["nosuchprogram_x", "nosuchprogram_x a > NUL", "cd nosuchdir", "jt id=%s x:4 | jt x:5", "jt id=bad x:9 && jt id=never", "\"no such\" 1", "exit 7",
          "jt id=q cat:<<nosuchdir\\f\nhello\n<<"]


def special(ctx, J, seed):
    """failures that are not an exit code of a directly started program"""
    rng = random.Random(seed)
    bad = rng.choice(BADCMD)
    k = rng.randint(1, 4)
    mk = "all: %s last\n\tjt id=all\nlast: broken\n\tjt id=last\n" % " ".join("par%d" % i for i in range(k))
    for i in range(k):
        mk += "par%d:\n\tjt id=par%d.a s:%d\n\tjt id=par%d.b s:%d\n" % (i, i, rng.choice([0, 10, 60]), i, rng.choice([0, 20]))
    pre = rng.choice(["", "\tjt id=before s:%d\n" % rng.choice([0, 20])])
    mk += "broken:\n%s\t%s\n\tjt id=after\n" % (pre, bad.replace("%s", "q"))
    args = ["-nologo", "-s", "-j", str(rng.choice([1, 2, 8]))]
    r = ctx.run(J, {"Makefile": mk}, args, "special failure " + bad.split("\n")[0])
    if r.bad:
        return
    h = gen.history(r)
    errs = []
    for x in ("after", "last", "all", "never"):
        if x in h:
            errs.append("%s ran although a command before it failed" % x)
    for i in range(k):
        if ("par%d.a" % i in h) != ("par%d.b" % i in h):
            errs.append("target par%d was started but not completed" % i)
    if r.rc in (0, None):
        errs.append("exit code %s although a command failed" % r.rc)
    if r.alive_after:
        errs.append("jom exited while commands were running: %s" % r.alive_after)
    for cid, runs in h.items():
        if any(e is None for (s, e, c) in runs):
            errs.append("command %s has no end" % cid)
    ctx.count("special_failures")
    ctx.distinct(("s", bad, work.interleaving(r)))
    if errs:
        ctx.violation("%s: %s (%s)" % (bad.split("\n")[0], errs[0], " ".join(args)), replay=ctx.replay_of(r, {"Makefile": mk}, args, errors=errs, seed=seed))


def body(ctx):
    ctx.rule = ("random graphs with failing, crashing and unstartable commands; gated builds predict the exact set of running commands before and after the "
                "failure, free builds check the history; distinct by visited states or interleaving")
    J = ctx.jom()
    n = ctx.n(150, 2500)
    cs = [(k, ctx.rng.random()) for k in [gated] * n + [free] * (n * 3 // 2) + [special] * (n // 2)]
    ctx.rng.shuffle(cs)
    ctx.pmap(lambda c: c[0](ctx, J, c[1]), cs)


check.main("P05", body)
