#!/usr/bin/env python3
import os, random, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work, uptodate


def touch_later(p, others):
    """an edit as a user makes it: the file's time is the current time, and later than that of every other file"""
    m = max(os.stat(q).st_mtime_ns for q in others)
    while True:
        with open(p, "a") as f:
            f.write("x")
        os.utime(p)
        if os.stat(p).st_mtime_ns > m:
            return
        time.sleep(.003)


def case(ctx, J, seed):
    rng = random.Random(seed)
    s = work.Sched(rng, rng.choice(["none", "none", "sleep", "chaos"]))
    g = gen.gen_graph(rng, rng.randint(2, 18), ops=s.ops, maxcmds=3, p_nocmd=rng.choice([0, .15, .3]))
    nsrc = rng.randint(1, 6)
    srcs = ["src%d.in" % i for i in range(nsrc)] + ["in\\deep.h"]
    k = 0
    fails = {}
    for name, t in g.t.items():
        t.deps += [f for f in srcs if rng.random() < .3 and f not in t.deps]
        if not t.cmds and not t.deps:
            t.deps.append(srcs[0])
        rng.shuffle(t.deps)
        for c in t.cmds:
            k += 1
            fails.setdefault(name, []).append(k)
            c.ops.append("$(FAIL_%d)" % k)
        if t.cmds:
            t.cmds[-1].ops.append("t:" + name)
    mk = gen.render(g, rng)
    d = J.newdir()
    w = os.path.join(d, "w")
    for x in ("d0", "d1", "d2", "in"):
        os.makedirs(os.path.join(w, x), exist_ok=True)
    for f in srcs:
        open(os.path.join(w, f.replace("\\", "/")), "w").write("x")
        os.utime(os.path.join(w, f.replace("\\", "/")), (1500000000, 1500000000))
    path = lambda n: os.path.join(w, n.replace("\\", "/"))
    allfiles = lambda: [p for p in map(path, list(g.t) + srcs) if os.path.exists(p)]
    withcmds = set(n for n, t in g.t.items() if t.cmds)
    story, errs = [], []
    nodes = {n: uptodate.Node(list(t.deps), len(t.cmds), "touch") for n, t in g.t.items()}
    last = [None]

    def build(goals=(), failing=(), keep=False, what=""):
        args = ["-nologo", "-s", "-j", str(work.jobs(rng))] + (["-k"] if keep else []) + ["FAIL_%d=x:%d stop" % (rng.choice(fails[n]), rng.choice([1, 3, 300])) for n in failing]
        args += list(goals)
        before = uptodate.stamps(w, list(g.t) + srcs)
        r = ctx.run(J, {"Makefile": mk}, args, what, d=d, **s.kwargs())
        last[0] = r
        if r.bad:
            return None
        h = gen.history(r)
        ran = set(n for n, t in g.t.items() if any(c.id in h for c in t.cmds))
        model, bad, _ = uptodate.simulate(nodes, list(goals) or [g.goal], dict(before), time.time_ns() // 100, failing=set(failing))
        story.append((what, args, sorted(ran), r.rc))
        if keep or not bad:
            if ran != set(model):
                errs.append("%s: rebuilt %s, expected %s" % (what, sorted(ran - set(model)) or "not " + str(sorted(set(model) - ran)), sorted(model)))
        elif not ran <= set(uptodate.simulate(nodes, list(goals) or [g.goal], dict(before), time.time_ns() // 100)[0]):
            errs.append("%s: rebuilt more than what was out of date: %s" % (what, sorted(ran)))
        want = 0 if not bad else (1 if keep else 2)
        if r.rc != want:
            errs.append("%s: exit code %s, expected %d" % (what, r.rc, want))
        ctx.count("builds_" + what.split(":")[0].replace(" ", "_"))
        ctx.count("targets_rebuilt", len(ran))
        return ran
    need = g.reach([g.goal])
    try:
        ran = build(what="first build")
        if ran is None:
            return
        if ran != withcmds & need:
            errs.append("first build: ran %s, expected %s" % (sorted(ran), sorted(withcmds & need)))
        for step in range(rng.randint(2, 5)):
            if errs:
                break
            ran = build(what="idle build")
            if ran is None:
                return
            if ran:
                errs.append("idle build: nothing changed, but %s were rebuilt" % sorted(ran))
                break
            kind = rng.choice(["edit", "edit", "edit2", "delete", "touch", "fail", "failk", "goal", "force"])
            changed, must = [], set()
            if kind in ("edit", "edit2", "fail", "failk", "goal"):
                changed = rng.sample(srcs, min(len(srcs), rng.choice([1, 1, 2, 3])))
                for f in changed:
                    touch_later(path(f), allfiles())
                must = set(n for n in withcmds & need if any(f in g.t[x].deps for f in changed for x in g.reach([n])))
            elif kind in ("delete", "touch"):
                have = [n for n in withcmds if os.path.exists(path(n))]
                if not have:
                    continue
                changed = rng.sample(have, min(len(have), rng.choice([1, 1, 2])))
                for f in changed:
                    if kind == "delete":
                        os.unlink(path(f))
                    else:
                        touch_later(path(f), allfiles())
                must = set(n for n in withcmds & need if any(f in g.reach([n]) and (f != n or kind == "delete") for f in changed))
                if kind == "touch" and len(changed) > 1:
                    must = None
            story.append(("change", kind, changed))
            if kind in ("fail", "failk") and must:
                bad = rng.sample(sorted(must), min(len(must), rng.choice([1, 1, 2])))
                if build(failing=bad, keep=kind == "failk", what="failing build") is None:
                    return
                if build(what="build after failure") is None:
                    return
            elif kind == "goal":
                goals = rng.sample(sorted(g.t), min(len(g.t), rng.randint(1, 3)))
                if build(goals=goals, what="goal build") is None or build(what="build after goals") is None:
                    return
            else:
                ran = build(what="rebuild")
                if ran is None:
                    return
                if must is not None and ran != must:
                    errs.append("after %s of %s: rebuilt %s, but %s depend on it" % (kind, changed, sorted(ran), sorted(must)))
        if not errs:
            ran = build(what="idle build")
            if ran:
                errs.append("idle build at the end: %s were rebuilt" % sorted(ran))
        ctx.distinct(hash(str(story)))
        ctx.sample({"makefile": mk, "story": story}, 2)
        if errs and last[0] is not None:
            ctx.violation(errs[0], replay=ctx.replay_of(last[0], {"Makefile": mk}, [], errors=errs, story=story, seed=seed))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def body(ctx):
    ctx.rule = ("sequences of builds, source edits, deletions, out-of-band touches, failing and partial builds on one directory; after every complete build an idle build must run "
                "nothing, and every build must rebuild exactly what depends on the changes; distinct by the whole story")
    J = ctx.jom()
    ctx.pmap(lambda s: case(ctx, J, s), [ctx.rng.random() for _ in range(ctx.n(110, 2200))])


check.main("P09", body)
