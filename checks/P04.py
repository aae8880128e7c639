#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work, simctl


def gate_case(ctx, J, seed, again=False):
    rng = random.Random(seed)
    n = rng.randint(2, 22)
    g = gen.gen_graph(rng, n, ops=lambda _: ["wait"], maxcmds=rng.choice([1, 2, 4]), forms=gen.ALL_FORMS)
    jn = work.jobs(rng)
    if rng.random() < .07:
        # many more jobs than cores
        jn = rng.choice([17, 20, 33, 48, 61])
        g = gen.gen_graph(rng, rng.randint(jn, 70), ops=lambda _: ["wait"], shape="wide", maxcmds=1)
    fails = set()
    if rng.random() < .4:
        # with /K the slots of failed targets are used by the rest
        for t in g.t.values():
            for c in t.cmds:
                if rng.random() < .12:
                    fails.add(c.id)
                    if rng.random() < .2:
                        c.ops.append("crash")
                    else:
                        c.code = rng.choice([1, 2, 3, 255, 256, 0x7fffffff])
    files = {}
    setup = gen.stale(g, rng, files)
    mk = files["Makefile"] = gen.render(g, rng)
    args = ["-nologo", "-s", "-j", str(jn)] + (["-k"] if fails or rng.random() < .1 else [])
    mode = rng.choice(["random", "lifo", "fifo", "depth"])
    prefer = {"random": None, "lifo": lambda w: w[-1], "fifo": lambda w: w[0], "depth": lambda w: sorted(w)[0]}[mode]
    m = simctl.ModelCtl(g, jn, rng, fails=fails, keep_going=True, prefer=prefer, patience=12.0 if again else 3.0)
    kw = {}
    if rng.random() < .35:
        kw["chaos"] = (rng.randint(1, 10**6), rng.choice([31, 1, 4, 8]), rng.choice([300, 1500]))
    r = ctx.run(J, files, args, "gated build", setup=setup, control=m.policy, timeout=60, **kw)
    if r.bad:
        return
    errs = list(m.errs)
    if not errs and m.missing():
        errs.append("the build ended although %s had not run" % m.missing())
    if r.rc != (1 if m.bad else 0):
        errs.append("exit code %d: %s" % (r.rc, r.text_err()[-200:]))
    if errs and not again and errs[0].startswith("only"):
        # a stalled machine must not look like a stalled jom
        return gate_case(ctx, J, seed, True)
    ctx.count("quiescent_points", m.points)
    ctx.count("quiescent_points_all_slots_used", m.full)
    ctx.count("gated_builds")
    ctx.count("failures_under_k", len(m.bad))
    for st in m.seen_states:
        ctx.distinct((jn, hash(st)))
    ctx.sample({"makefile": mk, "args": args, "order": mode, "releases": m.points})
    if errs:
        ctx.violation("%s (%s)" % (errs[0], " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs, outdated=list(g.plain), seed=seed))


def free_case(ctx, J, seed):
    """termination under I/O, spawn, semaphore and death delays"""
    rng = random.Random(seed)
    s = work.Sched(rng, "chaos")
    g = gen.gen_graph(rng, rng.randint(5, 30), ops=s.ops, shape=rng.choice(["wide", "random", "layered", "dense"]), forms=gen.ALL_FORMS)
    args = ["-nologo", "-s", "-j", str(work.jobs(rng))]
    if rng.random() < .3:
        for t in g.t.values():
            for c in t.cmds:
                if rng.random() < .1:
                    c.code = 1
        if rng.random() < .5:
            args.append("-k")
    mk = gen.render(g, rng)
    r = ctx.run(J, {"Makefile": mk}, args, "delayed build", **s.kwargs())
    if not r.bad:
        ctx.count("delayed_builds_terminated")
        ctx.distinct(work.interleaving(r))


def body(ctx):
    ctx.rule = ("gated builds: at every quiescent point the number of running commands must equal min(J, ready targets) of the graph model, also after failures under /K; "
                "delayed builds: must terminate; distinct = set of running commands at a quiescent point, or interleaving")
    ctx.assume("a slot that stays idle for 12 s (second attempt) while a target is ready counts as not used")
    J = ctx.jom()
    n = ctx.n(220, 3000)
    cs = [(k, ctx.rng.random()) for k in [gate_case] * n + [free_case] * (n // 2)]
    ctx.rng.shuffle(cs)
    ctx.pmap(lambda c: c[0](ctx, J, c[1]), cs)


check.main("P04", body)
