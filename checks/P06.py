#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work, simctl


def case(ctx, J, seed):
    rng = random.Random(seed)
    s = work.Sched(rng)
    n = rng.randint(2, 26)
    g = gen.gen_graph(rng, n, ops=s.ops, maxcmds=4, forms=gen.ALL_FORMS, shape=rng.choice(["random", "layered", "chain", "wide", "diamond", "tree", "tree", "random"]))
    p = rng.choice([0, .04, .1, .25])
    fails = set()
    for t in g.t.values():
        for c in t.cmds:
            if rng.random() < p:
                w = rng.random()
                if w < .6:
                    c.code = rng.choice([1, 2, 255, 256, 259, 70000, -1])
                    fails.add(c.id)
                elif w < .8:
                    c.ops.append("crash")
                    fails.add(c.id)
                else:
                    c.code, c.pre = 5, "-"
    bad = set(n for n, t in g.t.items() if any(c.id in fails for c in t.cmds))
    # the targets that can be built: nothing they depend on has a failing command (a failing target below another one never runs)
    runs, reallybad = set(), set()
    for nme in g.t:
        below = g.before(nme)
        if not (below & bad):
            runs.add(nme)
    expect = {}
    for nme in runs:
        for c in g.t[nme].cmds:
            expect[c.id] = 1
            if c.id in fails:
                reallybad.add(nme)
                break
    files = {}
    setup = gen.stale(g, rng, files)
    mk = files["Makefile"] = gen.render(g, rng)
    args = ["-nologo", "-s", "-j", str(work.jobs(rng)), rng.choice(["-k", "/K", "-K"])]
    env = None
    if rng.random() < .15:
        args.pop()
        env = {"MAKEFLAGS": "K"}
    r = ctx.run(J, files, args, "keep-going build", setup=setup, env=env, **s.kwargs(work.all_ids(g)))
    if r.bad:
        return
    h = gen.history(r)
    errs = []
    for cid in expect:
        if len(h.get(cid, [])) != 1:
            errs.append("command %s ran %d times, but nothing it depends on failed" % (cid, len(h.get(cid, []))))
    for cid in h:
        if cid not in expect:
            errs.append("command %s ran although something it depends on failed" % cid)
    errs += gen.check_sequential(g, r, h)
    if not bad:
        errs += gen.check_order(g, r, h)[0]
    else:
        for nme in runs:
            st = [s0 for c in g.t[nme].cmds for (s0, e, code) in h.get(c.id, [])]
            for d in g.before(nme):
                for c in g.t[d].cmds:
                    for (s0, e, code) in h.get(c.id, []):
                        if st and (e is None or e > min(st)):
                            errs.append("%s started before its dependent %s had finished" % (nme, d))
    want = 1 if reallybad else 0
    if r.rc != want:
        errs.append("exit code %s, expected %d" % (r.rc, want))
    if r.alive_after:
        errs.append("jom exited while commands were running: %s" % r.alive_after)
    ctx.count("failed_targets", len(reallybad))
    ctx.count("targets_built_despite_failures", len(runs) - len(reallybad) if reallybad else 0)
    ctx.count("targets_left_out", len(g.t) - len(runs))
    ctx.distinct(work.interleaving(r))
    ctx.sample({"makefile": mk, "args": args, "failing": sorted(fails), "starts": r.order()[:30]})
    if errs:
        ctx.violation("%s (%s, %s)" % (errs[0], " ".join(args), s.name), replay=ctx.replay_of(r, files, args, outdated=list(g.plain), errors=errs[:8], failing=sorted(fails), seed=seed))


def layers(ctx, J, k):
    """a number of paths that no algorithm may walk one by one"""
    width, depth, failat = k
    L = ["all: " + " ".join("t%dx%d" % (depth - 1, i) for i in range(width)), "\tjt id=all", "other:", "\tjt id=other"]
    L[0] += " other"
    for d in range(depth):
        for i in range(width):
            L.append("t%dx%d: %s" % (d, i, " ".join("t%dx%d" % (d - 1, j) for j in range(width)) if d else ""))
            L.append("\tjt id=t%dx%d%s" % (d, i, " x:1" if d == failat and i == 0 else ""))
    mk = "\n".join(L) + "\n"
    args = ["-nologo", "-s", "-k", "-j", "8"]
    r = ctx.run(J, {"Makefile": mk}, args, "%d layers of %d" % (depth, width), timeout=40)
    if r.bad:
        return
    h = gen.history(r)
    want = set(["other"] + ["t%dx%d" % (d, i) for d in range(failat + 1) for i in range(width)])
    ctx.count("layered_graphs")
    ctx.maxi("log2_paths", int(depth * (width).bit_length()))
    if set(h) != want or r.rc != 1:
        ctx.violation("layered graph: ran %s, expected %s, exit code %s" % (sorted(set(h) ^ want)[:8], len(want), r.rc), replay=ctx.replay_of(r, {"Makefile": mk}, args))


def body(ctx):
    ctx.rule = "random graphs with several failing commands built with /K; the executed set must be exactly the set computed from the graph; distinct by interleaving"
    J = ctx.jom()
    ctx.pmap(lambda x: case(ctx, J, x), [ctx.rng.random() for _ in range(ctx.n(360, 6000))])
    ctx.pmap(lambda x: layers(ctx, J, x), [(4, 16, 0), (6, 12, 1), (3, 25, 0), (5, 20, 10)] * ctx.n(1, 4))


check.main("P06", body)
