#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work


def case(ctx, J, seed):
    rng = random.Random(seed)
    s = work.Sched(rng)
    n = rng.randint(2, 24)
    g = gen.gen_graph(rng, n, ops=s.ops, maxcmds=4, forms=gen.ALL_FORMS)
    # targets nobody needs
    extra = gen.Graph()
    names = list(g.t)
    for k in range(rng.choice([0, 0, 1, 2, 3])):
        extra.add(gen.Target("unneeded%d" % k, rng.sample(names, min(len(names), rng.randint(0, 2))), [gen.Cmd("unneeded%d#0" % k)]))
    both = gen.Graph()
    both.t = dict(g.t)
    both.t.update(extra.t)
    both.goal = g.goal
    files = {}
    setup = gen.stale(both, rng, files)
    mk = files["Makefile"] = gen.render(both, rng)
    jn = work.jobs(rng)
    args = ["-nologo", "-s", "-j", str(jn)]
    if rng.random() < .1:
        args.append("-k")
    r = ctx.run(J, files, args, "%d targets" % n, setup=setup, **s.kwargs(work.all_ids(g)))
    if r.bad:
        return
    h = gen.history(r)
    errs = []
    for nme, t in g.t.items():
        for c in t.cmds:
            k = len(h.get(c.id, []))
            ctx.count("commands_checked")
            if k != 1:
                errs.append("command %s of target %s ran %d times" % (c.id, nme, k))
    ids = set(work.all_ids(g))
    for cid in h:
        if cid not in ids:
            errs.append("command %s ran, but its target is not needed" % cid)
    errs += gen.check_sequential(g, r, h)
    ctx.count("multi_command_targets", sum(len(t.cmds) > 1 for t in g.t.values()))
    ctx.maxi("max_commands_at_once", gen.max_parallel(r)[0])
    ctx.distinct(work.interleaving(r))
    ctx.sample({"makefile": mk, "args": args, "schedule": s.name, "starts": r.order()[:30]})
    if r.rc != 0:
        errs.append("exit code %d of a build that cannot fail: %s" % (r.rc, r.text_err()[-300:]))
    if errs:
        ctx.violation("%s (%s, %s)" % (errs[0], " ".join(args), s.name), replay=ctx.replay_of(r, files, args, outdated=list(both.plain), errors=errs[:10], seed=seed))


def body(ctx):
    ctx.rule = ("random DAG makefiles with unneeded targets and respelled dependents under gated, delayed and I/O-perturbed schedules; "
                "a case is distinct by its observed interleaving")
    J = ctx.jom()
    ctx.pmap(lambda x: case(ctx, J, x), [ctx.rng.random() for _ in range(ctx.n(400, 6000))])


check.main("P02", body)
