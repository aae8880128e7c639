#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work


def graph_case(ctx, J, seed):
    rng = random.Random(seed)
    s = work.Sched(rng)
    n = rng.randint(2, 26) if rng.random() < .9 else rng.randint(30, 70)
    g = gen.gen_graph(rng, n, ops=s.ops, forms=gen.ALL_FORMS)
    made = rng.random() < .5
    if made:                                    # files that exist long before their target is finished
        for t in g.t.values():
            if t.cmds and rng.random() < .7:
                t.cmds[0].ops.insert(0, "t:" + t.name)
                ctx.count("files_written_early")
    files = {"d%d/.keep" % i: "" for i in range(3)} if made else {}
    setup = gen.stale(g, rng, files)
    mk = files["Makefile"] = gen.render(g, rng)
    args = ["-nologo", "-s", "-j", str(work.jobs(rng))]
    if rng.random() < .15:
        args.append("-k")
    r = ctx.run(J, files, args, "%d targets, shape %s" % (n, g.shape), setup=setup, **s.kwargs(work.all_ids(g)))
    if r.bad:
        return
    errs, pairs = gen.check_order(g, r)
    ctx.count("order_pairs_checked", pairs)
    ctx.maxi("max_commands_at_once", gen.max_parallel(r)[0])
    ctx.count("schedule_" + s.name.split("/")[0])
    ctx.distinct(("g", work.interleaving(r)))
    ctx.sample({"makefile": mk, "args": args, "schedule": s.name, "starts": r.order()[:30]}, 2)
    if r.rc != 0:
        errs.append("exit code %d of a build that cannot fail: %s" % (r.rc, r.text_err()[-300:]))
    if errs:
        ctx.violation("%s (%s, %s)" % (errs[0], " ".join(args), s.name), replay=ctx.replay_of(r, files, args, errors=errs[:10], outdated=list(g.plain), seed=seed))


def infer_case(ctx, J, seed):
    """generated headers -> objects made by (batch) inference rules -> libraries -> program"""
    rng = random.Random(seed)
    c = gen.gen_infer(rng)
    s = work.Sched(rng, rng.choice(["none", "sleep", "chaos"]))
    args = ["-nologo", "-s", "-j", str(work.jobs(rng))] + c["args"]
    r = ctx.run(J, c["files"], args, "inference graph", **s.kwargs())
    if r.bad:
        return
    errs, pairs = gen.check_infer_order(c, r)
    ctx.count("order_pairs_checked", pairs)
    ctx.count("inference_graphs" + ("_batch" if c["batch"] else ""))
    ctx.distinct(("i", work.interleaving(r)))
    ctx.sample({"makefile": c["files"]["Makefile"], "args": args, "starts": r.order()[:30]}, 3)
    if r.rc != 0:
        errs.append("exit code %d of a build that cannot fail: %s" % (r.rc, r.text_err()[-300:]))
    if errs:
        ctx.violation("%s (%s)" % (errs[0], " ".join(args)), replay=ctx.replay_of(r, c["files"], args, errors=errs[:10], seed=seed))


def body(ctx):
    ctx.rule = ("random DAG makefiles (7 shapes, respelled, split over blocks, through macros) and inference-rule graphs, built by the real jom under "
                "gated, delayed and I/O-perturbed schedules; a case is distinct by its observed interleaving of command starts and ends")
    ctx.assume("commands are processes of the stand-in tool jt; the Win32 layer is emulated on Linux")
    J = ctx.jom()
    n = ctx.n(320, 5000)
    seeds = [(k, ctx.rng.random()) for k in ["g"] * n + ["i"] * (n // 3)]
    ctx.rng.shuffle(seeds)
    ctx.pmap(lambda c: (graph_case if c[0] == "g" else infer_case)(ctx, J, c[1]), seeds)


check.main("P01", body)
