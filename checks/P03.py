#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work


def case(ctx, J, seed, ncpu):
    rng = random.Random(seed)
    s = work.Sched(rng)
    n = rng.randint(3, 30)
    shape = rng.choice(["wide", "wide", "random", "tree", "layered", "diamond"])
    g = gen.gen_graph(rng, n, shape=shape, ops=s.ops, maxcmds=3, p_nocmd=.05, forms=gen.ALL_FORMS)
    mode = rng.choice(["ok", "ok", "fail", "failk", "crash"])
    if mode != "ok":
        for t in g.t.values():
            for c in t.cmds:
                if rng.random() < .15:
                    if mode == "crash":
                        c.ops.append("crash")
                    else:
                        c.code = rng.choice([1, 2, 255, 256, 259, 1000])
                    if rng.random() < .4:
                        c.pre = "-"
    form = rng.choice(["j", "j", "j", "np", "default", "env", "j1", "npj", "sub", "subnp", "subj"])
    jn = rng.choice([1, 2, 2, 3, 4, 5, 7])
    args, env, header = ["-nologo", "-s"], None, ""
    if form == "j":
        args += rng.choice([["-j", str(jn)], ["/J%d" % jn], ["-j%d" % jn], ["-sj%d" % jn], ["/J", str(jn), "/NOLOGO"]])
        limit = jn
    elif form == "j1":
        args += ["-j", "1"]
        limit = 1
    elif form == "env":
        env = {rng.choice(["JOMFLAGS", "MAKEFLAGS"]): "J%d" % jn}
        limit = jn
    elif form in ("sub", "subj"):
        args += ["-j", str(jn)]
        limit = jn
    elif form in ("np", "npj", "subnp"):
        header = rng.choice([".NOTPARALLEL:\n", ".NOTPARALLEL:\n", ".NOTPARALLEL :\n", ".NOTPARALLEL: all\n"])
        if form in ("npj", "subnp"):
            args += ["-j", str(jn)]
        limit = 1
    else:
        limit = ncpu
    if mode == "failk" or (mode == "crash" and rng.random() < .5):
        args.append("-k")
    files = {}
    setup = gen.stale(g, rng, files)
    mk = gen.render(g, rng)
    if header:
        mk = (header + mk) if rng.random() < .5 else (mk + "\n" + header)
    files["Makefile"] = mk
    if form.startswith("sub"):                  # the same makefile, built by an instance that another one starts
        line, deps = "$(MAKE) " + " ".join(a for a in args if a not in ("-j", str(jn))) + " -f sub.mk", ""
        if form == "subj":
            limit = rng.choice([k for k in (1, 2, 3, 5) if k != jn])
            line = line.replace(" -f", " -j %d -f" % limit)
        files.update({"Makefile": "all:%s\n\t%s\n" % (deps, line), "sub.mk": mk})
    r = ctx.run(J, files, args, "%s %s" % (form, mode), env=env, setup=setup, **s.kwargs(work.all_ids(g)))
    if r.bad:
        return
    a, b = gen.max_parallel(r)
    if form.startswith("sub"):
        b = a                                   # the inner instance is a process, too
    ctx.count("form_" + form)
    ctx.count("mode_" + mode)
    ctx.count("limit_reached" if max(a, b) == limit else "below_limit")
    ctx.maxi("max_processes_at_once", b)
    ctx.distinct((limit, work.interleaving(r)))
    ctx.sample({"makefile": mk, "args": args, "env": env, "limit": limit, "observed": [a, b]})
    if max(a, b) > limit:
        ctx.violation("%d commands ran at the same time, the limit is %d (%s, %s)" % (max(a, b), limit, " ".join(args), s.name),
                      replay=ctx.replay_of(r, files, args, env=env, seed=seed))


def body(ctx):
    ctx.rule = ("random graphs with successful, failing and crashing commands under /J n (several spellings, environment), the default and .NOTPARALLEL; "
                "live processes and commands counted at every event; distinct by limit and observed interleaving")
    J = ctx.jom()
    ncpu = max(os.cpu_count() or 1, len(os.sched_getaffinity(0)))
    ctx.assume("the machine has %d processors as jom sees it" % ncpu)
    ctx.pmap(lambda x: case(ctx, J, x, ncpu), [ctx.rng.random() for _ in range(ctx.n(400, 6000))])


check.main("P03", body)
