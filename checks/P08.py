#!/usr/bin/env python3
import os, random, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work, uptodate

BASE = 1400000000 * 10**7       # 100 ns units
STEPS = [0, 0, 0, 1, -1, 9, 10, 9999, 10000, 10**7 - 1, 10**7, 10**7 + 1, 2 * 10**7, 60 * 10**7, 2**32 - 1, 2**32, 2**32 + 1, 3 * 2**32, 2**31, 2**31 + 1,
         3600 * 10**7, 86400 * 10**7, 365 * 86400 * 10**7]


def pick_time(rng, pool):
    r = rng.random()
    if pool and r < .35:
        return rng.choice(pool)                                     # exact tie
    if pool and r < .75:
        return rng.choice(pool) + rng.choice([1, -1]) * rng.choice(STEPS)
    if r < .8:
        return (int(time.time()) + 86400 * rng.randint(2, 900)) * 10**7   # the future
    return BASE + rng.randint(0, 10**9) * rng.choice([1, 10, 10**7 // 4])


def case(ctx, J, seed):
    rng = random.Random(seed)
    s = work.Sched(rng, rng.choice(["none", "none", "sleep", "chaos"]))
    n = rng.randint(1, 18)
    g = gen.gen_graph(rng, n, ops=s.ops, maxcmds=2, p_nocmd=rng.choice([0, .1, .3]))
    pool = []
    stamp, exist = {}, {}
    p_exist = rng.choice([.5, .8, .95, 1])
    srcs = ["src%d.in" % i for i in range(rng.randint(0, 6))] + (["in\\deep.h"] if rng.random() < .3 else [])
    for f in srcs:
        stamp[f] = pick_time(rng, pool)
        pool.append(stamp[f])
    nodes = {}
    direction = rng.random() < .5                                   # mostly ascending times make nearly up-to-date trees
    for i, (name, t) in enumerate(reversed(list(g.t.items()))):
        t.deps += [f for f in srcs if rng.random() < .25 and f not in t.deps]
        rng.shuffle(t.deps)
        if rng.random() < p_exist:
            stamp[name] = pick_time(rng, pool)
            if direction and t.deps:
                m = max([stamp[d] for d in t.deps if stamp.get(d) is not None] or [BASE])
                stamp[name] = m + rng.choice([0, 0, 1, 10, 10**7, 2**32 + 5, -1, -10**7, -2**32 + 3] if rng.random() < .4 else [0, 1, 10**7, 2**32])
            pool.append(stamp[name])
        else:
            stamp[name] = None
        eff = rng.choice(["touch", "touch", "touch", "none", "set", "del" if rng.random() < .3 else "touch"])
        if t.cmds:
            c = t.cmds[-1]
            if c.form == "pipe":
                c.form = "plain"
            if eff == "touch":
                c.ops.append("t:" + name)
            elif eff == "del":
                c.ops.append("d:" + name)
            elif eff == "set":
                sec = pick_time(rng, pool) // 10**7
                c.ops.append("T:%s:%d" % (name, sec))
                eff = ("set", sec * 10**7)
        nodes[name] = uptodate.Node(list(t.deps), len(t.cmds), eff)
    force = rng.random() < .1
    mk = gen.render(g, rng)
    goals = [g.goal]
    args = ["-nologo", "-s", "-j", str(work.jobs(rng))] + (["-a"] if force else [])
    if rng.random() < .2 and n > 2:
        goals = rng.sample(list(g.t), rng.randint(1, 3))
        args += [gen.spell(rng, x) for x in goals]
    real = {}

    def setup(w):
        for d in ("d0", "d1", "d2", "in"):
            os.makedirs(os.path.join(w, d), exist_ok=True)
        for f, v in stamp.items():
            if v is not None:
                p = os.path.join(w, f.replace("\\", "/"))
                open(p, "w").write("x")
                os.utime(p, ns=(v * 100, v * 100))
        real.update(uptodate.stamps(w, stamp))
    now = time.time_ns() // 100
    r = ctx.run(J, {"Makefile": mk}, args, "time stamp build", setup=setup, **s.kwargs())
    if r.bad:
        return
    if real != stamp:
        raise RuntimeError("time stamps could not be set")
    mt = dict(stamp)
    exe, _, _ = uptodate.simulate(nodes, goals, mt, now, force)
    want = {}
    for x in exe:
        for c in g.t[x].cmds:
            want[c.id] = want.get(c.id, 0) + 1
    h = gen.history(r)
    errs = []
    for cid in sorted(set(want) | set(h)):
        if len(h.get(cid, [])) != want.get(cid, 0):
            errs.append("%s ran %d times, expected %d" % (cid, len(h.get(cid, [])), want.get(cid, 0)))
    if r.rc != 0:
        errs.append("exit code %s: %s" % (r.rc, r.text_err()[-200:]))
    ran = len(set(exe))
    ctx.count("targets_rebuilt", ran)
    need = g.reach(goals)
    ctx.count("targets_left_alone", len(need) - ran)
    rel = []
    for nme in need:
        for d in g.t[nme].deps:
            a, b = stamp.get(nme), stamp.get(d)
            if a is not None and b is not None:
                rel.append((a > b) - (a < b))
                ctx.count("pairs_equal" if a == b else "pairs_within_1s" if abs(a - b) < 10**7 else "pairs_far")
    ctx.distinct(hash((tuple(sorted(want.items())), tuple(rel), g.shape)))
    ctx.sample({"makefile": mk, "args": args, "stamps": stamp, "rebuilt": exe}, 2)
    if errs:
        ctx.violation("%s (%s)" % ("; ".join(errs[:3]), " ".join(args)),
                      replay=ctx.replay_of(r, {"Makefile": mk}, args, errors=errs, stamps=stamp, expected=exe, seed=seed))


def body(ctx):
    ctx.rule = ("random graphs over files with exact ties, 100 ns and 2^32 boundaries, missing files, the future, and commands that touch, leave, backdate or delete their "
                "target; the executed commands are compared with a model of the out-of-date rule; distinct by executed set and time relations")
    ctx.assume("time stamps have a resolution of 100 ns as on NTFS")
    J = ctx.jom()
    ctx.pmap(lambda s: case(ctx, J, s), [ctx.rng.random() for _ in range(ctx.n(600, 10000))])


check.main("P08", body)
