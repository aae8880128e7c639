#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work

CYC = re.compile(r"cycle in targets detected: (.*)")


def on_cycle(deps, roots):
    """names on a cycle that is reachable from roots"""
    def reach(xs):
        seen, todo = set(), list(xs)
        while todo:
            x = todo.pop()
            if x not in seen and x in deps:
                seen.add(x)
                todo += deps[x]
        return seen
    return {n for n in reach(roots) if n in reach(deps[n])}


def add_edge(rng, deps, a, b):
    if b not in deps[a]:
        deps[a].insert(rng.randint(0, len(deps[a])), b)


def planted_cycle(rng, deps):
    """closes a cycle of a random length through a random walk along the edges, or as a new ring"""
    names = list(deps)
    kind = rng.choice(["back", "back", "self", "ring", "pair"])
    if kind == "self":
        x = rng.choice(names)
        add_edge(rng, deps, x, x)
    elif kind in ("ring", "pair"):
        k = min(len(names), 2 if kind == "pair" else rng.randint(2, 9))
        ring = rng.sample(names, k)
        for a, b in zip(ring, ring[1:] + ring[:1]):
            add_edge(rng, deps, a, b)
    else:
        x = first = rng.choice(names)
        for _ in range(rng.randint(1, 30)):
            nxt = [d for d in deps[x] if d in deps]
            if not nxt:
                break
            x = rng.choice(nxt)
        add_edge(rng, deps, x, first)


def render(rng, deps, cmds, first, absolute):
    macros, out, tail = [], [], []
    order = [first] + rng.sample([n for n in deps if n != first], len(deps) - 1)

    def ref(d):
        s = gen.spell(rng, d)
        if d in absolute and rng.random() < .3:
            s = "$(MAKEDIR)\\" + s.replace("/", "\\")
        return '"%s"' % s if rng.random() < .08 else s
    for n in order:
        ds = [ref(d) for d in deps[n]]
        if ds and rng.random() < .1:
            ds.append(ds[0])
        head = ("$(MAKEDIR)\\" if n in absolute else "") + n
        if len(ds) > 1 and rng.random() < .3:
            k = rng.randint(1, len(ds) - 1)
            tail.append("%s: %s" % (head, " ".join(ds[k:])))
            ds = ds[:k]
        s = " ".join(ds)
        if s and rng.random() < .2:
            macros.append("M%d = %s" % (len(macros), s))
            s = "$(M%d)" % (len(macros) - 1)
        out.append("%s: %s" % (head, s))
        out += ["\t@jt id=%s" % c for c in cmds[n]]
        if rng.random() < .2:
            out.append("")
    return "\n".join(macros + out + [""] + tail) + "\n"


def judge(ctx, r, files, args, deps, cmds, goals, seed, what):
    cyc = on_cycle(deps, goals)
    starts = [e.a[0] for e in r.ev if e.kind == "S"]
    m = CYC.search(r.text_err())
    errs = []
    if cyc:
        if not m:
            errs.append("a cycle (%s) is not reported" % ", ".join(sorted(cyc)[:6]))
        else:
            nm = m.group(1).strip().lower().replace("/", "\\").strip('"')
            if not any(nm == c.lower() or nm.endswith("\\" + c.lower()) for c in cyc):
                errs.append("the reported target %r is on no cycle (%s)" % (nm, ", ".join(sorted(cyc)[:6])))
        if r.rc == 0:
            errs.append("exit code 0 despite a cycle")
        if starts:
            errs.append("commands ran despite a cycle: %s" % starts[:4])
        ctx.count("cyclic")
        ctx.maxi("largest_cycle_set", len(cyc))
    else:
        if m:
            errs.append("reported cycle at %s, but there is none" % m.group(1).strip())
        elif r.rc != 0:
            errs.append("exit code %s without a cycle: %s" % (r.rc, r.text_err()[-200:]))
        else:
            seen, todo = set(), list(goals)
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += deps[x]
            want = sorted(c for n in seen for c in cmds[n])
            if sorted(starts) != want and len(goals) == 1:
                errs.append("ran %d commands, expected %d" % (len(starts), len(want)))
        ctx.count("acyclic")
    ctx.distinct(hash((what, len(deps), tuple(sorted(cyc)), tuple(starts[:50]))))
    ctx.sample({"args": args, "on_cycle": sorted(cyc)[:10], "err": r.text_err()[:200], "makefile": files["Makefile"][:1500]}, 3)
    if errs:
        ctx.violation("%s (%s; %s)" % (errs[0], what, " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs, seed=seed))


def graph_case(ctx, J, seed):
    rng = random.Random(seed)
    n = rng.randint(1, 30)
    g = gen.gen_graph(rng, n, maxcmds=1)
    deps = {x: list(t.deps) for x, t in g.t.items()}
    # a second part that the goals need not reach
    other = {}
    for i in range(rng.choice([0, 0, 2, 5])):
        other["other%d" % i] = ["other%d" % j for j in range(i + 1, 5) if rng.random() < .6 and j < i + 5]
    other = {a: [b for b in bs if b in other] for a, bs in other.items()}
    if other:
        if rng.random() < .6:
            planted_cycle(rng, other)
        if rng.random() < .5:
            other[rng.choice(list(other))].append(rng.choice(list(deps)))
    r = rng.random()
    for _ in range(0 if r < .45 else 1 if r < .85 else 3):
        planted_cycle(rng, deps)
    deps.update(other)
    cmds = {x: (["%s" % x.replace("\\", "/")] if rng.random() < .5 else []) for x in deps}
    goals = [g.goal]
    args = ["-nologo"] + rng.choice([[], ["-k"], ["-j", "1"], ["-a"], ["-j", "4", "-k"]])
    if rng.random() < .35:
        goals = rng.sample(list(deps), min(len(deps), rng.randint(1, 3)))
    absolute = {x for x in deps if rng.random() < .12} - set(goals) if rng.random() < .3 else set()
    if goals != [g.goal]:
        args += [gen.spell(rng, x) for x in goals]
    mk = render(rng, deps, cmds, g.goal, absolute)
    files = {"Makefile": mk}
    r = ctx.run(J, files, args, "graph of %d targets" % len(deps))
    if not r.bad:
        judge(ctx, r, files, args, deps, cmds, goals, seed, "graph")


def big_case(ctx, J, seed):
    """many paths or long paths: the answer must come at once"""
    rng = random.Random(seed)
    kind = rng.choice(["layers", "chain", "ladder", "fan"])
    deps = {}
    if kind == "layers":
        w, d = rng.randint(3, 12), rng.randint(8, 25)
        for i in range(d):
            for j in range(w):
                deps["l%02d_%d" % (i, j)] = ["l%02d_%d" % (i + 1, k) for k in range(w)] if i + 1 < d else []
        first, last = "l00_0", "l%02d_%d" % (d - 1, rng.randrange(w))
    elif kind == "ladder":
        d = rng.randint(30, 150)
        for i in range(d):
            deps["r%03d" % i] = ["r%03d" % k for k in (i + 1, i + 2) if k < d]
        first, last = "r000", "r%03d" % (d - 1)
    elif kind == "chain":
        d = rng.choice([300, 1200])
        for i in range(d):
            deps["c%04d" % i] = ["c%04d" % (i + 1)] if i + 1 < d else []
        first, last = "c0000", "c%04d" % (d - 1)
    else:
        d = rng.randint(100, 500)
        deps["top"] = ["f%03d" % i for i in range(d)]
        for i in range(d):
            deps["f%03d" % i] = ["bottom"]
        deps["bottom"] = []
        first, last = "top", "bottom"
    cyclic = rng.random() < .5
    if cyclic:
        deps[last].append(rng.choice([first, last, rng.choice(list(deps))]))
    cmds = {x: [] for x in deps}
    cmds[first] = [first]
    mk = "%s: %s\n\t@jt id=%s\n" % (first, " ".join(deps[first]), first)
    for x in rng.sample(list(deps), len(deps)):
        if x != first:
            mk += "%s: %s\n" % (x, " ".join(deps[x]))
    files, args = {"Makefile": mk}, ["-nologo", "-j", str(rng.choice([1, 8]))]
    r = ctx.run(J, files, args, "big graph (%s, %d targets)" % (kind, len(deps)), timeout=40)
    ctx.count("big_" + kind)
    if not r.bad:
        judge(ctx, r, files, args, deps, cmds, [first], seed, "big " + kind)


def body(ctx):
    ctx.rule = ("random graphs with and without planted cycles (self loops, pairs, rings, back edges; reachable from the goals or not), respelled, split over blocks, in macros and "
                "defined by full path, plus layered graphs with an astronomical number of paths; jom's verdict is compared with a reference cycle detection; distinct by cycle set and history")
    ctx.assume("dependencies that only come from inference rules are not counted as part of a cycle")
    J, P = ctx.jom(), ctx.jom("plain")
    seeds = [(graph_case, J, ctx.rng.random()) for _ in range(ctx.n(700, 12000))] + [(big_case, P, ctx.rng.random()) for _ in range(ctx.n(40, 300))]
    ctx.rng.shuffle(seeds)
    ctx.pmap(lambda c: c[0](ctx, c[1], c[2]), seeds)


check.main("P26", body)
