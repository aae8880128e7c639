#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work


def disguise(rng, mk):
    """put things before the first target that are no targets, or move everything into an included file"""
    files = {}
    pre = ""
    if rng.random() < .5:
        pre = rng.choice([".SUFFIXES: .cpp .obj\n", ".cpp.obj:\n\tjt id=never $<\n", "!IF 0\nwrong:\n\tjt id=never\n!ENDIF\n", "# wrong: comment\n", "M = wrong:\n",
                          "{sub}.c{obj}.obj::\n\tjt id=never\n", "!IFDEF NOTHING\nwrong:\n\tjt id=never\n!ELSE\n!ENDIF\n", ".PRECIOUS: wrong\n", "!MESSAGE wrong:\n"])
    if rng.random() < .25:
        files["rest.mak"] = mk
        mk = "!INCLUDE rest.mak\nlastone:\n\tjt id=never\n"
    files["Makefile"] = pre + mk
    return files


def case(ctx, J, seed):
    rng = random.Random(seed)
    s = work.Sched(rng)
    g = gen.gen_graph(rng, rng.randint(2, 20), ops=s.ops, forms=gen.ALL_FORMS, shape=rng.choice(["tree", "random", "layered", "diamond", "wide"]))
    names = list(g.t)
    kind = rng.choice(["default", "goals", "goals", "goals", "goals", "unknown", "fail"])
    goals = [rng.choice(names) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    fail = None
    if kind == "default":
        goals = []
    elif kind == "fail":
        cand = [t for t in g.t.values() if t.cmds and t.name in g.reach(goals)]
        if cand:
            t = rng.choice(cand)
            fail = t.name
            t.cmds[-1].code = 3
    plain = {}
    setup = gen.stale(g, rng, plain)
    mk = gen.render(g, rng)
    files = dict(disguise(rng, mk), **plain)
    form = {x: gen.spell(rng, x) for x in goals}
    spelled = [form[x] for x in goals]
    goals = list(dict.fromkeys(goals))           # a goal that is named again counts once
    bad = None
    if kind == "unknown":
        bad = rng.choice(["nosuchtarget", "alph", "plainfile.txt", names[0] + "x", "rest"])
        spelled.insert(rng.randint(0, len(spelled)), bad)
        files["plainfile.txt"] = "x"
    opts = ["-nologo", "-s", "-j", str(work.jobs(rng))]
    args = opts + spelled if rng.random() < .7 else spelled + opts
    if rng.random() < .2:
        args.insert(rng.choice([0, len(args)]), "ANYMACRO=value")
    r = ctx.run(J, files, args, "build of %s" % " ".join(spelled), setup=setup, **s.kwargs(work.all_ids(g)))
    if r.bad:
        return
    errs = []
    h = gen.history(r)
    if "never" in h:
        errs.append("a command that belongs to no target of the makefile ran")
    if bad is not None:
        if h:
            errs.append("commands ran although goal %s does not exist: %s" % (bad, sorted(h)[:5]))
        if r.rc == 0:
            errs.append("exit code 0 although goal %s does not exist" % bad)
        if bad.lower() not in (r.text_err() + r.text_out()).lower():
            errs.append("the unknown goal %s is not named" % bad)
    else:
        segs = []
        for x in goals or [g.goal]:
            reach = g.reach([x])
            segs.append((x, set(c.id for n in reach for c in g.t[n].cmds)))
            if fail and fail in reach:
                break
        evs = [e for e in r.ev if e.kind in "SE" and e.a]
        i = 0
        running = {}
        todo = list(segs)
        cur_name, cur = todo.pop(0)
        cur = set(cur)
        while todo and not cur:
            cur_name, cur = todo.pop(0)[0], set(segs[len(segs) - len(todo) - 1][1])
        for e in evs:
            cid = e.a[0]
            if e.kind == "S":
                if not cur and not running:
                    while todo and not cur:
                        cur_name, c2 = todo.pop(0)
                        cur = set(c2)
                if cid not in cur:
                    errs.append("command %s started while goal %s was being built (left of it: %s, running: %s)" % (cid, cur_name, sorted(cur)[:4], sorted(running.values())[:4]))
                    break
                cur.discard(cid)
                running[e.pid] = cid
            else:
                running.pop(e.pid, None)
        ctx.count("goal_boundaries", max(0, len(segs) - 1))
        if not fail:
            left = cur | set().union(*[c for _, c in todo]) if (cur or todo) else set()
            if left and not errs:
                errs.append("commands never ran: %s" % sorted(left)[:5])
            if r.rc != 0:
                errs.append("exit code %s" % r.rc)
        else:
            if r.rc != 2:
                errs.append("exit code %s after a failure" % r.rc)
        errs += gen.check_sequential(g, r, h) if len(segs) == 1 else []
    ctx.count("kind_" + kind)
    ctx.distinct(hash((tuple(goals), work.interleaving(r), bad)))
    ctx.sample({"makefile": files["Makefile"], "args": args, "starts": r.order()}, 2)
    if errs:
        ctx.violation("%s (%s)" % (errs[0], " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs, seed=seed))


def produce(ctx, J, seed):
    """files that an earlier goal makes are used by a later one"""
    rng = random.Random(seed)
    s = work.Sched(rng, rng.choice(["none", "sleep", "chaos"]))
    k = rng.randint(1, 4)
    mk = "all: p0\n\tjt id=all\n"
    for i in range(k):
        o = " ".join(s.ops())
        mk += "gen%d:\n\tjt id=gen%d %s t:made%d.h\n" % (i, i, o, i)
        how = rng.choice(["dep", "infer", "rule"])
        if how == "dep":
            mk += "p%d: made%d.h\n\tjt id=p%d %s need:made%d.h t:p%d\n" % (i, i, i, o, i, i)
        elif how == "rule":
            mk += "made%d.h:\n\tjt id=wrong%d t:made%d.h\np%d: made%d.h\n\tjt id=p%d need:made%d.h t:p%d\n" % (i, i, i, i, i, i, i, i)
        else:
            mk += ".SUFFIXES: .h .p%d\n.h.p%d:\n\tjt id=p%d need:$< t:$@\nmade%d.p%d: \np%d: made%d.p%d\n" % (i, i, i, i, i, i, i, i)
    files = {"Makefile": mk}
    goals = []
    for i in range(k):
        goals += ["gen%d" % i, "p%d" % i]
        if rng.random() < .3:
            goals += ["p%d" % i]
    args = ["-nologo", "-s", "-j", str(work.jobs(rng))] + goals
    r = ctx.run(J, files, args, "goals that use files of earlier goals", **s.kwargs())
    if r.bad:
        return
    order = r.order()
    want = [x for j, x in enumerate(goals) if x not in goals[:j]]
    errs = []
    if order != want:
        errs.append("commands %s, expected %s" % (order, want))
    if r.rc != 0:
        errs.append("exit code %s: %s" % (r.rc, r.text_err()[-200:]))
    for e in r.ev:
        if e.kind == "NEED" and e.a[2] != "1":
            errs.append("%s was not there when %s ran" % (e.a[1], e.a[0]))
    ctx.count("producer_goals")
    ctx.distinct(hash((mk, tuple(goals))))
    if errs:
        ctx.violation("%s (%s)" % (errs[0], " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs, seed=seed))


def clean(ctx, J, seed):
    """goals that make, use and remove the same files, in any order"""
    rng = random.Random(seed)
    s = work.Sched(rng, rng.choice(["none", "sleep", "chaos"]))
    k = rng.randint(1, 4)
    o = lambda: " ".join(s.ops())
    src = {i: rng.random() < .5 for i in range(k)}
    have = {i for i in range(k) if rng.random() < .5}
    files, mk, uses, cleans = {}, "", {}, {}
    for i in range(k):
        f = rng.choice(["File%d.x", "sub\\file%d.x", "file%d"]) % i
        if src[i]:
            files["src%d" % i] = ("x", 1200000000)
        if i in have:
            files[f.replace("\\", "/")] = ("x", 1300000000)
        mk += "%s: %s\n\tjt id=make%d %s t:%s\n" % (f, "src%d" % i if src[i] else "", i, o(), f)
        cleans["make%d" % i] = f
    for g in range(rng.randint(1, 3)):
        fs = [i for i in range(k) if rng.random() < .6]
        uses["use%d" % g] = fs
        mk += "use%d: %s\n\tjt id=use%d %s\n" % (g, " ".join(cleans["make%d" % i] for i in fs), g, o())
    rm = {}
    for g in range(rng.randint(1, 3)):
        fs = [i for i in range(k) if rng.random() < .7]
        rm["clean%d" % g] = fs
        mk += "clean%d:\n\tjt id=clean%d %s %s\n" % (g, g, o(), " ".join("d:" + cleans["make%d" % i] for i in fs))
    goals = list(uses) + list(rm) + ["make%d" % i for i in range(k) if rng.random() < .6]
    rng.shuffle(goals)
    files["sub/keep"] = "x"
    files["Makefile"] = mk
    want = []
    for g in goals:
        if g in rm:
            have -= set(rm[g])
            want.append({g})
            continue
        need = [int(g[4:])] if g.startswith("make") else uses[g]
        m = {"make%d" % i for i in need if i not in have}
        have |= set(need)
        if m:
            want.append(m)
        if g in uses:
            want.append({g})
    args = ["-nologo", "-s", "-j", str(work.jobs(rng))] + [cleans.get(g, g) for g in goals]
    r = ctx.run(J, files, args, "goals that remove files", **s.kwargs())
    if r.bad:
        return
    order, errs, got = r.order(), [], list(r.order())
    for m in want:
        if set(got[:len(m)]) != m:
            errs.append("commands %s where %s is expected: %s" % (got[:len(m)], sorted(m), order))
            break
        del got[:len(m)]
    if got and not errs:
        errs.append("unexpected commands %s" % got)
    if r.rc != 0:
        errs.append("exit code %s: %s" % (r.rc, r.text_err()[-200:]))
    ctx.count("goals_after_removals")
    ctx.distinct(hash((mk, tuple(goals))))
    if errs:
        ctx.violation("%s (%s)" % (errs[0], " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs, seed=seed))


def body(ctx):
    ctx.rule = ("random graphs with 0-4 goals (repeated, respelled, unknown, failing), first targets hidden behind directives, rules and includes; starts must be segmented by goal; "
                "distinct by goals and interleaving")
    J = ctx.jom()
    n = ctx.n(400, 6000)
    cs = [(case, ctx.rng.random()) for _ in range(n)] + [(produce, ctx.rng.random()) for _ in range(n // 5)] + [(clean, ctx.rng.random()) for _ in range(n // 5)]
    ctx.rng.shuffle(cs)
    ctx.pmap(lambda c: c[0](ctx, J, c[1]), cs)


check.main("P10", body)
