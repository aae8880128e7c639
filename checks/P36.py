#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work

MISS = re.compile(r"dependent '(.*)' does not exist")
T0 = 1500000000


def canon(n):
    return n.replace("/", "\\").lower().strip('"')


def case(ctx, J, seed):
    r = random.Random(seed)
    n = r.randint(2, 16)
    names = ["%s%d" % (r.choice(["app", "Lib", "unit", "out\\mod", "sub\\dir\\x", "gen"]), i) + r.choice(["", "", "", ".exe", ".dll"]) for i in range(n)]
    files = {}
    deps, tail, cmds, lines = {}, {}, {}, []
    hard, soft, fine = set(), {}, set()          # missing without a rule; missing although a rule fits; there or makeable
    p = r.choice([0, 0, .03, .08, .2])
    nid = 0
    rules = r.sample([".c.obj", ".cpp.obj", ".rc.res", "{src}.c{bin}.obj", ".asm.o"], r.randint(1, 4))
    if ".asm.o" in rules:
        lines.append(".SUFFIXES: .o")
    for i, t in enumerate(names):
        d = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            nid += 1
            q = r.random()
            if q < .35 and i + 1 < n:
                d.append(r.choice(names[i + 1:]))
            elif q < p + .35:
                x = r.choice(["nosuch%d.h", "no\\where%d.c", "missing %d.txt", "None%d", "src\\gone%d.cxx"]) % nid
                hard.add(x)
                d.append(x)
            elif q < .7:
                x = r.choice(["head%d.h", "inc\\h%d.hpp", "two words %d.txt", "Data%d", "dir%d", "inc\\dir%d"]) % nid
                if "dir" in x:
                    files[x.replace("\\", "/") + "/.keep"] = ("", T0)     # an existing directory is there, too
                else:
                    files[x.replace("\\", "/")] = ("", T0)
                d.append(x)
                fine.add(x)
            else:
                # made by a rule
                rule = r.choice(rules)
                m = re.fullmatch(r"(?:\{(\w+)\})?(\.\w+?)(?:\{(\w+)\})?(\.\w+)", rule)
                src = (m.group(1) + "/" if m.group(1) else "") + "m%d" % nid + m.group(2)
                x = (m.group(3) + "\\" if m.group(3) else "") + "m%d" % nid + m.group(4)
                w = r.random()
                d.append(x)
                if w < .5:
                    files[src] = ("", T0)
                    fine.add(x)
                    cmds[x] = ["rule_" + x.replace("\\", "_")]
                elif w < .5 + p * 2:
                    soft[x] = src
                elif w < .85:
                    # no source, but the file is there
                    files[x.replace("\\", "/")] = ("", T0)
                    fine.add(x)
                elif i + 1 < n:
                    # the source is made by another target that is finished earlier
                    tail[x] = (src, r.choice(names[i + 1:]))
                    fine.add(x)
                    cmds[x] = ["rule_" + x.replace("\\", "_")]
                else:
                    d.pop()
        deps[t] = d
        cmds[t] = ["c%d_%d" % (i, k) for k in range(r.choice([0, 1, 1, 2]))]
    if r.random() < .6:
        deps[names[0]] += [t for t in names[1:] if r.random() < .7]
    makes = {}
    for x, (src, by) in tail.items():
        makes.setdefault(by, []).append(src)
        if not cmds[by]:
            cmds[by] = ["make_" + by.replace("\\", "_")]
    sync = {x: by for x, (src, by) in tail.items()}
    # text
    out = []

    def ref(x):
        s = gen.mangle_case(r, x) if x in deps else x
        if r.random() < .3:
            s = s.replace("\\", "/")
        return '"%s"' % s if " " in s or r.random() < .1 else s
    order = [names[0]] + r.sample(names[1:], n - 1)
    exists, before = set(), {}
    for t in order:
        ds = []
        for x in deps[t]:
            if x in sync:
                continue
            ds.append(x)
        s = " ".join(ref(x) for x in ds)
        mine = [x for x in deps[t] if x in sync]
        if mine:
            # everything before .SYNC is finished before anything after it begins
            gens = sorted({sync[x] for x in mine})
            s += " %s .SYNC %s" % (" ".join(ref(x) for x in gens), " ".join(ref(x) for x in mine))
            for x in mine:
                before[x] = ds + gens
        out.append("%s: %s" % (ref(t), s))
        for k, c in enumerate(cmds[t]):
            out.append("\t@jt id=%s%s" % (c, "".join(" t:%s" % x for x in makes.get(t, [])) if k == 0 else ""))
        if r.random() < .15 and ds:
            out.append("%s: %s" % (ref(t), ref(r.choice(ds))))
        if r.random() < .12 and t not in makes:
            files[t.replace("\\", "/")] = ("", T0 + 5)
            exists.add(t)
    for t in names:
        for x in deps[t]:
            if x in sync and sync[x] not in deps[t]:
                deps[t] = deps[t] + [sync[x]]
    for x, by in sync.items():
        deps[x] = before[x]
    for x, src in soft.items():
        deps.setdefault(x, [])
    for rule in rules:
        out.append(rule + ":\n\t@jt id=rule need:$< args $@")
    files["src/.keep"] = files["bin/.keep"] = files["inc/.keep"] = files["out/.keep"] = ""
    files["Makefile"] = "\n".join(lines + out) + "\n"
    goals = [names[0]]
    if r.random() < .3:
        goals = r.sample(names, min(n, r.randint(1, 3)))
    keep = r.random() < .5
    args = ["-nologo", "-s", "-j", str(r.choice([1, 1, 2, 4]))] + (["/K"] if keep else []) + [gen.mangle_case(r, g) for g in goals]
    if goals == [names[0]] and r.random() < .5:
        args.pop()
    rr = ctx.run(J, files, args)
    if rr.bad:
        return
    def bad(what):
        ctx.violation("seed %s: %s" % (seed, what), replay=ctx.replay_of(rr, files, args))

    def reach(xs):
        seen, todo = set(), list(xs)
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += deps.get(x, [])
        return seen
    needed = reach(goals)
    gone = (hard | set(soft)) & needed
    spoiled = {t for t in names + list(sync) if reach([t]) & (hard | set(soft))}
    # what ran
    argof = {e.pid: e.a for e in rr.ev if e.kind == "ARGS"}
    ran = set()
    for pid, (cid, s, e, code, ev) in rr.cmds().items():
        if cid == "rule":
            ran.add("rule_" + canon(argof[pid][-1]).replace("\\", "_"))
        else:
            ran.add(cid)
    owner = {c.lower() if c.startswith("rule_") else c: t for t in cmds for c in cmds[t]}
    told = {canon(x) for x in MISS.findall(rr.text_err())}
    wrong = told - {canon(x) for x in gone}
    if wrong:
        return bad("%s reported missing, but it exists, can be made or is not needed" % sorted(wrong))
    for c in ran:
        t = owner.get(c)
        if t is None:
            return bad("unknown command %s" % c)
        if t in spoiled:
            return bad("command %s of %s ran although %s is missing" % (c, t, sorted(reach([t]) & (hard | set(soft)))))
    if gone:
        if rr.rc == 0:
            return bad("exit code 0 although %s is missing" % sorted(gone))
        if not told:
            return bad("%s missing, but not reported: %s" % (sorted(gone), rr.text_err()[-300:]))
    elif rr.rc != 0:
        return bad("nothing is missing, but exit code %s: %s" % (rr.rc, rr.text_err()[-300:]))
    if keep or not gone:
        for t in needed:
            if t in spoiled or t not in cmds:
                continue
            if t in exists or t not in deps and t not in cmds:
                continue            # may be up to date
            for c in cmds[t]:
                c = c.lower() if c.startswith("rule_") else c
                if c not in ran:
                    return bad("%s can be built%s, but its command %s did not run" % (t, " with /K although %s is missing" % sorted(gone) if gone else "", c))
        if keep:
            rep = {canon(x) for x in gone & hard}
            # a dependent of a spoiled target may remain unexamined only if a rule would have to make it
            if rep - told:
                return bad("missing, but not reported: %s" % sorted(rep - told))
    ctx.count("cases_with_missing_files", bool(gone))
    ctx.count("cases_with_missing_files_and_K", bool(gone) and keep)
    ctx.count("cases_missing_only_where_a_rule_fits", bool(gone) and not (gone & hard))
    ctx.count("cases_with_unneeded_missing_files", bool((hard | set(soft)) - needed))
    ctx.count("sources_that_come_into_being_during_the_build", len(set(sync) & needed))
    ctx.count("commands_run", len(ran))
    ctx.count("commands_rightly_not_run", sum(len(cmds[t]) for t in needed if t in spoiled and t in cmds))
    ctx.distinct(files["Makefile"])
    if gone:
        ctx.sample({"missing": sorted(gone), "reported": sorted(told), "ran": sorted(ran)[:12], "args": args})


def body(ctx):
    J = ctx.jom("asan")
    ctx.rule = "random graphs with existing files, missing files, files that only an inference rule can make (with a source, without one, with one that an earlier command creates), needed or not, at any depth, with and without /K; what ran, what was reported and the exit code against the graph"
    ctx.pmap(lambda s: case(ctx, J, s), ["m%d/%d" % (ctx.seed, i) for i in range(ctx.n(700, 15000))])
    ctx.assume("a dependent without any rule has to exist when the build of the goal that needs it begins")


check.main("P36", body)
