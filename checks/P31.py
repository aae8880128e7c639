#!/usr/bin/env python3
import collections, os, random, re, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work, uptodate

BASE = 1400000000


def snapshot(w):
    out = {}
    for root, ds, fs in os.walk(w):
        for f in ds + fs:
            p = os.path.join(root, f)
            st = os.lstat(p)
            out[os.path.relpath(p, w)] = (st.st_mtime_ns, open(p, "rb").read()) if os.path.isfile(p) else ("dir",)
    return out


def effects(before, after, r):
    errs = []
    for k in sorted(set(before) | set(after)):
        if before.get(k) != after.get(k):
            errs.append("file %s was %s" % (k, "created" if k not in before else "removed" if k not in after else "changed"))
    bad = [e for e in r.ev if e.kind in ("SPAWN", "SPAWN-FAILED", "S", "CMD", "SYSTEM")]
    if bad:
        errs.append("a process was started: %s" % bad[0])
    return errs


def lines_of(out):
    return [l[1:] for l in out.split("\n") if l.startswith("\t")]


def set_times(w, stamp):
    for f, v in stamp.items():
        if v is not None:
            p = os.path.join(w, f.replace("\\", "/"))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write("x")
            os.utime(p, (v, v))


def dry_case(ctx, J, seed):
    rng = random.Random(seed)
    g = gen.gen_graph(rng, rng.randint(1, 16), maxcmds=3, p_nocmd=rng.choice([0, .15]), forms=("plain", "plain", "and", "redir", "call"))
    srcs = ["src%d.in" % i for i in range(rng.randint(0, 5))]
    stamp = {f: BASE + rng.randint(0, 50) for f in srcs}
    p_exist = rng.choice([.3, .8, .95, 1])
    sorted_ = rng.random() < .6
    inl = {}
    for name, t in reversed(list(g.t.items())):
        t.deps += [f for f in srcs if rng.random() < .3]
        stamp[name] = BASE + rng.randint(0, 60) if rng.random() < p_exist else None
        if stamp[name] and sorted_ and t.deps:
            stamp[name] = max([stamp.get(d) or 0 for d in t.deps] + [BASE]) + rng.choice([0, 1, 5, 5, 5, 5, -1])
        for k, c in enumerate(t.cmds):
            c.pre = rng.choice(["", "", "", "@", "-", "-1"])
            if c.form == "plain" and rng.random() < .25:
                inl[c.id] = rng.choice(["", "named%d.rsp" % len(inl), "named%d.rsp" % len(inl)])
        if t.cmds:
            t.cmds[-1].ops.append("t:" + name)
    mk = gen.render(g, rng)
    for cid, nm in inl.items():
        # the inline text goes behind the command's line
        mk = re.sub(r"(?m)^((?:[ \t]+|.*;[ ]?)@?-?1?[ ]?jt id=%s(?: .*)?)$" % re.escape(cid),
                    lambda m: "%s <<%s\nline one\nline $$ two\n<<%s" % (m.group(1), nm, rng.choice(["", "KEEP", "NOKEEP"])), mk)
    noise = {}                                  # commands that jom or the shell carries out itself
    for t in g.t.values():
        for c in t.cmds:
            if rng.random() < .2:
                k = len(noise)
                noise[c.id] = rng.choice([["md nd%d" % k, "cd nd%d" % k, "cd .."], ["cd d0", "cd ..\\d1", "cd .."], ["-cd nosuch%d" % k], ["set V%d=x" % k], ["rem text %d" % k],
                                          [":label%d" % k], ["@echo x > ech%d.txt" % k], ["if not exist nosuch echo y > ech%d.txt" % k], ["-del src0.in /nosuch%d" % k],
                                          ["-nosuchprogram%d" % k], ["md nd%d && cd nd%d" % (k, k)], ["set V%d=y" % k, "cd d2", "cd ..", "echo %%V%d%%" % k]])
    for cid, lines in noise.items():
        mk, n = re.subn(r"(?m)^(?=[ \t]+@?(?:-?1?|@)[ ]?(?:echo . > NUL && |call )?jt id=%s(?: .*)?$)" % re.escape(cid), lambda m: "".join("\t%s\n" % l for l in lines), mk)
        noise[cid] = lines if n else []
    force = rng.random() < .1
    opts = ["-nologo", "-j", str(work.jobs(rng))] + (["-a"] if force else []) + rng.choice([[], ["-s"], ["-k"], ["-i"], ["-c"]])
    if rng.random() < .2:
        mk = ".SILENT:\n" + mk
    goal = g.goal if rng.random() < .8 else rng.choice(list(g.t))
    if goal != g.goal:
        opts.append(gen.spell(rng, goal))
    args = [rng.choice(["-n", "/n", "-N"])] + opts
    d = J.newdir()
    state = {}

    def setup(w):
        for x in ("d0", "d1", "d2", "TMP"):
            os.makedirs(os.path.join(w, x), exist_ok=True)
        set_times(w, stamp)
        for nm in inl.values():
            if nm and rng.random() < .6:
                open(os.path.join(w, nm), "w").write("mine")
        state["before"] = snapshot(w)
    r = ctx.run(J, {"Makefile": mk}, args, "dry run", setup=setup, d=d)
    if r.bad:
        return
    files = {"Makefile": mk}
    errs = effects(state["before"], snapshot(r.w), r)
    if r.rc != 0:
        errs.append("exit code %s of a dry run: %s" % (r.rc, r.text_err()[-200:]))
    shown = [re.search(r"\bid=(\S+)", l).group(1) for l in lines_of(r.text_out()) if " id=" in l]
    nodes = {n: uptodate.Node(list(t.deps), len(t.cmds), "touch") for n, t in g.t.items()}
    mt = {f: v if v is None else v * 10**7 for f, v in stamp.items()}
    exe, _, _ = uptodate.simulate(nodes, [goal], mt, time.time_ns() // 100, force)
    want = [c.id for n in exe for c in g.t[n].cmds]
    extra = collections.Counter(l.lstrip("@-") for n in exe for c in g.t[n].cmds for l in noise.get(c.id, []))
    seen = collections.Counter(l for l in lines_of(r.text_out()) if " id=" not in l)
    if seen != extra:
        errs.append("the dry run shows %s, but not %s" % (list((seen - extra))[:3], list((extra - seen))[:3]))
    if r.text_err().strip():
        errs.append("a dry run reports %r" % r.text_err()[:200])
    ctx.count("builtin_commands_shown", sum(seen.values()))
    if sorted(shown) != sorted(want):
        a, b = collections.Counter(shown), collections.Counter(want)
        errs.append("the dry run shows %s, expected %s" % (dict(a - b) or "fewer", dict(b - a) or "less"))
    else:
        pos = {c: i for i, c in enumerate(shown)}
        for n in exe:
            ids = [c.id for c in g.t[n].cmds]
            if [pos[c] for c in ids] != sorted(pos[c] for c in ids):
                errs.append("commands of %s are shown out of order" % n)
            for b in g.before(n):
                for c in g.t[b].cmds:
                    if ids and c.id in pos and pos[c.id] > pos[ids[0]]:
                        errs.append("%s is shown after %s, which depends on it" % (c.id, ids[0]))
    ctx.count("commands_shown", len(shown))
    # the real thing, in the very same directory
    r2 = ctx.run(J, {}, opts, "build after the dry run", d=d)
    if not r2.bad and not errs:
        ran = [e.a[0] for e in r2.ev if e.kind == "S"]
        if sorted(ran) != sorted(shown):
            a, b = collections.Counter(shown), collections.Counter(ran)
            errs.append("shown but not run: %s; run but not shown: %s" % (dict(a - b), dict(b - a)))
        ctx.count("commands_compared_with_the_real_build", len(ran))
    ctx.distinct(hash((tuple(shown), g.shape)))
    ctx.sample({"makefile": mk, "args": args, "shown": shown}, 2)
    if errs:
        ctx.violation("%s (%s)" % ("; ".join(errs[:2]), " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs[:8], stamps=stamp, seed=seed))


def infer_case(ctx, J, seed):
    rng = random.Random(seed)
    c = gen.gen_infer(rng)
    mk = c["files"]["Makefile"]
    ext = c["objs"][0].rsplit(".", 1)[1]
    mk = mk.replace("stop $<", "B:.:.%s stop $<" % ext) if c["batch"] else mk
    mk = re.sub(r"jt id=(lib\d+\.lib)", r"jt t:\1 id=\1", mk)
    stamp = {f: BASE + rng.randint(0, 30) for f in c["files"] if f != "Makefile"}
    for f in c["objs"] + list(c["libs"]) + ["gen%d.h" % i for i in range(3)]:
        if rng.random() < .8:
            stamp[f] = BASE + rng.randint(10, 60)
    for o in c["objs"]:
        if c["gencpp"][o] and rng.random() < .7:
            stamp[o.rsplit(".", 1)[0] + ".cpp"] = BASE + rng.randint(0, 30)
    opts = ["-nologo", "-j", "1"] + rng.choice([[], ["-s"], ["-a"], ["-y"]])
    args = ["-n"] + opts
    d = J.newdir()
    state = {}

    def setup(w):
        os.makedirs(os.path.join(w, "TMP"), exist_ok=True)
        set_times(w, stamp)
        state["before"] = snapshot(w)
    r = ctx.run(J, {"Makefile": mk}, args, "dry run with inference rules", setup=setup, d=d)
    if r.bad:
        return
    errs = effects(state["before"], snapshot(r.w), r)
    if r.rc != 0:
        errs.append("exit code %s of a dry run: %s" % (r.rc, r.text_err()[-200:]))
    shown = [" ".join(l.split()) for l in lines_of(r.text_out())]
    r2 = ctx.run(J, {}, opts, "build after the dry run", d=d)
    if not r2.bad and not errs:
        ran = [" ".join(e.a[2].split()) for e in r2.ev if e.kind == "S"]
        a, b = collections.Counter(shown), collections.Counter(ran)
        if a != b:
            errs.append("shown but not run: %s; run but not shown: %s" % (list((a - b))[:3], list((b - a))[:3]))
        ctx.count("commands_compared_with_the_real_build", len(ran))
    ctx.count("inference_cases" + ("_batch" if c["batch"] else ""))
    ctx.distinct(hash(("i", tuple(shown))))
    if errs:
        ctx.violation("%s (%s)" % ("; ".join(errs[:2]), " ".join(args)),
                      replay=ctx.replay_of(r, {"Makefile": mk}, args, errors=errs[:8], stamps=stamp, real=[repr(e) for e in r2.ev if e.kind == "S"], seed=seed))


def dump_case(ctx, J, seed):
    rng = random.Random(seed)
    big = rng.random() < .15
    if big:
        g = gen.Graph()
        w, dep = rng.randint(3, 8), rng.randint(10, 30)
        for i in range(dep):
            for j in range(w):
                g.add(gen.Target("lay%02d_%d" % (i, j), ["lay%02d_%d" % (i + 1, k) for k in range(w)] if i + 1 < dep else []))
        g.goal = "lay00_0"
    else:
        g = gen.gen_graph(rng, rng.randint(1, 30), maxcmds=1)
    files_ = ["leaf%d.in" % i for i in range(rng.randint(0, 3))]
    for t in g.t.values():
        t.deps += [f for f in files_ if rng.random() < .1]
    for i in range(rng.choice([0, 0, 3])):
        g.add(gen.Target("unrelated%d" % i, ["unrelated%d" % (i - 1)] if i else [], [gen.Cmd("u%d" % i)]))
    mk = gen.render(g, rng)
    goal = g.goal if rng.random() < .7 else rng.choice(list(g.t))
    dot = rng.random() < .5
    args = ["-nologo", rng.choice(["-", "/"]) + ("dumpgraphdot" if dot else "dumpgraph")] + rng.choice([[], ["-j", "3"], ["-a"], ["-s"], ["-k"]])
    if goal != g.goal:
        args.append(gen.spell(rng, goal))
    d = J.newdir()
    state = {}

    def setup(w):
        os.makedirs(os.path.join(w, "TMP"), exist_ok=True)
        for f in files_:
            open(os.path.join(w, f), "w")
        state["before"] = snapshot(w)
    r = ctx.run(J, {"Makefile": mk}, args, "dump", setup=setup, d=d)
    if r.bad:
        return
    errs = effects(state["before"], snapshot(r.w), r)
    if r.rc != 0:
        errs.append("exit code %s: %s" % (r.rc, r.text_err()[-200:]))
    reach = g.reach([goal])
    want = collections.Counter((n.lower(), x.lower()) for n in reach for x in set(g.t[n].deps) if x in g.t)
    got, rest = collections.Counter(), []
    ls = r.text_out().split("\n")
    if dot:
        for l in ls:
            m = re.fullmatch(r'\s*"([^"]*)" -> "([^"]*)";', l)
            if m:
                got[(m.group(1).lower(), m.group(2).lower())] += 1
            elif l.strip() not in ("", "digraph G {", "}"):
                rest.append(l)
        if not (ls[0].startswith("digraph") and "}" in ls):
            rest.append("no digraph")
    else:
        stack = []
        for l in ls:
            if not l.strip():
                continue
            depth = len(l) - len(l.lstrip(" "))
            nm = l.strip().lower()
            if depth > len(stack) or nm not in {x.lower() for x in reach} or (depth == 0 and nm != goal.lower()):
                rest.append(l)
                break
            stack = stack[:depth] + [nm]
            if depth:
                got[(stack[depth - 1], nm)] += 1
    if rest:
        errs.append("unexpected output %r" % rest[0])
    elif got != want:
        errs.append("edges printed too often or wrongly: %s; missing: %s" % (list((got - want).items())[:4], list((want - got).items())[:4]))
    ctx.count("edges_printed", sum(got.values()))
    ctx.count("dumps_dot" if dot else "dumps_text")
    ctx.distinct(hash(("d", dot, tuple(sorted(want)))))
    ctx.sample({"args": args, "output": r.text_out()[:500]}, 4)
    if errs:
        ctx.violation("%s (%s)" % ("; ".join(errs[:2]), " ".join(args)), replay=ctx.replay_of(r, {"Makefile": mk}, args, errors=errs[:8], seed=seed))


def body(ctx):
    ctx.rule = ("dry runs over random graphs, file states, inline files, inference and batch rules: no process, no changed file, and exactly the commands that the model predicts and that the real "
                "build in the same directory then runs; dumps of random and of layered graphs: every edge once; distinct by shown commands or edge set")
    ctx.assume("a dry run takes it that every command updates its target; commands in preprocessing directives are not commands of the build")
    J = ctx.jom()
    cs = [(dry_case, ctx.rng.random()) for _ in range(ctx.n(330, 5000))] + [(infer_case, ctx.rng.random()) for _ in range(ctx.n(120, 2000))] + \
        [(dump_case, ctx.rng.random()) for _ in range(ctx.n(250, 4000))]
    ctx.rng.shuffle(cs)
    ctx.pmap(lambda c: c[0](ctx, J, c[1]), cs)


check.main("P31", body)
