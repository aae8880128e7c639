#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work, simctl

KINDS = ["rule", "rule", "rule", "rule2", "nocmd", "infer", "infer", "file", "ruleless"]


def make(rng, ops):
    """a makefile with .SYNC lists; the graph model has the dependencies that they stand for"""
    g = gen.Graph()
    files = {}
    text = {}                       # name -> list of (dependency text lists) per description block
    macros = []
    exists = set()
    n = rng.randint(3, 14)
    names = []

    def new(i):
        w = "%s%d" % (rng.choice(gen.WORDS), i)
        k = rng.choice(KINDS)
        if k == "infer":
            nm = (rng.choice(["", "", "sub\\"]) + w + ".obj")
            base = nm.rsplit(".", 1)[0].replace("\\", "/")
            if "\\" in nm:
                files[base + ".cpp"] = "x"
            else:
                files[base + ".cpp"] = "x"
            t = gen.Target(nm, [], [gen.Cmd(nm.replace("\\", "/"), ops(rng))])
        elif k in ("file", "ruleless"):
            nm = w + (".txt" if k == "file" else ".obj")     # the .obj one matches a rule that has no source
            files[nm] = "x"
            t = gen.Target(nm)
        else:
            nm = rng.choice([w, w, w + ".x", "d\\" + w])
            cmds = [] if k == "nocmd" else [gen.Cmd("%s#%d" % (nm.replace("\\", "/"), j), ops(rng)) for j in range(2 if k == "rule2" else 1)]
            t = gen.Target(nm, [], cmds)
        t.kind = k
        g.add(t)
        names.append(nm)
        return nm
    for i in range(n):
        new(i)
    # the targets with .SYNC lists: all, and some of the others that have description blocks; lower index depends on higher index
    top = gen.Target("all", [], [gen.Cmd("all#0", ops(rng))] if rng.random() < .6 else [])
    top.kind = "rule"
    rest = list(names)
    owners = [top] + [g.t[x] for x in names if g.t[x].kind in ("rule", "rule2", "nocmd") and rng.random() < .3]
    g2 = gen.Graph()
    g2.add(top)
    for t in g.t.values():
        g2.add(t)
    g = g2
    g.goal = "all"
    syncs = 0
    lists = {}
    empty = 0
    derived = {}
    for o in owners:
        if rng.random() < .35 and "\\" not in o.name:
            nm = o.name.split(".")[0] + ".q"
            if nm not in g.t:
                t = gen.Target(nm, [], [gen.Cmd(nm, ops(rng))])
                t.kind = "rule"
                g.add(t)
                names.append(nm)
                derived[nm] = (o.name, rng.choice(["$(@B).q", "$$(@B).q", "$$(@R).q"]))
    for o in owners:
        cand = names if o is top else names[names.index(o.name) + 1:]
        pick = [x for x in cand if rng.random() < (.9 if o is top else .4)]
        rng.shuffle(pick)
        if not pick:
            continue
        blocks = [pick]
        if len(pick) > 3 and rng.random() < .25:
            c = rng.randint(1, len(pick) - 1)
            blocks = [pick[:c], pick[c:]]
        for b in blocks:
            segs = [[]]
            for x in b:
                if rng.random() < .35:
                    segs.append([])
                    while rng.random() < .2:
                        segs.append([])
                segs[-1].append(x)
            if rng.random() < .15:
                segs.append([])
            left, words = [], []
            for k, s in enumerate(segs):
                if k:
                    words.append(".SYNC")
                    syncs += 1
                for x in s:
                    if g.t[x].kind != "file":
                        g.t[x].deps += [y for y in left if y not in g.t[x].deps]
                    if x in derived and derived[x][0] == o.name:
                        words.append(derived[x][1])
                        continue
                    words.append(x if g.t[x].kind == "infer" else gen.spell(rng, x))
                    if rng.random() < .08:
                        words.append(x)
                left = left + s
            lists.setdefault(o.name, []).append(words)
            o.deps += [x for x in b if x not in o.deps]
    # plain dependencies besides
    for x in names:
        if g.t[x].kind in ("rule", "rule2", "nocmd") and x not in lists:
            ds = [y for y in names[names.index(x) + 1:] if rng.random() < .12]
            if ds:
                lists[x] = [ds]
                g.t[x].deps += [d for d in ds if d not in g.t[x].deps]
    # targets whose files exist, but are older than something they depend on
    g.stale = []
    if rng.random() < .5:
        files["newer.src"] = "x"
        g.stale = [t.name for t in g.t.values() if (t.kind in ("rule", "rule2") and t.cmds or t.kind == "infer") and rng.random() < .6]
    lines = []
    order = [top] + rng.sample([g.t[x] for x in names], len(names))
    late = []
    for t in order:
        if t.kind in ("infer", "file", "ruleless"):
            continue
        bl = lists.get(t.name, [[]])
        for k, words in enumerate(bl):
            if len(words) > 1 and rng.random() < .3:
                c = rng.randint(1, len(words) - 1)
                how = rng.random()
                if how < .5 and not any("@" in w for w in words):
                    macros.append("M%d = %s" % (len(macros) + 10, " ".join(words[c:])))
                    txt = " ".join(words[:c]) + " $(M%d)" % (len(macros) + 9)
                else:
                    txt = " ".join(words[:c]) + " \\\n    " + " ".join(words[c:])
            else:
                txt = " ".join(words)
            if k == 0 and t.name in g.stale:
                txt += " newer.src" if words else "newer.src"
            dst = lines if k == 0 else late
            dst.append("%s: %s" % (t.name, txt))
            if k == 0:
                dst += ["\t" + c.line() for c in t.cmds]
    o = " ".join(ops(rng))
    rule = [".SUFFIXES: .cpp .obj", ".cpp.obj:", "\tjt id=$(@:\\=/) %s" % o, "{sub}.cpp{sub}.obj:", "\tjt id=$(@:\\=/) %s" % o]
    mk = "\n".join(macros + (rule + lines + late if rng.random() < .5 else lines + late + rule)) + "\n"
    for t in g.t.values():
        if t.kind == "infer":
            for c in t.cmds:
                c.ops = [o]
    return g, mk, files, syncs


def outdated(g):
    def setup(w):
        for nm in g.stale:
            f = os.path.join(w, nm.replace("\\", "/"))
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w").close()
            os.utime(f, (1000000000, 1000000000))
    return setup


def acyclic(g):
    for n in g.t:
        if n in g.before(n):
            return False
    return True


def build(rng, ops):
    while True:
        st = rng.getstate()
        g, mk, files, syncs = make(rng, ops)
        if syncs and acyclic(g):
            files["Makefile"] = mk
            return g, mk, files, syncs


def verdict(ctx, g, files, args, r, seed, syncs, extra=()):
    errs = list(extra)
    h = gen.history(r)
    e, pairs = gen.check_order(g, r, h)
    errs += e
    errs += gen.check_sequential(g, r, h)
    need = g.reach([g.goal])
    for n in need:
        for c in g.t[n].cmds:
            k = len(h.get(c.id, []))
            if k != 1:
                errs.append("%s ran %d times" % (c.id, k))
    extra_ids = set(h) - set(c.id for n in need for c in g.t[n].cmds)
    if extra_ids:
        errs.append("commands that nothing asks for: %s" % sorted(extra_ids)[:4])
    if r.rc != 0:
        errs.append("exit code %s: %s" % (r.rc, r.text_err()[-300:]))
    ctx.count("ordered_pairs_checked", pairs)
    ctx.count("sync_points", syncs)
    ctx.count("targets_with_outdated_files", len(g.stale))
    ctx.count("commands_observed", sum(len(v) for v in h.values()))
    ctx.distinct(work.interleaving(r))
    if errs:
        ctx.violation("%s (%s)" % (errs[0], " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs, seed=seed))


def free_case(ctx, J, seed):
    rng = random.Random(seed)
    s = work.Sched(rng)
    g, mk, files, syncs = build(rng, s.ops)
    args = ["-nologo", "-s", "-j", str(work.jobs(rng))]
    if rng.random() < .2:
        args.append("-k")
    r = ctx.run(J, files, args, "build with .SYNC", setup=outdated(g), **s.kwargs(work.all_ids(g)))
    if r.bad:
        return
    ctx.sample({"makefile": mk, "args": args, "starts": r.order()}, 2)
    verdict(ctx, g, files, args, r, seed, syncs)


def gate_case(ctx, J, seed, again=False):
    """dependents between two .SYNCs still run in parallel: compared with the graph model at quiescent points"""
    rng = random.Random(seed)
    g, mk, files, syncs = build(rng, lambda _=None: ["wait"])
    jn = work.jobs(rng)
    args = ["-nologo", "-s", "-j", str(jn)]
    need = gen.Graph()
    for x in g.t:
        if x in g.reach([g.goal]):
            need.add(g.t[x])
    m = simctl.ModelCtl(need, jn, rng, patience=12.0 if again else 3.0)
    r = ctx.run(J, files, args, "gated build with .SYNC", control=m.policy, timeout=60, setup=outdated(g))
    if r.bad:
        return
    if m.errs and not again and m.errs[0].startswith("only"):
        return gate_case(ctx, J, seed, True)
    ctx.count("quiescent_points", m.points)
    ctx.count("quiescent_points_all_slots_used", m.full)
    verdict(ctx, g, files, args, r, seed, syncs, m.errs)


def body(ctx):
    ctx.rule = ("dependency lists with .SYNC over rule targets, command-less targets, inferred targets and plain files, new or out of date, in one or more blocks, with macros, continuations, empty segments; the graph "
                "model adds the dependencies the list stands for; order, exactly-once and (gated) parallelism; distinct by interleaving")
    ctx.assume("names are not repeated on both sides of a .SYNC of one list (that would ask for a target before itself)")
    J = ctx.jom()
    n = ctx.n(260, 4000)
    cs = [(free_case, ctx.rng.random()) for _ in range(n)] + [(gate_case, ctx.rng.random()) for _ in range(n // 2)]
    ctx.rng.shuffle(cs)
    ctx.pmap(lambda c: c[0](ctx, J, c[1]), cs)


check.main("P16", body)
