#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check

NOW = 1 << 60
BASE = 1000000000
DEFAULT = [".exe", ".obj", ".asm", ".c", ".cpp", ".cxx", ".bas", ".cbl", ".for", ".pas", ".res", ".rc"]


class O:
    """a target or file; kind: src, hdr, gen (commands make it), inf (inferred), lib (commands)"""
    def __init__(self, name, kind):
        self.name, self.kind, self.deps, self.time, self.makes = name, kind, [], None, []


def fs(n):
    return n.replace("\\", "/")


def j(d, n):
    return n if d in ("", ".") else d + "\\" + n


def build_case(r):
    froms = r.sample([".c", ".cpp", ".cxx", ".asm", ".x1", ".x2"], r.randint(1, 4))
    tos = r.sample([".obj", ".o", ".res"], r.randint(1, 2))
    casing = r.random() < .2        # extensions are case-insensitive
    if casing:
        tos = [t.upper() if r.random() < .5 else t for t in tos]
    default = all(e in DEFAULT for e in froms + tos) and r.random() < .3
    if default:
        suffixes = list(DEFAULT)
        sufl = [] if r.random() < .5 else [".SUFFIXES: .zz"]
    else:
        suffixes = froms + tos
        r.shuffle(suffixes)
        sufl = [".SUFFIXES:"]
        k = r.randint(0, len(suffixes))
        sufl += [".SUFFIXES : " + " ".join(suffixes[:k])] * (k > 0) + [".SUFFIXES: " + "  ".join(suffixes[k:])] * (k < len(suffixes))
        if any(l == ".SUFFIXES: " for l in sufl):
            return None
        if r.random() < .2:
            sufl.append(".SUFFIXES: " + r.choice(suffixes))        # listed already
    fdirs = r.choice([["."], ["."], [".", "src"], ["src", "other\\deep"], ["src\\..\\up", ".hid"], [".\\src"]])
    tdirs = r.choice([["."], ["."], [".", "objs"], ["objs"]])
    rules = []
    for f in froms:
        for t in tos:
            for fd in fdirs:
                for td in tdirs:
                    if r.random() < .85:
                        rules.append([fd, f, td, t, r.random() < .45])
    unused = [[".", ".nosuf", ".", tos[0], False]] if r.random() < .4 and not default else []
    r.shuffle(rules)
    files, nodes = {}, {}
    def get(name, kind):
        if name not in nodes:
            nodes[name] = O(name, kind)
        return nodes[name]
    def old():
        return BASE + r.randint(1, 12) * 100
    hdrs = [get("h%d.h" % i, "hdr") for i in range(r.randint(0, 3))]
    for h in hdrs:
        h.time = old()
    gens = []
    for i in range(r.randint(0, 3)):
        g = get("gen%d.%s" % (i, r.choice(["h", "flag"])), "gen")
        g.deps = [h for h in hdrs if r.random() < .4]
        g.time = old() if r.random() < .5 else None
        g.makes = [g.name]
        if r.random() < .25 and g.time is None:
            g.makes = []               # a pseudo target
        gens.append(g)
    infs = []
    for i in range(r.randint(1, 9)):
        if not rules:
            return None
        rule = r.choice(rules)
        base = r.choice(["m%d", "Mod%d", "a.b%d"]) % i
        o = get(j(rule[2], base + rule[3]), "inf")
        o.base, o.rules = base, [(k, q) for k, q in enumerate(rules) if q[2] == rule[2] and q[3] == rule[3]]
        o.deps = [d for d in hdrs + gens if r.random() < .3] + [d for d in infs if r.random() < .12]
        o.time = old() if r.random() < .5 else None
        # the sources: at least one exists when the turn comes; at most one per extension
        exts = {}
        for k, q in o.rules:
            exts.setdefault(q[1], []).append(q[0])
        n = 0
        for e in sorted(exts, key=lambda _: r.random()):
            if n and r.random() < .6:
                continue
            src = j(r.choice(exts[e]), base + e)
            how = r.random()
            mk = [g for g in o.deps if g.kind == "gen"]
            if how < .7:
                s = get(src, "src")
                s.time = old()
                if r.random() < .2:
                    o.deps.append(s)
            elif how < .85:
                # a target of its own that is an explicit dependent
                s = get(src, "gen")
                s.deps = [h for h in hdrs if r.random() < .4]
                s.time = old() if r.random() < .4 else None
                s.makes = [src]
                o.deps.append(s)
                gens.append(s)
            elif mk:
                # made on the side by a dependent
                g = r.choice(mk)
                if g.time is not None:
                    continue
                s = get(src, "side")
                g.makes.append(src)
            else:
                continue
            n += 1
        if not n:
            e = r.choice(sorted(exts))
            s = get(j(exts[e][0], base + e), "src")
            if s.kind == "src":
                s.time = s.time or old()
        infs.append(o)
    libs = []
    for i in range(r.randint(1, 3)):
        l = get("lib%d.lib" % i, "lib")
        l.deps = [o for o in infs if r.random() < .7] + [d for d in libs + gens if r.random() < .2]
        l.time = old() if r.random() < .5 else None
        l.makes = [l.name]
        libs.append(l)
    # the makefile
    blocks = []
    idx = {}
    for k, (fd, f, td, t, batch) in enumerate(rules):
        if r.random() < .15:
            # an earlier definition of the same rule is replaced
            head = "%s%s%s%s:%s" % ("{%s}" % fd if fd != "." or td != "." else "", f, "{%s}" % td if td != "." or fd != "." else "", t, ":" if batch else "")
            if r.random() < .5:
                blocks.append([head, "\tjt id=Rold"])
    rb = []
    if casing:
        sufl = [sufl[0]] + [l if not l.startswith(".SUFFIXES") else ".SUFFIXES" + re.sub(r"\.\w+", lambda m: m.group().upper() if r.random() < .5 else m.group(), l[9:]) for l in sufl[1:]] if sufl else sufl
    for k, (fd, f, td, t, batch) in enumerate(rules):
        both = fd != "." or td != "." or r.random() < .1
        fdx, tdx = fd + r.choice(["", "\\", "/"]) if fd != "." and r.random() < .3 else fd, td + r.choice(["", "\\", "/"]) if td != "." and r.random() < .3 else td
        head = "%s%s%s%s%s%s" % ("{%s}" % fdx if both else "", f, "{%s}" % tdx if both else "", r.choice([t, t.upper(), t.lower()]) if casing else t, ":", ":" if batch else "")
        inline = r.random() < .3
        rb.append([head, "\tjt id=R%d %s B:%s:%s %s stop $<" % (k, "cat:<<" if inline else "", td, t, r.choice(["", "s:1", "s:3"]))] + ["list $<", "<<"] * inline)
    for q in unused:
        rb.append([q[1] + q[3] + ":", "\tjt id=Runused t:$@"])
    tb = []
    for n in gens + libs:
        tb.append(["%s: %s" % (n.name, " ".join(d.name for d in n.deps)), "\tjt id=%s %s %s" % (n.name, r.choice(["", "s:2", "s:5"]), " ".join("t:" + m for m in n.makes))])
    for o in infs:
        if o.deps or r.random() < .1:
            if len(o.deps) > 1 and r.random() < .3:
                tb.append(["%s: %s" % (o.name, " ".join(d.name for d in o.deps[:1]))])
                tb.append(["%s: %s" % (o.name, " ".join(d.name for d in o.deps[1:]))])
            else:
                tb.append(["%s: %s" % (o.name, " ".join(d.name for d in o.deps))])
    for q in unused:
        for o in infs:
            if r.random() < .3:
                files[o.base + q[1]] = old()
    r.shuffle(rb)
    r.shuffle(tb)
    if r.random() < .5:
        mid = blocks + [["GOAL"]] + rb + tb
        if r.random() < .5:
            mid = blocks + [["GOAL"]] + tb + rb
    else:
        both = rb + tb
        r.shuffle(both)
        mid = blocks + [["GOAL"]] + both
    goal = libs + [o for o in infs if r.random() < .5]
    lines = []
    sp = r.random() < .5
    if sp:
        lines += sufl + [""]
    for b in mid:
        if b == ["GOAL"]:
            lines += ["all: " + " ".join(x.name for x in goal), ""]
        else:
            lines += b + [""]
    if not sp:
        lines += sufl
    for n in nodes.values():
        if n.time is not None:
            files[fs(n.name)] = n.time
    for d in fdirs + tdirs:
        files.setdefault(fs(d) + "/keep", BASE)
    return dict(lines=lines, files=files, nodes=nodes, rules=rules, suffixes=suffixes, goal=goal)


def expect(c):
    """which targets are rebuilt, inferred ones from which source by which rule"""
    order, seen = [], set()
    def visit(n):
        if n.name in seen:
            return
        seen.add(n.name)
        for d in n.deps:
            visit(d)
        order.append(n)
    for g in c["goal"]:
        visit(g)
    exist = {n.name for n in c["nodes"].values() if n.time is not None}
    state = {n.name: n.time for n in c["nodes"].values()}
    state.update({"\0": 0})
    reb, inf = {}, {}
    # side products are made by the time that their only user's turn comes: it depends on the maker
    for n in order:
        if n.kind in ("src", "hdr", "side"):
            continue
        def time(d):
            t = state[d.name]
            return NOW if t is None else t
        if n.kind in ("gen", "lib"):
            if n.time is None or any(time(d) > n.time for d in n.deps):
                reb[n.name] = n
                for m in n.makes:
                    exist.add(m)
                    state[m] = NOW
        else:
            cand = []
            for k, (fd, f, td, t, batch) in n.rules:
                s = j(fd, n.base + f)
                if s in exist:
                    cand.append((c["suffixes"].index(f), k, s, batch))
            if not cand:
                return None
            prio, k, s, batch = min(cand)
            if len([x for x in cand if x[0] == prio]) > 1:
                return None
            if n.time is None or any(time(d) > n.time for d in n.deps) or state[s] > n.time:
                inf[n.name] = (k, s, batch)
                state[n.name] = NOW
                exist.add(n.name)
    return order, reb, inf


def case(ctx, J, seed):
    r = random.Random(seed)
    c = build_case(r)
    if not c:
        return
    e = expect(c)
    if not e:
        return
    order, reb, inf = e
    nj = r.choice([1, 2, 3, 4, 8])
    y = r.random() < .3
    args = ["/nologo", "/J%d" % nj] + ["/Y"] * y
    mk = "\n".join(c["lines"]) + "\n"
    files = {f: "x" for f in c["files"]}
    files["Makefile"] = mk
    def setup(d):
        for f, t in c["files"].items():
            os.utime(os.path.join(d, f), (t, t))
    x = ctx.run(J, files, args, what="inference", setup=setup, chaos=(r.getrandbits(30), 7, 3000) if r.random() < .5 else None)
    if x.bad:
        return
    bad = lambda what: ctx.violation("inference rules: " + what, replay=ctx.replay_of(x, files, args, times={f: t for f, t in c["files"].items()}, expected={n: list(v) for n, v in inf.items()}, rebuilt=sorted(reb)))
    done = {}      # target -> list of (start, end)
    targets_of = {}
    for k, (fd, f, td, t, batch) in enumerate(c["rules"]):
        for o in c["nodes"].values():
            if o.kind == "inf" and any(kk == k for kk, _ in o.rules):
                targets_of[(k, j(fd, o.base + f))] = o.name
    cats = {e.pid: e.a[2] for e in x.ev if e.kind == "CAT"}
    sets = 0
    for pid, (cid, s, en, code, ev) in x.cmds().items():
        m = re.match(r"R(\d+)$", cid)
        if not m:
            if cid not in c["nodes"]:
                return bad("command of an unused or replaced rule run: %s" % ev.a[2])
            done.setdefault(cid, []).append((s, en))
            continue
        k = int(m.group(1))
        srcs = ev.a[2].split(" stop", 1)[1].split()
        batch = c["rules"][k][4]
        if not srcs:
            return bad("rule %d run for no source" % k)
        if len(srcs) > 1 and (y or not batch):
            return bad("several sources at once: %s" % ev.a[2])
        sets += len(srcs) > 1
        if pid in cats:
            ctx.count("inline_source_lists")
            if cats[pid].split() != ["list"] + srcs:
                return bad("the inline file has %r, the command %r" % (cats[pid], srcs))
        for q in srcs:
            if (k, q) not in targets_of:
                return bad("rule %d run for %s, that no target needs" % (k, q))
            t = targets_of[(k, q)]
            if t not in inf:
                return bad("%s is up to date, but rebuilt from %s" % (t, q))
            if inf[t][0] != k or inf[t][1] != q:
                return bad("%s built from %s by rule %s%s instead of from %s" % (t, q, c["rules"][k][1], c["rules"][k][3], inf[t][1]))
            done.setdefault(t, []).append((s, en))
    for t in list(inf) + list(reb):
        n = len(done.get(t, []))
        if n != 1:
            return bad("%s is built %d times instead of once (rc %s, %s)" % (t, n, x.rc, x.text_err()[:100]))
    for t in done:
        if t not in inf and t not in reb:
            return bad("%s is up to date, but rebuilt" % t)
    pairs = 0
    for n in order:
        if n.name in done:
            for d in n.deps:
                if d.name in done:
                    pairs += 1
                    if done[d.name][0][1] is None or done[d.name][0][1] > done[n.name][0][0]:
                        return bad("%s started before its dependent %s was finished" % (n.name, d.name))
    if x.rc != 0:
        return bad("exit code %s: %s" % (x.rc, x.text_err()[:200]))
    ctx.count("inferred_targets_built", len(inf))
    ctx.count("inferred_targets_up_to_date", sum(1 for n in order if n.kind == "inf" and n.name not in inf))
    ctx.count("other_targets_built", len(reb))
    ctx.count("batches_of_several_sources", sets)
    ctx.count("order_pairs_checked", pairs)
    ctx.maxi("rules", len(c["rules"]))
    if inf:
        ctx.distinct(str(hash(mk)) + str(args))
    ctx.sample({"makefile": mk[:900], "args": args, "built": {n: v[1] for n, v in inf.items()}})


def body(ctx):
    ctx.rule = "a build with random inference rules (suffix orders, search paths, batch rules, generated sources, files of several ages) compared with a model; distinct by makefile and options"
    J = ctx.jom()
    ctx.pmap(lambda s: case(ctx, J, s), [ctx.rng.getrandbits(48) for _ in range(ctx.n(1500, 40000))])
    ctx.assume("every inferred target has a source when its turn comes; two sources of the same suffix for one target are left open; sources that are targets themselves are also explicit dependents")


check.main("P25", body)
