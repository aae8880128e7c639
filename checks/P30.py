#!/usr/bin/env python3
import collections, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen

WORDS = ["all", "app", "Main", "lib", "Obj", "data", "x86", "Doc", "test", "very_long_target_name", "a.b", "c++", "UP", "z-1"]
UNI = ["gr\u00f6\u00dfe", "\u00c4pfel", "caf\u00e9", "\u0394elta", "\u0436uk"]


def canon(n):
    return n.replace("/", "\\").lower()


def spell(r, n, alt=True):
    if alt and r.random() < .6:
        n = "".join((c.swapcase() if len(c.swapcase()) == 1 and c.swapcase().lower() == c.lower() else c) if r.random() < .4 else c for c in n)
    if r.random() < .5:
        n = n.replace("\\", "/")
    if " " in n or (alt and r.random() < .15):
        n = '"%s"' % n
    return n


def make(r, mix):
    """targets, blocks and what they amount to"""
    n = r.choice([1, 2, 3, 4, 6, 9, 14])
    names = []
    uni = r.random() < .2
    for i in range(n):
        w = r.choice(WORDS + (UNI if uni else [])) + str(i)
        q = r.random()
        if q < .2:
            w = "out\\" + w
        elif q < .27:
            w = "out\\sub dir\\" + w
        elif q < .34:
            w = w + " x"
        if q > .9:
            w += r.choice([".obj", ".EXE", ".c"])
        names.append(w)
    leaves = ["src\\leaf%d.c" % i for i in range(3)] + ["Head.h", "two words.txt"]
    kind = {t: r.choice([":", ":", "::"]) for t in names}
    deps = {t: [] for t in names}
    cmds = {t: [] for t in names}
    warn = 0
    blocks = []
    nid = [0]

    def commands():
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            nid[0] += 1
            out.append("c%d" % nid[0])
        return out

    def block(ts, sep):
        nonlocal warn
        later = names[max(names.index(t) for t in ts) + 1:]
        pool = later + leaves
        d = [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        c = commands()
        for t in ts:
            deps[t] += d
            if c:
                if sep == "::" or not cmds[t]:
                    cmds[t] += c
                else:
                    warn += 1
        blocks.append((ts, sep, d, c))
    per = []
    for t in names:
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            per.append([t])
    r.shuffle(per)
    i = 0
    while i < len(per):
        ts = per[i]
        i += 1
        # several targets in one line
        while i < len(per) and r.random() < .3 and per[i][0] not in ts and kind[per[i][0]] == kind[ts[0]]:
            ts = ts + per[i]
            i += 1
        block(ts, kind[ts[0]])
    # every target is reachable from the goal, by a block of dependents only
    goal = names[0]
    rest = names[1:]
    for k in range(0, len(rest), 4):
        if r.random() < .8:
            deps[goal] += rest[k:k + 4]
            blocks.append(([goal], kind[goal], rest[k:k + 4], []))
    mixed = None
    if mix:
        # one target with both separators
        ts = [t for t in names if any(t in b[0] for b in blocks)]
        t = r.choice(ts)
        other = "::" if kind[t] == ":" else ":"
        at = r.randint(0, len(blocks))
        extra = [x for x in names if x != t and r.random() < .2 and not any(x in b[0] for b in blocks[:at])]
        extra = []
        blocks.insert(at, ([t] + extra, other, [], commands() if r.random() < .5 else []))
        mixed = t
    first = blocks[0][0][0]
    return names, leaves, blocks, deps, cmds, warn, first, mixed


def render(r, blocks, crlf):
    out = []
    for i, (ts, sep, d, c) in enumerate(blocks):
        colon = r.choice(["", "", " "]) + sep + r.choice([" ", "  ", "\t"])
        left = " ".join(spell(r, t) for t in ts)
        right = " ".join(spell(r, x) for x in d)
        if r.random() < .1 and "$" not in left:
            out.append("T%d=%s" % (i, left))
            left = "$(T%d)" % i
        if len(d) > 2 and r.random() < .2:
            right = right.replace(" ", " \\\n   ", 1) if '"' not in right else right
        line = left + colon + right
        ls = ['jt id=%s args $@ @@ $**' % x for x in c]
        if ls and r.random() < .15:
            line += " ; " + ls.pop(0)
        out.append(line.rstrip())
        out += ["\t" + l for l in ls]
        if r.random() < .4 and ls:
            out.append("")
        if r.random() < .1 and ls:
            out.append("# remark")
    return "\n".join(out) + "\n"


def case(ctx, J, seed):
    r = random.Random(seed)
    names, leaves, blocks, deps, cmds, warn, first, mixed = make(r, r.random() < .12)
    text = render(r, blocks, False)
    files = {"makefile": ("\ufeff" if any(ord(c) > 127 for c in text) else "") + text}
    for l in leaves:
        files[spell(random.Random(seed), l).replace('"', "").replace("\\", "/") if " " not in l else l] = ("", 1500000000)
    jobs = r.choice([1, 1, 2, 4])
    args = ["/NOLOGO", "/J", str(jobs)]
    q = r.random()
    goals = [first]
    if q < .5 and names[0].isascii():
        goals = [names[0]]
        args.append(spell(r, names[0]).replace('"', ""))
    elif q < .7:
        goals = [r.choice(names)]
        if any(ord(c) > 127 for g in goals for c in g):
            goals = [first]
        else:
            args += [spell(r, g).replace('"', "") for g in goals]
    rr = ctx.run(J, files, args)
    if rr.bad:
        return
    def bad(what):
        ctx.violation("seed %s: %s" % (seed, what), replay=ctx.replay_of(rr, files, args))
    runs = collections.OrderedDict()
    argof = {e.pid: e.a[3:] for e in rr.ev if e.kind == "ARGS"}
    err = rr.text_err()
    if mixed is not None:
        if not runs_error(rr, err):
            bad("target %s has : and :: but jom said nothing (exit code %s)" % (mixed, rr.rc))
        elif any(e.kind == "S" for e in rr.ev):
            bad("target %s has : and :: but commands ran" % mixed)
        ctx.count("cases_mixing_both_separators")
        ctx.distinct("mixed %s" % seed)
        return
    if rr.rc != 0:
        return bad("exit code %s: %s" % (rr.rc, err[-400:]))
    seqs = collections.defaultdict(list)
    span = {}
    for pid, (cid, s, e, code, ev) in rr.cmds().items():
        a = argof.get(pid)
        if a is None or "@@" not in a:
            return bad("arguments of %s not seen: %s" % (cid, a))
        i = a.index("@@")
        t = canon(" ".join(a[:i]))
        seqs[t].append((s, e, cid, [canon(x) for x in a[i + 1:]]))
    # what is expected
    by = {canon(t): t for t in names}
    todo, need = list(goals), []
    while todo:
        t = todo.pop()
        if t in need or t not in deps:
            continue
        need.append(t)
        todo += deps[t]
    def uniq(xs):
        return list(dict.fromkeys(xs))
    for t in seqs:
        if t not in by or by[t] not in need:
            return bad("commands for %s, which is not needed" % t)
    for t in need:
        got = sorted(seqs.get(canon(t), []))
        if [g[2] for g in got] != cmds[t]:
            return bad("target %s runs %s, its blocks say %s" % (t, [g[2] for g in got], cmds[t]))
        want = uniq(canon(x) for x in deps[t])
        for s, e, cid, ds in got:
            if uniq(ds) != want:
                return bad("target %s, command %s: dependents %s, its blocks say %s" % (t, cid, uniq(ds), want))
        if not got:
            continue
        # dependents first
        seen, td = set(), list(deps[t])
        while td:
            d = td.pop()
            if d in seen or d not in deps:
                continue
            seen.add(d)
            td += deps[d]
            for s, e, cid, ds in seqs.get(canon(d), []):
                if e is None or e > got[0][0]:
                    return bad("target %s started before its dependent %s was finished" % (t, d))
    n = err.count("Cannot add commands to previously defined target")
    if n != warn:
        return bad("%d warnings about ignored commands, expected %d" % (n, warn))
    ctx.count("targets", len(names))
    ctx.count("blocks", len(blocks))
    ctx.count("commands_checked", sum(len(v) for v in seqs.values()))
    ctx.count("dependents_compared", sum(len(set(deps[t])) for t in need))
    ctx.maxi("most_blocks_of_one_target", max(sum(t in b[0] for b in blocks) for t in names))
    ctx.count("lines_with_several_targets", sum(len(b[0]) > 1 for b in blocks))
    ctx.count("ignored_second_command_blocks", warn)
    ctx.distinct(text)
    ctx.sample({"makefile": text[:700]}, 2)


def runs_error(rr, err):
    return rr.rc != 0 and "cannot have : and :: dependents for same target" in err


def body(ctx):
    J = ctx.jom("asan")
    ctx.rule = "targets scattered over description blocks (alone and several per line, : and ::, with and without commands, from macros, continued, with inline commands), every mention in another spelling (letter case including non-ASCII letters, / and \\, quotes), goals in yet other spellings; the executed commands with their $@ and $** are compared with the sum of the blocks"
    ctx.pmap(lambda s: case(ctx, J, s), ["c%d/%d" % (ctx.seed, i) for i in range(ctx.n(600, 15000))])
    ctx.assume("a second : block with commands is ignored with a warning; a target mentioned twice in one line is left open")


check.main("P30", body)
