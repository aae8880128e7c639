#!/usr/bin/env python3
import os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work, macros as M

MACROS = {"M": "value", "LIST": "a.cpp b.cpp  c.cpp", "EMPTY": "", "NEST": "<$(M)>", "Q": "\"q r\"", "BS": "dir\\sub"}
PIECES = ["plain", "two words", "-O2 /W3", "$(M)", "$(LIST)", "$(LIST:.cpp=.obj)", "$(EMPTY)", "$(NEST)", "$(UNDEF)", "$$", "$$(M)", "#no comment", "100%", "%PATH%", "^ ", "a^b ", "\"quoted\"",
          "x << y", "a & b | c > d", "$(Q)", "$(BS)\\f", "\\", "tab\there", ";", ":", "=", "a: b", "@echo", "-1", "(", ")"]
FMACROS = ["$@", "$(@F)", "$(@B)", "$**", "$(**F)"]


def line(rng, fm):
    s = rng.choice(["", "", "", " ", "\t", "    "])
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
        s += (rng.choice(fm) if fm and rng.random() < .2 else rng.choice(PIECES)) + rng.choice([" ", " ", "", "  "])
    if s.startswith("<<") or s.startswith("!") or s.rstrip().endswith("$") and not s.rstrip().endswith("$$"):
        s = "x" + s
    return s + rng.choice(["", "", " ", "\\" if not s.endswith("^") else ""])


def text(rng, fm):
    n = rng.choice([0, 1, 1, 2, 3, 6]) if rng.random() < .97 else rng.randint(50, 400)
    return [line(rng, fm) for _ in range(n)]


def last(p):
    return p.replace("/", "\\").rsplit("\\", 1)[-1]


def expected(lines, name, deps, infer=None):
    fv = {"$@": name, "$(@F)": last(name), "$(@B)": last(name).rsplit(".", 1)[0], "$**": " ".join(deps), "$(**F)": " ".join(last(d) for d in deps)}
    if infer is not None:
        fv["$<"] = infer
    keys = sorted(fv, key=len, reverse=True)
    out = []
    for l in lines:
        t, i, seg = "", 0, 0
        while i < len(l):
            k = next((k for k in keys if l.startswith(k, i)), None)
            if l.startswith("$$", i):
                i += 2
            elif k:
                t += M.expand(l[seg:i], MACROS) + fv[k]
                i = seg = i + len(k)
            else:
                i += 1
        out.append(t + M.expand(l[seg:], MACROS))
    return "".join(t + "\r\n" for t in out).encode()


class Inline:
    def __init__(self, name, keep, lines):
        self.name, self.keep, self.lines = name, keep, lines

    def ref(self, rng):
        if not self.name:
            return "<<"
        return '<<"%s"' % self.name if " " in self.name or rng.random() < .2 else "<<" + self.name


def read_tree(w):
    out = {}
    for root, ds, fs in os.walk(w):
        for f in fs:
            p = os.path.join(root, f)
            out[os.path.relpath(p, w)] = open(p, "rb").read()
    return out


def graph_case(ctx, J, seed):
    rng = random.Random(seed)
    s = work.Sched(rng, rng.choice(["none", "sleep", "sleep", "chaos", "ctl"]))
    chain = rng.random() < .4
    g = gen.gen_graph(rng, rng.randint(1, 12), shape="chain" if chain else None, maxcmds=3, ops=s.ops, forms=("plain",), p_nocmd=.1)
    if chain:
        names = list(g.t)
        for a, b in zip(names, names[1:]):
            if b not in g.t[a].deps:
                g.t[a].deps.append(b)
    for t in g.t.values():                 # one spelling, so that $** is known
        t.deps = list(dict.fromkeys(t.deps))
    keep_of, inl, failing = {}, {}, set()
    pool = ["common.rsp", "sub\\c.rsp", "with blank.rsp", "dots.in.name.txt"]
    for t in g.t.values():
        mine = ["%s_%d.rsp" % (last(t.name), k) for k in range(2)]
        for c in t.cmds:
            fs = []
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                nm = "" if rng.random() < .45 else rng.choice(pool if chain and rng.random() < .7 else mine)
                if nm and nm in [f.name for f in fs]:
                    nm = ""
                keep = keep_of.setdefault(nm, rng.random() < .4) if nm else rng.random() < .25
                fs.append(Inline(nm, keep, text(rng, FMACROS)))
            inl[c.id] = fs
            if rng.random() < .06:
                c.code = rng.choice([1, 2, 255])
                failing.add(c.id)
                if rng.random() < .3:
                    c.ops.append("crash")
    kopt = rng.random() < .5
    mk = ["%s = %s" % kv for kv in MACROS.items()]
    order = list(g.t.values())
    for t in [order[0]] + rng.sample(order[1:], len(order) - 1):
        mk.append("%s: %s" % (t.name, " ".join(t.deps)))
        for c in t.cmds:
            ln = "\t" + rng.choice(["", "", "@"]) + c.line()
            for f in inl[c.id]:
                ln += " cat:" + f.ref(rng)
            if c.code or "crash" in c.ops:      # the exit code comes last
                ln = re.sub(r" (x:\d+|crash)(?= |$)", "", ln) + (" crash" if "crash" in c.ops else "") + " x:%d" % (c.code or 1)
            mk.append(ln)
            for f in inl[c.id]:
                mk += f.lines + ["<<" + rng.choice(["", " "]) + ("KEEP" if f.keep else rng.choice(["", "NOKEEP"]))]
        if rng.random() < .3:
            mk.append("")
    mk = "\n".join(mk) + "\n"
    args = ["-nologo", "-j", str(work.jobs(rng))] + (["-k"] if kopt else []) + rng.choice([[], ["-s"]])
    goals = [g.goal]
    if rng.random() < .3:
        goals = rng.sample(list(g.t), min(len(g.t), rng.randint(1, 3)))
        args += goals
    blank = rng.random() < .2
    d = J.newdir()

    def hard(e):
        if blank:
            e["TMP"] = e["TEMP"] = os.path.join(d, "w", "tmp dir")
        return e
    files = {"Makefile": mk}
    kw = s.kwargs(work.all_ids(g))
    ids = {last(n) + "#" for n in g.t}

    def setup(w):
        for x in ("sub", "tmp dir", "d0", "d1", "d2"):
            os.makedirs(os.path.join(w, x), exist_ok=True)
    r = ctx.run(J, files, args, "inline files", d=d, setup=setup, hard_env=hard, **kw)
    after = read_tree(r.w)
    shutil.rmtree(d, ignore_errors=True)
    if r.bad:
        return
    by_id = {c.id: (t, c) for t in g.t.values() for c in t.cmds}
    errs, kept, live = [], {}, {}
    last_write = {}
    read = {}
    for e in r.ev:
        if e.kind == "CAT":
            read.setdefault(e.pid, []).append(e)
    checked = 0
    for pid, (cid, st, en, code, ev) in r.cmds().items():
        t, c = by_id[cid]
        got = read.get(pid, [])
        fs = inl[cid]
        if len(got) != len(fs):
            errs.append("%s read %d inline files instead of %d" % (cid, len(got), len(fs)))
            continue
        names = []
        for f, e in zip(fs, got):
            want = expected(f.lines, t.name, t.deps)
            have = e.a[2].encode('utf-8', 'surrogateescape') if len(e.a) > 2 else b""
            nm = e.a[1]
            checked += 1
            if have != want:
                errs.append("%s: inline file %s holds %r instead of %r" % (cid, f.name or "(unnamed)", have[:200], want[:200]))
            rel = os.path.relpath(nm.replace("\\", "/"), r.w) if not f.name else f.name.replace("\\", "/")
            if f.name and nm.replace("/", "\\") != f.name:
                errs.append("%s: inline file is called %s instead of %s" % (cid, nm, f.name))
            if not f.name and os.path.dirname(rel) != ("tmp dir" if blank else "TMP"):
                errs.append("%s: unnamed inline file at %s" % (cid, nm))
            names.append((rel, f, want))
            last_write[rel] = (st, want, f.keep) if rel not in last_write or last_write[rel][0] <= st else last_write[rel]
        if len({n for n, _, _ in names}) != len(names):
            errs.append("%s: two inline files of one command share a name" % cid)
        live[pid] = (st, en if en is not None else 10**9, {n for n, f, _ in names if not f.name})
    pids = list(live)
    for i, a in enumerate(pids):
        for b in pids[i + 1:]:
            if live[a][0] < live[b][1] and live[b][0] < live[a][1] and live[a][2] & live[b][2]:
                errs.append("commands running at the same time share the inline file %s" % (live[a][2] & live[b][2]))
    for rel, (st, want, keep) in last_write.items():
        if keep and after.get(rel) != want:
            errs.append("%s with KEEP is %s after the build" % (rel, "missing" if rel not in after else "different"))
        if not keep and rel in after:
            errs.append("%s without KEEP is left after the build" % rel)
    extra = [x for x in after if x not in last_write and x != "Makefile" and not x.startswith("d")]
    if extra:
        errs.append("left over: %s" % extra[:3])
    ran = {e.a[0] for e in r.ev if e.kind == "S"}
    fail = bool(ran & failing)
    if (r.rc != 0) != fail:
        errs.append("exit code %s: %s" % (r.rc, r.text_err()[-200:]))
    ctx.count("inline_files_read", checked)
    ctx.count("builds_with_failures" if fail else "builds_without_failures")
    ctx.count("files_kept", sum(1 for v in last_write.values() if v[2]))
    ctx.distinct(hash((mk, work.interleaving(r))))
    ctx.sample({"makefile": mk[:1500], "args": args}, 2)
    if errs:
        ctx.violation("%s (%s)" % ("; ".join(errs[:2]), " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs[:8], after=sorted(after), seed=seed))


def rule_case(ctx, J, seed):
    rng = random.Random(seed)
    batch = rng.random() < .4
    srcdir, dstdir = rng.choice([("", ""), ("", ""), ("src\\", ""), ("src\\", "out\\")])
    n = rng.randint(1, 9)
    bases = ["%s%d" % (rng.choice(gen.WORDS), i) for i in range(n)]
    keep = rng.random() < .4
    name = "" if batch or rng.random() < .4 else rng.choice(["$(@B).rsp", "$(@F)x.rsp", "$(M)_$(@B).rsp", "$<.rsp", "$(<R).rsp"])
    second = rng.random() < .4
    lines = text(rng, ["$@", "$(@F)", "$(@B)"] if not batch else []) + [rng.choice(["$<", "<$<>", "$(M) $<"])]
    lines2 = text(rng, [])
    rule = "{%s}.in{%s}.out" % (srcdir.rstrip("\\"), dstdir.rstrip("\\")) if srcdir or dstdir else ".in.out"
    mk = ["%s = %s" % kv for kv in MACROS.items()] + [".SUFFIXES: .in .out", "all: " + " ".join("%s%s.out" % (dstdir, b) for b in bases), "", "%s%s" % (rule, "::" if batch else ":")]
    op = "stop $<" if batch else "t:$@"
    touch = ("B:%s:.out " % (dstdir.rstrip("\\") or ".")) if batch else ""
    mk.append("\tjt id=%s s:%d %scat:<<%s%s %s" % ("batch" if batch else "$(@F)", rng.choice([0, 3, 8]), touch, name, " cat:<<" if second else "", op))
    mk += lines + ["<<" + ("KEEP" if keep else "")]
    if second:
        mk += lines2 + ["<<NOKEEP"]
    mk = "\n".join(mk) + "\n"
    files = {"Makefile": mk}
    for b in bases:
        files[(srcdir + b + ".in").replace("\\", "/")] = "x"
    args = ["-nologo", "-s", "-j", str(work.jobs(rng))]
    d = J.newdir()
    r = ctx.run(J, files, args, "inline files of rules", d=d, setup=lambda w: os.makedirs(os.path.join(w, "out"), exist_ok=True),
                chaos=(rng.randint(1, 10**6), rng.choice([31, 8, 2]), 1500) if rng.random() < .5 else None)
    after = read_tree(r.w)
    shutil.rmtree(d, ignore_errors=True)
    if r.bad:
        return
    errs = []
    read = {}
    for e in r.ev:
        if e.kind == "CAT":
            read.setdefault(e.pid, []).append(e)
    served, keptnames = [], []
    for pid, (cid, st, en, code, ev) in r.cmds().items():
        got = read.get(pid, [])
        if len(got) != 1 + second:
            errs.append("%s read %d files" % (cid, len(got)))
            continue
        have = got[0].a[2].encode('utf-8', 'surrogateescape') if len(got[0].a) > 2 else b""
        if batch:
            srcs = ev.a[2].split(" stop ", 1)[1]
            served += srcs.split()
            want = expected(lines, "", [], srcs if srcs.endswith(" ") else srcs + " ")
            wants = [want, expected(lines, "", [], srcs.strip())]
        else:
            b = cid[:-4]
            served.append(srcdir + b + ".in")
            wants = [expected(lines, dstdir + b + ".out", [], srcdir + b + ".in")]
            if name:
                nm = name.replace("$<", srcdir + b + ".in").replace("$(<R)", srcdir + b).replace("$(@B)", b).replace("$(@F)", b + ".out").replace("$(M)", "value")
                if got[0].a[1] != nm:
                    errs.append("inline file of %s is called %s instead of %s" % (cid, got[0].a[1], nm))
        if have not in wants:
            errs.append("inline file of %s holds %r instead of %r" % (cid, have[:200], wants[0][:200]))
        if second:
            h2 = got[1].a[2].encode('utf-8', 'surrogateescape') if len(got[1].a) > 2 else b""
            if h2 != expected(lines2, "", []):
                errs.append("second inline file of %s holds %r instead of %r" % (cid, h2[:200], expected(lines2, "", [])[:200]))
        rel = os.path.relpath(got[0].a[1].replace("\\", "/"), r.w) if not name else got[0].a[1]
        rel = rel.replace("\\", "/")
        keptnames.append(rel)
        if keep and after.get(rel) != have:
            errs.append("%s with KEEP is %s" % (rel, "gone" if rel not in after else "different"))
    if sorted(x.replace("/", "\\") for x in served) != sorted(srcdir + b + ".in" for b in bases):
        errs.append("sources handed out: %s" % served)
    left = [x for x in after if x not in files and not x.endswith(".out") and not (keep and x in keptnames)]
    if left:
        errs.append("left over: %s" % left[:3])
    if r.rc != 0:
        errs.append("exit code %s: %s" % (r.rc, r.text_err()[-200:]))
    ctx.count("rule_builds" + ("_batch" if batch else ""))
    ctx.count("inline_files_read", sum(map(len, read.values())))
    ctx.distinct(hash((mk, work.interleaving(r))))
    if errs:
        ctx.violation("%s (%s)" % ("; ".join(errs[:2]), " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs[:8], after=sorted(after), seed=seed))


def body(ctx):
    ctx.rule = ("random graphs and inference rules whose commands read the inline files they are given and log name and content; contents compared with a reference macro expansion, names with "
                "those of commands running at the same time, and the directory after the build (failing or not, with several goals) with the KEEP flags; distinct by makefile and interleaving")
    ctx.assume("named inline files are shared only by commands that are ordered by dependencies; UNICODE is outside the domain")
    J = ctx.jom()
    cs = [(graph_case, ctx.rng.random()) for _ in range(ctx.n(450, 7000))] + [(rule_case, ctx.rng.random()) for _ in range(ctx.n(200, 3000))]
    ctx.rng.shuffle(cs)
    ctx.pmap(lambda c: c[0](ctx, J, c[1]), cs)


check.main("P27", body)
