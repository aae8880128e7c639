#!/usr/bin/env python3
import collections, os, random, re, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work

BASE = 1400000000
DLINE = re.compile(r"(?m)^([ *])(\d\d\.\d\d\.\d{4} \d\d:\d\d:\d\d) (\S+)$")


def native(p):
    return p.replace("/", "\\")


def gone(w):
    """what is left in the work directory and its content"""
    out = []
    for root, ds, fs in os.walk(w):
        for f in fs:
            p = os.path.join(root, f)
            if f not in ("err.txt",):
                out.append((re.sub(r"\.\d+\.\d+\.jom$", ".N.jom", os.path.relpath(p, w)), open(p, "rb").read()))
    return sorted(out)


def ids_of(r):
    return [e.a[0] for e in r.ev if e.kind == "S"]


def blocks(out, is_inline):
    """the inline files shown on standard output: [(name, content)], and the output without them"""
    res, rest, pos = [], "", 0
    for m in re.finditer(r"---([^\n]*?)---\n(.*?)---end of inline file---\n", out, re.S):
        if is_inline(m.group(1)):
            rest += out[pos:m.start()]
            pos = m.end()
            res.append((m.group(1), m.group(2)))
    return res, rest + out[pos:]


def dump_sections(out):
    m = re.search(r"(?s)\AMACROS:\n\n(.*?)\nINFERENCE RULES:\n\n(.*?)\nTARGETS:\n\n(.*)", out)
    return m.groups() if m else None


def parse_targets(txt):
    """name -> (dependents, commands); rest: what follows the section"""
    res = collections.OrderedDict()
    dup = []
    pos = 0
    rex = re.compile(r"([^\t\n][^\n]*):\n\tdependents:((?:\t[^\n\t]*\n)*?)\tcommands:((?:\t[^\n]*\n)*)\n")
    while True:
        m = rex.match(txt, pos)
        if not m:
            break
        if m.group(1) in res:
            dup.append(m.group(1))
        res[m.group(1)] = ([x for x in m.group(2).replace("\t", "").split("\n") if x], [l[1:] for l in m.group(3).split("\n") if l])
        pos = m.end()
    return res, dup, txt[pos:]


def build_case(ctx, J, seed, d, d0):
    rng = random.Random(seed)
    g = gen.gen_graph(rng, rng.choice([1, 2, 4, 8, 16, 25]), maxcmds=3, p_nocmd=rng.choice([0, .2]), forms=("plain", "plain", "plain", "and", "call", "chain"))
    srcs = ["src%d.in" % i for i in range(rng.randint(0, 4))]
    stamp = {f: BASE + rng.randint(0, 50) for f in srcs}
    p_exist = rng.choice([0, .3, .8, 1])
    sort = rng.random() < .7
    inl = {}
    for name, t in reversed(list(g.t.items())):
        t.deps += [f for f in srcs if rng.random() < .3]
        if rng.random() < p_exist:
            stamp[name] = BASE + rng.randint(0, 60)
            if sort and t.deps:
                stamp[name] = max([stamp.get(d, 0) for d in t.deps] + [BASE]) + rng.choice([0, 1, 5, 5, 5, 5, -1])
        for c in t.cmds:
            c.pre = rng.choice(["", "", "", "@", "-"])
            if rng.random() < .3:
                inl[c.id] = [(rng.choice(["", "named%d_%d.rsp" % (len(inl), k)]),
                              "".join(rng.choice(["line one", "a $(TXT) b", "\tindented", "--- dashes ---", "", "two $$ dollars", "last"]) + "\n" for _ in range(rng.choice([0, 1, 2, 3, 40]))),
                              rng.choice(["", "KEEP", "NOKEEP"])) for k in range(rng.choice([1, 1, 2]))]
                c.ops += ["cat:@@%d@@" % k for k in range(len(inl[c.id]))]
        if t.cmds:
            t.cmds[-1].ops.append("t:" + name)
    fail = {c.id for t in g.t.values() for c in t.cmds if rng.random() < .08} if rng.random() < .3 else set()
    for t in g.t.values():
        for c in t.cmds:
            c.code = 3 if c.id in fail else 0
    txt_macro = rng.choice(["value", "v1 v2"])
    mk = gen.render(g, rng, header="TXT = %s\nDEFER = <$(TXT)>\nEMPTY =\n.SUFFIXES: .qi .qo\n.qi.qo:\n\tjt id=never $<\n{a}.qi{b}.qo::\n\tjt id=never2 $<\n\tjt id=never3" % txt_macro)
    for cid, fl in inl.items():
        def put(m):
            line = m.group(1)
            for k, (nm, content, opt) in enumerate(fl):
                line = line.replace("@@%d@@" % k, "<<" + nm)
            return line + "".join("\n" + content + "<<" + opt for nm, content, opt in fl)
        mk, n = re.subn(r"(?m)^((?:[ \t]+|.*;[ ]?)@?-?[^\n]*jt id=%s(?: .*)?)$" % re.escape(cid), put, mk)
        assert n == 1, (cid, mk)
    jobs = work.jobs(rng)
    goals = rng.choice([[], [], [g.goal], rng.sample(list(g.t), min(len(g.t), rng.choice([1, 2, 3])))])
    base = ["/nologo", "/j", str(jobs)] + rng.choice([[], [], ["/s"], ["/k"], ["/k"], ["/i"], ["/n"], ["/a"], ["/c"]])
    opts = [o for o in "DUWP" if rng.random() < .6] or [rng.choice("DUWP")]
    rng.shuffle(opts)
    switches = ["/" + "".join(rng.choice([o, o.lower()]) for o in opts)] if rng.random() < .5 else [rng.choice("-/") + rng.choice([o, o.lower()]) for o in opts]
    spelled = [gen.spell(rng, x) for x in goals]
    files = {"Makefile": mk}

    def setup(w):
        for x in ("d0", "d1", "d2", "TMP"):
            os.makedirs(os.path.join(w, x), exist_ok=True)
        for f, v in stamp.items():
            p = os.path.join(w, f.replace("\\", "/"))
            open(p, "w").write("x")
            os.utime(p, (v, v))
    args = switches + base + spelled
    r = ctx.run(J, files, args, "build with reports", setup=setup, d=d)
    r0 = ctx.run(J, files, base + spelled, "build without reports", setup=setup, d=d0)
    if r.bad or r0.bad:
        return
    errs = []
    out = r.text_out()
    dry, force, keep = "/n" in base, "/a" in base, "/k" in base
    # ---- nothing else changes
    if r.rc != r0.rc:
        errs.append("exit code %s with %s, but %s without" % (r.rc, " ".join(switches), r0.rc))
    a, b = collections.Counter(ids_of(r)), collections.Counter(ids_of(r0))
    if (jobs == 1 or not fail or keep or "/i" in base) and a != b:
        errs.append("with %s the commands %s run additionally, %s not" % (" ".join(switches), list((a - b))[:3], list((b - a))[:3]))
    elif not (jobs > 1 and fail and not keep):
        f1, f0 = gone(r.w), gone(r0.w)
        if f1 != f0 and not dry:
            errs.append("with %s the files differ after the build: %s" % (" ".join(switches), sorted(set(f1) ^ set(f0))[:2]))
    if jobs == 1 and ids_of(r) != ids_of(r0):
        errs.append("with %s the commands run in another order" % " ".join(switches))
    e1, e0 = [re.sub(r"\S*[\\/]r\d+[\\/]w", "W", x.text_err()) for x in (r, r0)]
    if jobs == 1 and e1 != e0:
        errs.append("with %s standard error differs: %r instead of %r" % (" ".join(switches), e1[:200], e0[:200]))
    # ---- /P
    rest = out
    if "P" in opts:
        sec = dump_sections(out)
        if not sec:
            errs.append("/P does not print its three sections")
        else:
            macros, rules, tail = sec
            lines = macros.split("\n")
            for nm, v in (("TXT", txt_macro), ("DEFER", "<$(TXT)>"), ("EMPTY", ""), ("CC", "cl")):
                if lines.count("%s = %s" % (nm, v)) != 1:
                    errs.append("/P shows %s for the macro %s" % ([l for l in lines if l.startswith(nm + " ")], nm))
            if rules.count(".qi.qo:\n\tjt id=never $<\n") != 1 or rules.count("{a}.qi{b}.qo::\n\tjt id=never2 $<\n\tjt id=never3\n") != 1:
                errs.append("/P shows the inference rules %r" % rules)
            tg, dup, rest = parse_targets(tail)
            if dup or set(tg) != set(g.t):
                errs.append("/P shows the targets %s, the makefile has %s" % (sorted(dup or set(tg) - set(g.t))[:3], sorted(set(g.t) - set(tg))[:3]))
            else:
                for n, t in g.t.items():
                    low = lambda xs: [x.replace("/", "\\").lower() for x in xs]
                    if sorted(set(low(tg[n][0]))) != sorted(set(low(t.deps))):
                        errs.append("/P shows the dependents %s of %s, they are %s" % (tg[n][0], n, t.deps))
                    cids = re.findall(r"\bid=(\S+)", " ".join(tg[n][1]))
                    if cids != [c.id for c in t.cmds]:
                        errs.append("/P shows the commands %s of %s, they are %s" % (tg[n][1], n, [c.id for c in t.cmds]))
            ctx.count("makefile_dumps")
    elif "MACROS:" in out or "TARGETS:" in out:
        errs.append("the makefile is shown without /P")
    # ---- /W
    if "W" in opts:
        lines = rest.rstrip("\n").split("\n")
        here = native(r.w)
        if len(lines) < 2 or lines[0] != "jom: Entering directory '%s'" % here or lines[-1] != "jom: Leaving directory '%s'" % here:
            errs.append("/W does not show the working directory %s before and after: %r ... %r" % (here, lines[0], lines[-1]))
        rest = "\n".join(lines[1:-1]) + "\n"
        ctx.count("working_directories_shown")
    if "jom: Entering" in rest or "jom: Leaving" in rest:
        errs.append("the working directory is shown %s" % ("more than once" if "W" in opts else "without /W"))
    # ---- /U
    ran = [c for c in ids_of(r)]
    shown_cmds = re.findall(r"(?m)^\t.*\bid=(\S+)", rest) if dry else []
    done = shown_cmds if dry else ran
    cats = [(e.a[1], e.a[2]) for e in r.ev if e.kind == "CAT"]
    got, rest = blocks(rest, lambda nm: ".jom" in nm or "named" in nm)
    if "U" in opts:
        want = sum(len(inl.get(c, ())) for c in done)
        if len(got) != want:
            errs.append("/U shows %d inline files, %d are used" % (len(got), want))
        if not dry:
            x, y = collections.Counter((native(n), c) for n, c in got), collections.Counter((native(n), c.replace("\r\n", "\r\n")) for n, c in cats)
            if x != y:
                errs.append("/U shows %s, the commands see %s" % ([repr(k) for k in (x - y)][:2], [repr(k) for k in (y - x)][:2]))
        else:
            exp = collections.Counter(c.replace("$(TXT)", txt_macro).replace("$$", "$").replace("\n", "\r\n") for cid in done for _, c, _ in inl.get(cid, ()))
            if collections.Counter(c for _, c in got) != exp:
                errs.append("/U shows other contents than the makefile: %r" % [c for _, c in got][:3])
        for nm, c in got:
            if rest.find(native(nm)) < 0 and dry:
                errs.append("/U names a file %s that no command gets" % nm)
        ctx.count("inline_files_shown", len(got))
    elif got:
        errs.append("inline files are shown without /U")
    # ---- /D
    ds = [(m.group(1), m.group(2), m.group(3), m.start()) for m in DLINE.finditer(rest)]
    if "D" in opts:
        per = collections.defaultdict(list)
        for mark, when, nm, at in ds:
            per[nm].append((mark, when, at))
        # with several goals a target is looked at once for each of them
        runs = [[g.goal]] if not goals else [[x] for x in dict.fromkeys(goals)]
        need = collections.Counter(n for rt in runs for n in g.reach(rt))
        for n in per:
            if n not in g.t:
                errs.append("/D shows %s, which is no target" % n)
            elif len(per[n]) > need[n]:
                errs.append("/D shows %s %d times, expected %d" % (n, len(per[n]), need[n]))
        if r.rc == 0 and not errs:
            for n, k in need.items():
                if len(per[n]) != k:
                    errs.append("/D shows %s %d times, expected %d" % (n, len(per[n]), k))
        byid = {c.id: n for n, t in g.t.items() for c in t.cmds}
        built = collections.Counter(byid[c] for c in done if c == g.t[byid[c]].cmds[0].id)
        for n, t in g.t.items():
            stars = sum(m == "*" for m, _, _ in per[n])
            if t.cmds and not force and not keep and stars != built[n] and not (r.rc and jobs > 1):
                errs.append("/D marks %s %d times as out of date, it is built %d times" % (n, stars, built[n]))
            if built[n] and not per[n]:
                errs.append("%s is built, but /D does not show it" % n)
            for m, when, at in per[n]:
                if m == " ":
                    p = os.path.join(r.w, n.replace("\\", "/"))
                    if not os.path.exists(p) and not dry:
                        errs.append("/D shows %s as up to date, it does not exist" % n)
                    elif not built[n] and n in stamp and not dry:
                        exp = time.strftime("%d.%m.%Y %H:%M:%S", time.gmtime(stamp[n]))
                        if when != exp:
                            errs.append("/D gives the time %s for %s, it is %s" % (when, n, exp))
                        ctx.count("time_stamps_compared")
            if t.cmds and per[n]:
                # the line comes before the commands are shown
                m = re.search(r"(?m)^\t.*\bid=%s(?=[ \n])" % re.escape(t.cmds[0].id), rest)
                if m and m.start() < min(at for _, _, at in per[n]):
                    errs.append("/D shows %s after its command" % n)
        ctx.count("targets_shown", len(ds))
        ctx.count("targets_shown_as_up_to_date", sum(m == " " for m, _, _, _ in ds))
    elif ds:
        errs.append("the build information of %s is shown without /D" % ds[0][2])
    # ---- what remains is the output without reports
    if jobs == 1 and not errs:
        rest = DLINE.sub("\0", rest).replace("\0\n", "")
        norm = lambda s: re.sub(r"\.\d+\.\d+\.jom", ".N.jom", re.sub(r"[^ ]*[\\/]r\d+[\\/]w", "W", s))
        if norm(rest).strip("\n") != norm(r0.text_out()).strip("\n"):
            x, y = norm(rest).split("\n"), norm(r0.text_out()).split("\n")
            errs.append("with %s the remaining output differs: %s" % (" ".join(switches), next((p for p in zip(x + [""], y + [""]) if p[0] != p[1]), "length")))
        ctx.count("outputs_compared")
    for o in opts:
        ctx.count("builds_with_" + o)
    ctx.distinct(hash((tuple(sorted(opts)), tuple(base[3:]), tuple(ran), len(ds), len(got))))
    ctx.sample({"makefile": mk, "args": args, "stdout": out[-3000:]}, 2)
    if errs:
        ctx.violation("%s (%s)" % ("; ".join(errs[:2]), " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs[:8], stamps=stamp, seed=seed))


def sub_case(ctx, J, seed, d, d0):
    """nested makes in directories of their own: Entering and Leaving nest like the makes do"""
    rng = random.Random(seed)
    n = rng.randint(2, 6)
    parent = [None] + [rng.randrange(i) for i in range(1, n)]
    path = [""]
    for i in range(1, n):
        path.append((path[parent[i]] + "/" if path[parent[i]] else "") + rng.choice(["dir%d", "Sub dir %d", "d%d"]) % i)
    files, dirs = {}, {}
    fails = rng.randrange(n) if rng.random() < .2 else None
    for i in range(n):
        lines = ["all:", "\t@jt id=b%d o:begin%d" % (i, i)]
        for k in range(1, n):
            if parent[k] == i:
                sd = path[k][len(path[i]) + 1 if path[i] else 0:]
                via = rng.choice(["cd", "and", "make"])
                flags = "/$(MAKEFLAGS)"
                if via == "cd":
                    lines += ["\t@cd %s" % ('"%s"' % sd if " " in sd else sd), "\t@$(MAKE) %s" % flags, "\t@cd .."]
                else:
                    lines += ['\t@cd "%s" && $(MAKE) %s' % (sd, flags)]
        lines += ["\t@jt id=e%d o:end%d%s" % (i, i, " x:5" if fails == i else "")]
        files[(path[i] + "/" if path[i] else "") + "Makefile"] = "\n".join(lines) + "\n"
    args = ["/NOLOGO", rng.choice(["/W", "-w", "/SW"]), "/J1"]
    r = ctx.run(J, files, args, "nested makes", setup=lambda w: [os.makedirs(os.path.join(w, p), exist_ok=True) for p in path], d=d)
    if r.bad:
        return
    errs = []
    want = []

    def visit(i):
        """appends the expected lines; True if the make fails"""
        want.append("jom: Entering directory '%s'" % native(os.path.join(r.w, path[i]).rstrip("/")))
        want.append("begin%d" % i)
        bad = False
        for k in range(1, n):
            if parent[k] == i and not bad:
                bad = visit(k)
        if not bad:
            want.append("end%d" % i)
            bad = fails == i
        want.append("jom: Leaving directory '%s'" % native(os.path.join(r.w, path[i]).rstrip("/")))
        return bad
    bad = visit(0)
    got = [l for l in r.text_out().split("\n") if l]
    if got != want:
        errs.append("nested makes print %s" % next(("%r instead of %r" % p for p in zip(got + ["<end>"], want + ["<end>"]) if p[0] != p[1]), "more"))
    if bool(r.rc) != bad:
        errs.append("exit code %s" % r.rc)
    ctx.count("nested_makes", n)
    ctx.distinct(hash(("n", tuple(want))))
    if errs:
        ctx.violation("%s (%s)" % ("; ".join(errs[:2]), " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs, want=want, seed=seed))


def x_case(ctx, J, seed, d, d0):
    """/X: the file holds all that would have been written to standard error"""
    rng = random.Random(seed)
    g = gen.gen_graph(rng, rng.choice([1, 3, 8]), maxcmds=2, ops=lambda q: ["e:%s" % q.choice(["oops", "a_b", "x" * 300])] if q.random() < .5 else ["o:out"])
    for t in g.t.values():
        for c in t.cmds:
            c.code = 3 if rng.random() < .1 else 0
    mk = gen.render(g, rng)
    if rng.random() < .2:
        mk += rng.choice(["!ERROR stop here\n", "syntax error\n", "other: missing.file\nall2: other\n"])
    opts = ["/j1"] + rng.choice([[], ["/k"], ["/i"], ["/nologo"], ["/s"], ["/n"]])
    name = rng.choice(["err.txt", "d0\\err.txt", "err file.txt"])
    sw = rng.choice([["/X", name], ["/X" + name], ["-x", name], ["-sx" + name]])
    files = {"Makefile": mk}

    def setup(w):
        os.makedirs(os.path.join(w, "d0"), exist_ok=True)
        os.makedirs(os.path.join(w, "TMP"), exist_ok=True)
        if old:
            open(os.path.join(w, name.replace("\\", "/")), "w").write(old)
    old = rng.choice(["", "", "earlier content\n" * 40])
    extra = ["/s"] if sw[0].startswith("-s") else []
    r = ctx.run(J, files, sw + opts, "build with /X", setup=setup, d=d)
    r0 = ctx.run(J, files, extra + opts, "build without /X", setup=setup, d=d0)
    if r.bad or r0.bad:
        return
    errs = []
    norm = lambda s, q: s.replace(native(q.w), "W").replace(q.w, "W").replace("\r\n", "\n")
    p = os.path.join(r.w, name.replace("\\", "/"))
    have = norm(open(p, errors="replace").read(), r) if os.path.exists(p) else None
    if r.text_err():
        errs.append("with /X standard error still gets %r" % r.text_err()[:100])
    if have != norm(r0.text_err(), r0):
        errs.append("/X: the file has %r instead of %r" % (have and have[-200:], norm(r0.text_err(), r0)[-200:]))
    if norm(r.text_out(), r) != norm(r0.text_out(), r0) or r.rc != r0.rc or ids_of(r) != ids_of(r0):
        errs.append("with /X the rest of the build differs (exit code %s/%s)" % (r.rc, r0.rc))
    ctx.count("error_files_compared")
    ctx.count("error_bytes", len(have or ""))
    if errs:
        ctx.violation("%s (%s)" % ("; ".join(errs[:2]), " ".join(sw + opts)), replay=ctx.replay_of(r, files, sw + opts, errors=errs, seed=seed))


def with_dirs(ctx, J, fn, seed):
    d, d0 = J.newdir(), J.newdir()
    try:
        fn(ctx, J, seed, d, d0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d0, ignore_errors=True)


def body(ctx):
    ctx.rule = ("every target that is looked at is shown by /D once per goal, marked * iff its commands run; /U shows exactly the inline files commands see; /P lists all macros, rules and targets; "
             "/W names the working directory first and last; /X receives all of standard error; everything else is as without the option")
    ctx.assume("commands of /D builds write no partial lines; the stamps of targets that are out of date are not judged")
    with ctx.jom("asan") as J:
        ctx.pmap(lambda s: with_dirs(ctx, J, build_case, s), [ctx.rng.getrandbits(48) for _ in range(ctx.n(900, 12000))])
        ctx.pmap(lambda s: with_dirs(ctx, J, sub_case, s), [ctx.rng.getrandbits(48) for _ in range(ctx.n(120, 1500))])
        ctx.pmap(lambda s: with_dirs(ctx, J, x_case, s), [ctx.rng.getrandbits(48) for _ in range(ctx.n(200, 3000))])


check.main("P39", body)
