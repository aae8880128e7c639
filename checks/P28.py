#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work

NSRC = 12
OLD, NEW = 1400000000, 1400000100


def project():
    main = """V = makefile
!MESSAGE MF=$(MAKEFLAGS)=
.SUFFIXES: .in .out
all: up indep depfail batch env flags sub last
.in.out::
\tjt id=%(p)sbatch B:.:.out stop $<
up: up.src
\tjt id=%(p)sup t:up
up.src:
fail1:
\tjt id=%(p)sfail s:4 x:3
depfail: fail1
\tjt id=%(p)sdepfail
slow:
\tjt id=%(p)sslow s:40
indep: slow
\tjt id=%(p)sindep
batch: """ + " ".join("f%d.out" % i for i in range(NSRC)) + """
env:
\tjt id=%(p)senv "v=$(V)" "cc=$(CC)" env:_JOMJOBCOUNT_ cat:<<
inline text
<<
flags:
\tjt id=%(p)sflags "=$(MAKEFLAGS)="
sub:
%(sub)s
last:
\tjt id=%(p)slast
"""
    sub = '\t$(MAKE) /$(MAKEFLAGS) -f sub.mk%s'
    r = {"Makefile": main % {"p": "m_", "sub": sub % ""}, "other-1 file.mk": main % {"p": "o_", "sub": sub % ""},
         "sub.mk": (main % {"p": "s_", "sub": "\t@jt id=s_sub"}).replace("t:up", "t:up s:1").replace("B:.:.out", ""),
         "up.src": ("x", OLD), "up": ("x", NEW)}
    for i in range(NSRC):
        r["f%d.in" % i] = ("x", OLD)
    return r


LETTERS = "ACDEGIKLNPRSUWY"
NOARG_LONG = {"L": ["NOLOGO"]}


class Opts:
    """a set of options: letters without argument, the job counts in their order, the makefile, the error file, and what else is on the command line"""
    def __init__(self, rng):
        self.flags = {c for c in LETTERS if rng.random() < (.2 if c not in "NI" else .1)}
        self.jobs = [rng.choice([1, 1, 2, 3, 4]) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        self.file = "other-1 file.mk" if rng.random() < .3 else None
        self.err = "err.txt" if rng.random() < .15 else None
        self.macro = rng.choice([None, None, ("V", "cmd line"), ("V", "cmd"), ("other", "x=y")])
        self.goals = rng.choice([[], [], [], ["env", "flags"], ["all"]])
        self.longs = [x for x in ("DEBUG",) if rng.random() < .05]

    def canonical(self):
        a = ["/" + c for c in sorted(self.flags)] + ["/" + c for c in self.longs]
        for j in self.jobs[-1:]:
            a += ["/J", str(j)]
        if self.file:
            a += ["/F", self.file]
        if self.err:
            a += ["/X", self.err]
        if self.macro:
            a.append("%s=%s" % self.macro)
        return a + self.goals


def case_of(rng, s):
    return "".join(rng.choice([c.upper(), c.lower()]) for c in s)


def variant(rng, o):
    """another way to give the same options: (arguments, environment, files)"""
    env, files = {}, {}
    rest = sorted(o.flags)
    rng.shuffle(rest)
    jobs = list(o.jobs)
    mfile = o.file
    if rng.random() < .45:
        k = rng.randint(0, len(rest))
        take, rest = rest[:k], rest[k:]
        s = [rng.choice([c, c.lower()]) for c in take]
        if jobs and rng.random() < .6:
            s.insert(rng.randint(0, len(s)), rng.choice("jJ") + str(jobs.pop(0)))
        s = rng.choice(["", "", "-"]) + "".join(s)
        if mfile and rng.random() < .5:
            s += rng.choice("fF") + mfile
            mfile = None
        if rng.random() < .5:
            env["JOMFLAGS"] = s
            if s and rng.random() < .5:
                env["MAKEFLAGS"] = rng.choice(["N", "KI", "-SJ7", "AY"])        # JOMFLAGS wins
        else:
            env["MAKEFLAGS"] = s
    # every item is one option with the words that must follow it
    items = [[c] for c in rest]
    words = []

    def sw():
        return rng.choice("/-")
    cur = ""
    seq = [("flag", c) for c in rest] + [("long", x) for x in o.longs]
    rng.shuffle(seq)
    for j in jobs:
        # job counts keep their order
        seq.insert(rng.randint(max([i for i, x in enumerate(seq) if x[0] == "job"], default=-1) + 1, len(seq)), ("job", j))
    for key, v in (("file", mfile), ("err", o.err)):
        if v:
            seq.insert(rng.randint(0, len(seq)), (key, v))

    def flush():
        nonlocal cur
        if cur:
            words.append([sw() + cur])
        cur = ""
    for key, v in seq:
        if rng.random() < .5:
            flush()
        if key == "flag":
            if v == "L" and rng.random() < .5:
                cur += case_of(rng, "NOLOGO")
                if rng.random() < .7:
                    flush()
            else:
                cur += rng.choice([v, v.lower()])
                # a letter followed by others must not read as a long option
                if re.search(r"(?i)(NOLOGO|DUMPGRAPH|DEBUG|ERRORREPORT|VERSION)", cur) and v != "L":
                    flush()
        elif key == "long":
            flush()
            words.append([sw() + case_of(rng, v)])
        elif key == "job":
            if rng.random() < .5:
                cur += rng.choice("jJ") + str(v)
                if rng.random() < .3:
                    flush()
            else:
                cur += rng.choice("jJ")
                words.append([sw() + cur, str(v)])
                cur = ""
        else:
            c = "F" if key == "file" else "X"
            cur += rng.choice([c, c.lower()])
            if rng.random() < .5:
                words.append([sw() + cur + v])
            else:
                words.append([sw() + cur, v])
            cur = ""
    flush()
    extra = ([["%s=%s" % o.macro]] if o.macro else [])
    for x in extra:
        words.insert(rng.randint(0, len(words)), x)
    # goals keep their order among themselves
    pos = 0
    for gname in o.goals:
        pos = rng.randint(pos, len(words))
        words.insert(pos, [gname])
        pos += 1
    if words and rng.random() < .4:
        # a tail of the command line comes from command files: their arguments are taken after the others
        k = rng.randint(0, len(words))
        tail = words[k:]
        words = words[:k]
        names = rng.choice([["cmds.rsp"], ["cmds.rsp"], ["a.rsp", "with blank.rsp"]])
        cut = rng.randint(0, len(tail)) if len(names) == 2 else len(tail)
        at_pos = 0
        for nm, part in zip(names, (tail[:cut], tail[cut:])):
            nl = rng.choice(["\n", "\r\n"])
            t = ""
            for wds in part:
                for x in wds:
                    q = '"%s"' % x if " " in x or rng.random() < .15 else x
                    if " " in x and "=" in x and rng.random() < .5:
                        a, b = x.split("=", 1)
                        q = '%s="%s"' % (a, b)
                    t += q + rng.choice([" ", "  ", "\t", nl, nl + nl, " " + nl])
            files[nm] = t + rng.choice(["", nl])
            at = "@" + nm
            if nm == "with blank.rsp" and rng.random() < .5:
                at = '@"%s"' % nm
            at_pos = rng.randint(at_pos, len(words))
            words.insert(at_pos, [at])
            at_pos += 1
    args = [x for wds in words for x in wds]
    # an @file must not stand between an option and its word: words keep them together
    return args, env, files


def flagset(s):
    """the options in a value of MAKEFLAGS: (letters, job count)"""
    js = re.findall(r"[jJ](\d+)", s)
    return frozenset(re.sub(r"[jJ]\d+", "", s).upper()), js


def normal(o, r, d):
    """what is compared between two spellings"""
    cmds = sorted((e.a[0], re.sub(r"\S*/TMP/\S*|\S*\\TMP\\\S*|(?<=cat:)\S*", "TMP", e.a[2]) if not e.a[0].endswith("flags") else "") for e in r.ev if e.kind == "S")
    cats = sorted((e.a[0], e.a[2]) for e in r.ev if e.kind == "CAT")
    envs = sorted(tuple(e.a) for e in r.ev if e.kind == "ENV")

    def clean(t):
        t = t.replace(r.dir, "DIR").replace(r.dir.replace("/", "\\"), "DIR")
        t = re.sub(r"'/[A-Za-z0-9]*' is not", "'/FLAGS' is not", t)      # $(MAKE) is empty with /R
        t = re.sub(r"/[A-Za-z0-9]* -f sub.mk", "/FLAGS -f sub.mk", t)
        t = re.sub(r'MF=.*=|"=.*="', "FLAGS", t)
        t = re.sub(r"\S*TMP\S*", "TMP", t)
        t = re.sub(r"\d+/\d+/\d+ \S+", "TIME", t)
        t = re.sub(r"(?m)^.*(MAKEFLAGS|JOMFLAGS|VSHIM|JOM\w+_).*\n", "", t)
        return sorted(x for x in t.splitlines() if x.strip())
    return {"rc": r.rc, "commands": cmds, "inline": cats, "env": envs, "out": clean(r.text_out()), "err": clean(r.text_err())}


def expect(o, r, args, errtext):
    """what each option does, independently of how it was given"""
    f, ran, errs = o.flags, [e.a[0] for e in r.ev if e.kind == "S"], []
    p = "o_" if o.file else "m_"
    all_ = "all" in o.goals or not o.goals
    dry = "N" in f
    ign, keep = "I" in f, "K" in f and "I" not in f
    out, err = r.text_out(), errtext

    def claim(what, have, want):
        if have != want:
            errs.append("%s: %s instead of %s" % (what, have, want))
    claim("any command ran", bool(ran), not dry)
    claim("exit code", r.rc, 0 if dry or ign or not all_ else 1 if keep else 2)
    if all_ and not dry:
        if keep or ign:
            claim("%sup ran (/A)" % p, p + "up" in ran, "A" in f)
        claim("%sdepfail ran (/I)" % p, p + "depfail" in ran, ign)
        if ign:
            claim("%slast ran" % p, p + "last" in ran, True)
        if keep or ign:
            claim("%sindep ran (/K, /I)" % p, p + "indep" in ran, True)
            per = [len(e.a[2].split(" stop ", 1)[1].split()) for e in r.ev if e.kind == "S" and e.a[0] == p + "batch"]
            claim("all sources handed out", sum(per), NSRC)
            claim("batches (/Y)", max(per) > 1, "Y" not in f)
            if "R" not in f:
                sub = {e.a[0] for e in r.ev if e.kind == "S" and e.a[0].startswith("s_")}
                claim("sub-make ran", bool(sub), True)
                claim("s_up ran (/A through MAKEFLAGS)", "s_up" in sub, "A" in f)
                claim("s_depfail ran (/I through MAKEFLAGS)", "s_depfail" in sub, ign)
                claim("s_indep ran", "s_indep" in sub, True)
        elif o.jobs[-1:] == [1]:
            claim("commands after the failure", ran[ran.index(p + "fail") + 1:], [])
    for e in r.ev:
        if e.kind == "S" and e.a[0].endswith("_env"):
            # for a sub-make a macro of the command line is an environment variable
            cl = o.macro and o.macro[0] == "V"
            v = o.macro[1] if cl and (e.a[0] != "s_env" or "E" in f) else "environment" if "E" in f else "makefile"
            claim("V seen by %s (/E)" % e.a[0], '"v=%s"' % v in e.a[2], True)
            claim("CC seen by %s (/R)" % e.a[0], '"cc=%s"' % ("" if "R" in f else "cl") in e.a[2], True)
        if e.kind == "S" and e.a[0].endswith("_flags"):
            have = flagset(e.a[2].split('"=', 1)[1].rsplit('="', 1)[0])
            want = frozenset(f)
            claim("options in MAKEFLAGS of %s" % e.a[0], (sorted(have[0]), have[1][-1:]), (sorted(want), [str(o.jobs[-1])] if o.jobs else []))
        if e.kind == "ENV" and o.jobs:
            claim("job count of %s" % e.a[0], e.a[-1], str(o.jobs[-1]))
    if all_ and "P" not in f:       # /P lists the commands, too
        shown = re.findall(r"(?m)^\tjt id=%s" % p, out)
        claim("commands shown (/S, /C)", bool(shown), dry or not ("S" in f or "C" in f))
    claim("logo (/L)", "empower your cores" in err, "L" not in f)
    claim("directory shown (/W)", "jom: Entering directory" in out, "W" in f)
    claim("makefile information (/P)", "INFERENCE RULES:" in out, "P" in f)
    if not dry and p + "env" in ran:
        claim("inline files shown (/U)", "---end of inline file---" in out, "U" in f)
    if all_:
        claim("build information (/D)", bool(re.search(r"(?m)^[ *]\d\d\.\d\d\.\d+ [\d:]+ \S+$", out)), "D" in f)
    if "Overriding inherited" in err:
        errs.append("the sub-make got another job count: %s" % re.search(r"Overriding.*", err).group(0))
    return errs


def case(ctx, J, seed):
    rng = random.Random(seed)
    o = Opts(rng)
    if o.file is None and rng.random() < .03:
        o.file = "Makefile"
        o.file = None
    base = project()
    runs = []
    vs = [(o.canonical(), {}, {})] + [variant(rng, o) for _ in range(2)]
    for args, env, extra in vs:
        files = dict(base)
        files.update(extra)
        errf = []

        def err_of(r):
            p = os.path.join(r.w, "err.txt")
            if os.path.exists(p):
                r.errfile = open(p, "rb").read().decode("utf-8", "replace")
            else:
                r.errfile = None
        d = J.newdir()
        e = {"V": "environment"}
        e.update(env)
        try:
            r = ctx.run(J, files, args, "options", env=e, d=d)
            if r.bad:
                return
            err_of(r)
            if o.err:
                left = r.text_err()
                if r.errfile is None:
                    ctx.violation("/X wrote no file (%s)" % args, replay=ctx.replay_of(r, files, args, env=env))
                    return
                if left.strip():
                    ctx.violation("text on standard error despite /X: %r" % left[:200], replay=ctx.replay_of(r, files, args, env=env))
            errs = expect(o, r, args, r.text_err() + (r.errfile or ""))
            runs.append((args, env, normal(o, r, d)))
            ctx.count("options_given", len(o.flags) + len(o.jobs))
            for c in o.flags:
                ctx.distinct((c, len(o.flags)))
            ctx.distinct(tuple(args) + tuple(sorted(env.items())))
            if env:
                ctx.count("from_environment")
            if extra:
                ctx.count("from_command_files")
            ctx.sample({"args": args, "env": env, "files": extra}, 5)
            if errs:
                ctx.violation("%s (%s %s)" % ("; ".join(errs[:3]), args, env), replay=ctx.replay_of(r, files, args, env=env, extra=extra, errors=errs, seed=seed))
                return
        finally:
            gen_rm(d)
    stable = not o.jobs or o.jobs[-1] == 1
    failing = not (o.goals and "all" not in o.goals) and not o.flags & set("INK")
    for args, env, nn in runs[1:]:
        a0, e0, n0 = runs[0]
        for k in n0:
            if failing and o.jobs[-1:] != [1] and k != "rc":
                continue        # which targets have started before the failure depends on the schedule
            if k == "out" and ("P" in o.flags or "D" in o.flags):
                continue        # values and times that differ between runs
            if n0[k] != nn[k]:
                a, b = n0[k], nn[k]
                if isinstance(a, list):
                    a, b = [x for x in a if x not in b][:4], [x for x in b if x not in a][:4]
                ctx.violation("%s differs: %r for %s, %r for %s %s" % (k, a, a0, b, args, env), replay={"a": a0, "b": args, "env": env, "na": n0, "nb": nn, "seed": seed})
                return


def gen_rm(d):
    import shutil
    shutil.rmtree(d, ignore_errors=True)


def bad_case(ctx, J, seed):
    rng = random.Random(seed)
    o = Opts(rng)
    o.flags -= set("N")
    o.err = None
    args, env, extra = variant(rng, o)
    kind = rng.choice(["unknown", "unknown", "combined", "f", "x", "j", "jnum", "jzero", "cmdfile", "env", "macro", "incmdfile"])
    letter = rng.choice("MOVZ123#.:_")
    if kind == "unknown":
        args.insert(rng.randint(0, len(args)), rng.choice("/-") + letter)
        # an option inserted between -f and its file name would be that name
        if any(re.match(r"[/-][a-z]*[fxj]$", a, re.I) for a in args):
            return
    elif kind == "combined":
        args = [rng.choice("/-") + "k" + letter + "s"] + args
    elif kind in "fxj":
        args = [a for a in args if not a.startswith("@")]
        args.append(rng.choice("/-") + rng.choice(["", "k", "S"]) + rng.choice([kind, kind.upper()]))
        extra = {}
    elif kind == "jnum":
        args = rng.choice([["-j", "x"], ["/jx"], ["-J", "-1"], ["-j", ""], ["-j", "2x"], ["-j", "99999999999"], ["-j", "1.5"], ["-jk"]]) + args
    elif kind == "jzero":
        args = rng.choice([["-j", "0"], ["/j0"], ["-kJ00"]]) + args
    elif kind == "cmdfile":
        args.insert(0, rng.choice(["@nosuch.rsp", '@"no such.rsp"', "@", "@src\\x"]))
    elif kind == "incmdfile":
        extra["bad.rsp"] = rng.choice(["/%s" % letter, "/K\n-j x\n", "-f"])
        args = [a for a in args if not a.startswith("@")] + ["@bad.rsp"]
    elif kind == "env":
        env = {rng.choice(["MAKEFLAGS", "JOMFLAGS"]): rng.choice(["K" + letter, letter, "-" + letter, "Kj0", "Lj"]) }
        # "Lj" takes the next argument as its number
        if list(env.values())[0] == "Lj":
            args = ["all"] + args
    else:
        args = [rng.choice(["a b=c", "-x=y" if False else "a-b=c", "=c", "$(x)=1", "a+=b"])] + args
    files = dict(project())
    files.update(extra)
    r = ctx.run(J, files, args, "bad options", env=dict({"V": "environment"}, **env))
    if r.bad:
        return
    ran = [e.a[0] for e in r.ev if e.kind in ("S", "SPAWN")]
    ctx.count("bad_command_lines")
    ctx.distinct(("bad",) + tuple(args))
    if r.rc != 128 or ran or not r.text_err().strip():
        ctx.violation("%s in %s %s: exit code %s, ran %s, message %r" % (kind, args, env, r.rc, ran[:3], r.text_err()[-200:]), replay=ctx.replay_of(r, files, args, env=env, extra=extra, seed=seed))


def usage_case(ctx, J, seed):
    rng = random.Random(seed)
    kind = rng.choice(["help", "version"])
    args = [rng.choice("/-") + (rng.choice("hH?") if kind == "help" else case_of(rng, "VERSION"))] + rng.choice([[], ["/k"], ["all"], ["-j", "2"]])
    rng.shuffle(args) if len(args) == 2 else None
    r = ctx.run(J, project(), args, "usage")
    if r.bad:
        return
    ran = [e.a[0] for e in r.ev if e.kind in ("S", "SPAWN")]
    ok = ("Usage: jom" in r.text_out()) if kind == "help" else re.search(r"jom version \d+\.\d+\.\d+", r.text_out())
    ctx.count("usage_and_version")
    if r.rc != 0 or ran or not ok:
        ctx.violation("%s: exit code %s, ran %s, output %r" % (args, r.rc, ran[:3], r.text_out()[:200]), replay=ctx.replay_of(r, project(), args))


def encoding_case(ctx, J, rseed):
    """a command file is read in the code page of the console (what commands are given): it names the targets and values that a UTF-8 makefile spells"""
    rng = random.Random(rseed)
    # letters of code page 850, in names only some whose case is not an issue
    word = lambda hi: bytes(rng.choice(hi if rng.random() < .4 else b"abcxyz019_") for _ in range(rng.randint(1, 9)))
    val = b" ".join(word(bytes(range(0x80, 0xb0)) + bytes(range(0xb5, 0xd0)) + bytes(range(0xe0, 0xff))) for _ in range(rng.choice([1, 1, 2])))
    names = list(dict.fromkeys(b"t%d_" % i + word(b"\xe1\xa6\xa7\x9c\xbd") for i in range(3)))
    goal = rng.choice(names)
    mk = b"VF = " + val + b"\nfirst:\n\tjt id=first\n" + b"".join(n + b':\n\tjt id=g%d args "[$(V)]" "[$(VF)]"\n' % i for i, n in enumerate(names))
    nl = rng.choice([b"\n", b"\r\n"])
    parts = [b'"V=' + val + b'"' if b" " in val or rng.random() < .3 else b"V=" + val, goal, b"/NOLOGO"]
    rng.shuffle(parts)
    cmd = b"".join(q + rng.choice([b" ", b"\t", nl]) for q in parts)
    files = {"Makefile": b"\xef\xbb\xbf" + mk.decode("cp850").encode(), "cmds.rsp": cmd}
    args = ["/j1", "@cmds.rsp"]
    r = ctx.run(J, files, args, "command file with other letters")
    if r.bad:
        return
    ran = [e.a for e in r.ev if e.kind == "S"]
    want = b'\tjt id=g%d args "[%s]" "[%s]"\n' % (names.index(goal), val, val)
    ctx.count("encoded_command_files")
    ctx.distinct(hash(("enc", val, goal)))
    if r.rc != 0 or [a[0] for a in ran] != ["g%d" % names.index(goal)] or r.out.replace(b"\r\n", b"\n") != want:
        ctx.violation("letters of a command file are changed: exit code %s, %r instead of %r" % (r.rc, r.out[:200], want), replay=ctx.replay_of(r, {"Makefile": mk.decode("cp850"), "cmds.rsp": cmd.decode("cp850")}, args))


def body(ctx):
    ctx.rule = ("a random set of options given canonically and in two other ways (switch, case, combination, attached arguments, order, command files, MAKEFLAGS, JOMFLAGS) on a project in which every option "
                "shows; effects predicted per option and compared between the spellings, also in a sub-make through MAKEFLAGS; erroneous command lines; distinct by arguments and environment")
    ctx.assume("command files come last in the order of arguments; long option names end their argument or are followed by letters that do not form another one")
    ctx.assume("/G, /B, /Q and /T have no observable effect in jom and are only parsed")
    J = ctx.jom()
    cs = [(case, ctx.rng.random()) for _ in range(ctx.n(200, 4000))] + [(bad_case, ctx.rng.random()) for _ in range(ctx.n(250, 4000))] + [(usage_case, ctx.rng.random()) for _ in range(ctx.n(20, 200))] + \
        [(encoding_case, ctx.rng.random()) for _ in range(ctx.n(40, 800))]
    ctx.rng.shuffle(cs)
    ctx.pmap(lambda c: c[0](ctx, J, c[1]), cs)


check.main("P28", body)
