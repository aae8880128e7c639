#!/usr/bin/env python3
import copy, os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work, macros

NAMES = ["ALPHA", "Alpha", "alpha", "BETA", "Beta.x", "BETA.X", "CC", "cc", "Cc", "AS", "RCFLAGS", "rcflags", "CXXFLAGS", "_U1", "_u1", "LIB", "Q7"]
PREDEF = {"AS": "ml", "ASFLAGS": "", "CC": "cl", "CXXFLAGS": "", "RCFLAGS": ""}
VALS = ["v%d" % i for i in range(12)]
MARK = "/".join("%s=[$(%s)]" % (n, n) for n in NAMES)


class Table:
    """what each name stands for: (value, origin), and the environment of the commands"""
    def __init__(self):
        self.val, self.origin, self.ro, self.env = {}, {}, set(), {}

    def setenv(self, n, v):
        self.env[n.lower()] = (n, v)

    def expand(self, s):
        return macros.expand(s, self.val)

    def begin(self, env, cl, force, predefined):
        for n, v in env:
            self.setenv(n, v)
        explicit = set(n for n, v in cl)
        for n, v in cl:
            for m in (n, n.upper()):
                if m != n and m in explicit:
                    continue
                self.val[m], self.origin[m] = v, ("cl" if m == n else "implicit")
                self.ro.add(m)
                self.setenv(m, self.expand(v))
        for n, v in env:
            u = n.upper()
            if self.origin.get(u) == "cl":
                # the command line's definition stands, its environment variable too
                self.origin[u] = "env-cl"
                self.setenv(u, self.expand(self.val[u]))
                continue
            if u in self.val:
                continue
            self.val[u], self.origin[u] = v, "env"
            if force:
                self.ro.add(u)
        if predefined:
            for n, v in PREDEF.items():
                if n not in self.val:
                    self.val[n], self.origin[n] = v, "predef"

    def define(self, n, v):
        if n not in self.ro:
            macros.define(self.val, n, v)
            if self.origin.get(n) not in ("env", "env-cl"):
                self.origin[n] = "mk"
        if self.origin.get(n) in ("env", "env-cl"):
            self.setenv(n, self.expand(self.val[n]))

    def undef(self, n):
        self.val.pop(n, None)
        self.origin.pop(n, None)
        self.ro.discard(n)

    def show(self):
        return self.expand(MARK)


class Gen:
    def __init__(self, rng, t, prefix):
        self.r, self.t, self.files, self.p = rng, t, {}, prefix
        self.k = 0
        self.messages, self.outputs, self.goals, self.deps = [], {}, [], {}
        self.active = []

    def value(self, n):
        r = self.r
        k = r.random()
        if k < .6:
            return r.choice(VALS)
        if k < .7:
            return ""
        if k < .8:
            return "$(%s)%s" % (n, r.choice(["", "w"]))
        m = r.choice(NAMES)
        v = "%s$(%s)" % (r.choice(["", "x"]), m)
        return v

    def acyclic(self, n, v):
        old = dict(self.t.val)
        if n in self.t.ro:
            return True
        macros.define(old, n, v)
        try:
            macros.expand(MARK, old)
        except macros.Bad:
            return False
        return len(macros.expand(MARK, old)) < 3000

    def stmts(self, n, depth):
        r, out = self.r, []
        for _ in range(n):
            k = r.random()
            name = r.choice(NAMES)
            self.k += 1
            if k < .45:
                v = self.value(name)
                if not self.acyclic(name, v):
                    continue
                out.append(r.choice(["%s = %s", "%s=%s", "%s =%s"]) % (name, v))
                self.t.define(name, v)
            elif k < .53:
                out.append("!UNDEF " + name)
                self.t.undef(name)
            elif k < .66:
                m = "%smsg%d " % (self.p, self.k)
                out.append("!MESSAGE " + m + MARK)
                self.messages.append(m + self.t.show())
            elif k < .72:
                d = name in self.t.val
                m = "%sdef%d " % (self.p, self.k)
                out += [r.choice(["!IFDEF ", "!ifdef "]) + name, "!MESSAGE " + m + "yes", "!ELSE", "!MESSAGE " + m + "no", "!ENDIF"]
                self.messages.append(m + ("yes" if d else "no"))
            elif k < .78:
                out += ["!IF 0", "%s = skipped" % name, "!UNDEF %s" % r.choice(NAMES), "!ENDIF"]
            elif k < .9:
                g = "%so%d" % (self.p, self.k)
                out += [g + ":", "\tjt id=%s o:%s" % (g, MARK)]
                self.outputs[g] = self.t.show()
                self.goals.append(g)
            elif k < .95:
                g = "%sq%d" % (self.p, self.k)
                out += ["%s: %sd%d_$(%s)" % (g, self.p, self.k, name), "%sd%d_%s:" % (self.p, self.k, self.t.expand("$(%s)" % name).replace("$", "$$")), "\tjt id=%s o:dep" % g]
                self.outputs[g] = "dep"
                self.goals.append(g)
            elif depth:
                f = "%sinc%d.mk" % (self.p, self.k)
                out.append("!INCLUDE " + f)
                self.files[f] = "\n".join(self.stmts(r.randint(1, 6), depth - 1)) + "\n"
        return out


def case(ctx, J, seed):
    rng = random.Random(seed)
    env, low = [], set()
    for n in rng.sample(NAMES, rng.randint(0, 6)):
        if n.lower() not in low:
            low.add(n.lower())
            env.append((n, rng.choice(VALS + ["", "e%d"]).replace("%d", str(rng.randint(0, 9)))))
    cl, args = [], []
    seen = {}
    for n in rng.sample(NAMES, rng.choice([0, 0, 1, 2, 4])):
        # names that differ in case only: one of them may be the upper-case one, which keeps its own value
        o = seen.setdefault(n.lower(), [])
        if o and not (len(o) == 1 and (n == n.upper()) != (o[0] == o[0].upper())):
            continue
        o.append(n)
        v = rng.choice(VALS + ["", "c$(NOPE_)d", "p$$q"])
        cl.append((n, v))
        args.append("%s=%s" % (n, v))
    force, pre = rng.random() < .25, rng.random() < .8
    opts = ["/nologo", "/S", "/J1"] + (["/E"] if force else []) + ([] if pre else ["/R"])
    if rng.random() < .3:
        opts = [o.replace("/", "-").lower() for o in opts]
    args += opts
    rng.shuffle(args)
    cl = [tuple(a.split("=", 1)) for a in args if "=" in a]
    files = {}
    if rng.random() < .15 and args:
        files["cmd.txt"] = "\n".join(a for a in args) + "\n"
        args = ["@cmd.txt"]
    t = Table()
    t.begin(env, cl, force, pre)
    g = Gen(rng, t, "m")
    body = g.stmts(rng.randint(3, 25), 2)
    sub = None
    if pre and rng.random() < .3:
        body += ["subm:", "\t$(MAKE) /$(MAKEFLAGS) /nologo /f sub.mk all"]
        st = Table()
        subenv = list(t.env.values())
        if rng.random() < .3:
            force2 = True
            body[-1] += " /E"
        else:
            force2 = force
        cl2 = []
        if rng.random() < .3:
            cl2 = [(rng.choice(NAMES), rng.choice(VALS))]
            body[-1] += " %s=%s" % cl2[0]
        st.begin(subenv, cl2, force2, pre)
        sub = Gen(rng, st, "s")
        sb = sub.stmts(rng.randint(3, 15), 1)
        files["sub.mk"] = "\n".join(sb) + "\nall: %s\n" % " ".join(sub.goals)
        files.update(sub.files)
        g.goals.append("subm")
    if not g.goals:
        body += ["mlast:", "\tjt id=mlast o:" + MARK]
        g.outputs["mlast"] = t.show()
        g.goals.append("mlast")
    files["Makefile"] = "\n".join(body) + "\n"
    files.update(g.files)
    r = ctx.run(J, files, args + g.goals, env=dict(env), what="macro origins")
    if r.bad:
        return
    rep = lambda **k: ctx.replay_of(r, files, args + g.goals, env=env, **k)
    ctx.count("observations", len(g.messages) + len(g.outputs))
    ctx.distinct("%s|%s|%s|%s" % (len(env), len(cl), force, pre) + files["Makefile"])
    if r.rc != 0:
        ctx.violation("macro origins: exit code %s" % r.rc, replay=rep())
        return
    lines = [l.strip() for l in r.text_out().splitlines()]
    for who, gg in (("makefile", g), ("sub-make", sub)):
        if gg is None:
            continue
        msgs = [l for l in lines if re.match("%s(msg|def)" % gg.p, l)]
        if msgs != [m.strip() for m in gg.messages]:
            bad = [(a, b) for a, b in zip(msgs + [""] * 99, gg.messages) if a != b.strip()][:1]
            ctx.violation("macro origins (%s): messages differ, first (seen, expected): %s" % (who, diff(*bad[0]) if bad else len(msgs)), replay=rep(expected=gg.messages))
        outs = {}
        cur = [e.a[0] for e in r.starts()]
        text = [l for l in lines if re.match(r"(ALPHA=\[|dep$)", l)]
        outs = dict(zip(cur, text))
        if len(cur) != len(text):
            ctx.violation("macro origins: %d commands but %d outputs" % (len(cur), len(text)), replay=rep())
            return
        for k, v in gg.outputs.items():
            if outs.get(k, "not run") != v:
                ctx.violation("macro origins (%s): command of %s: %s" % (who, k, diff(outs.get(k, "not run"), v)), replay=rep(expected=gg.outputs))
                break
    ctx.sample({"env": env, "args": args, "makefile": files["Makefile"][:600]})


def predefined(ctx, J, seed):
    """MAKE and MAKEDIR: jom itself and its working directory as single arguments, whatever the environment says"""
    rng = random.Random(seed)
    J = rng.choice(J.places)
    cwd = rng.choice(["", "sub", "my dir", "a b/c", "a/b c", "x y/z w", " lead/sub", "p(x86) q/r"])
    env, args = {}, ["/nologo", "/S"] + rng.choice([[], [], ["/E"], ["/R"], ["/E", "/R"]])
    want = {"MAKE": os.path.abspath(J.exe), "MAKEDIR": None}
    mk = ""
    for n in ("MAKE", "MAKEDIR"):
        fixed = None
        if rng.random() < .3:
            env[n if rng.random() < .7 else n.title()] = "from-env"
            if "/R" in args:
                fixed = "from-env"
        elif "/R" in args:
            fixed = ""
        ro = fixed == "from-env" and "/E" in args
        if rng.random() < .15:
            m = rng.choice([n, n.lower(), n.title()])
            args.append(m + "=from-cl")
            fixed, ro = "from-cl", True
        if rng.random() < .15:
            mk += "%s = from-mk\n" % n
            if not ro:
                fixed = "from-mk"
        if fixed is not None:
            want[n] = fixed
    mk += "all:\n\tjt id=all args $(MAKE)\n\tjt id=all2 args $(MAKEDIR)\n\tjt id=all3 x:0\n"
    files = {os.path.join(cwd, "Makefile"): mk}
    rng.shuffle(args)
    r = ctx.run(J, files, args, env=env, cwd=cwd, what="MAKE and MAKEDIR")
    if r.bad:
        return
    if want["MAKEDIR"] is None:
        want["MAKEDIR"] = os.path.abspath(os.path.join(r.w, cwd))
    seen = dict((e.a[0], e.a[3:]) for e in r.ev if e.kind == "ARGS")
    ctx.count("predefined_values", 2)
    ctx.distinct(("predef", cwd, mk, tuple(args), tuple(env), J.exe))
    for i, n in (("all", "MAKE"), ("all2", "MAKEDIR")):
        exp = [want[n]] if want[n] else []
        got = [x.replace("\\", "/") for x in seen.get(i, ["not run"])]
        if got != exp or r.rc != 0:
            ctx.violation("macro origins: $(%s) is passed as %r instead of %r" % (n, got, exp), replay=ctx.replay_of(r, files, args, env=env, cwd=cwd))
            return


def diff(a, b):
    x, y = a.split("/"), b.split("/")
    d = [(p, q) for p, q in zip(x, y) if p != q]
    return "seen %s, expected %s" % d[0] if d and len(x) == len(y) else "seen %r, expected %r" % (a[:200], b[:200])


def body(ctx):
    ctx.rule = "a combination of environment, command line, /E, /R and a makefile (with includes and sub-make), one case per distinct makefile; every value is read back in messages, conditionals, dependency lines and commands"
    J = ctx.jom()
    K = copy.copy(J)
    K.newdir = J.newdir
    K.exe = os.path.join(J.base, "some tools", "bin", "jom")
    os.makedirs(os.path.dirname(K.exe))
    shutil.copy(J.exe, K.exe)
    L = copy.copy(J)
    L.newdir = J.newdir
    L.exe = os.path.join(J.base, "other", "my bin", "jom")
    os.makedirs(os.path.dirname(L.exe))
    shutil.copy(J.exe, L.exe)
    J.places = [J, K, L]
    ctx.pmap(lambda s: case(ctx, J, s), [ctx.rng.getrandbits(48) for _ in range(ctx.n(900, 30000))])
    ctx.pmap(lambda s: predefined(ctx, J, s), [ctx.rng.getrandbits(48) for _ in range(ctx.n(200, 4000))])
    ctx.assume("repeated definitions of one name on one command line, and two lower-case spellings of one name there, are left open")


check.main("P20", body)
