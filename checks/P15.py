#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work

NAMES = ["FOO", "Foo_Bar", "lower", "MiXeD9", "A1", "Z.dot", "_UNDER", "Path2", "INCLUDE", "LIB", "CC", "cxxflags", "QTDIR", "X", "Long_Name_With_Many_Characters_0123456789", "VS140COMNTOOLS"]
ODD = ["ProgramFiles(x86)", "my-var", "with space", "1digit", "semi;colon", "a+b", "$dollar", "#hash", "per%cent"]
VALUES = ["", "1", "plain", "with space", " leading", "trailing ", "a=b", "=x", "C:\\Program Files\\x;D:\\y", "\"quoted\"", "a\"b", "100%", "%PATH%", "x#y", "a;b", "a,b", "&|<>^", "'single'",
          "tab\there", "back\\", "(paren)", ")", "é", "日本語", "ÄÖÜß", "{brace}", "@at", "!bang", "~", "line1\nline2"]
DOLLAR = [("a$$b", "a$b"), ("$$", "$"), ("$+$P$_$G", None), ("$(", None), ("x$", "x$"), ("$(UNDEFINED_MACRO)", ""), ("pre$(UNDEFINED_MACRO)post", "prepost")]
MKVALUES = ["new", "two words", "c:\\dir\\x", "a=b", "1;2", "x\"y\"z", "%VAR%", "(p)", "-O2 /W3"]


def rand_value(rng):
    r = rng.random()
    if r < .7:
        return rng.choice(VALUES)
    if r < .75:
        return "".join(rng.choice("abcdefghij \\/;:=") for _ in range(rng.choice([300, 1000, 8191, 32000])))
    return "".join(chr(rng.randint(33, 126)) for _ in range(rng.randint(1, 20))).replace("$", "S")


def seen(v):
    """environment bytes arrive as text in jom's 8-bit code page on this platform; the stand-in hands the text on as UTF-8"""
    return v.encode("utf-8").decode("cp850")


def expand(v, macros, used=()):
    """the subset of expansion the generator uses; None if it is an error"""
    out, i = "", 0
    while i < len(v):
        if v[i] == "$" and i + 1 < len(v):
            if v[i + 1] == "$":
                out += "$"
                i += 2
                continue
            if v[i + 1] == "(":
                j = v.find(")", i)
                if j < 0:
                    return None
                n = v[i + 2:j]
                if n in used:
                    return None
                x = expand(macros.get(n, ""), macros, used + (n,))
                if x is None:
                    return None
                out += x
                i = j + 1
                continue
            return None
        out += v[i]
        i += 1
    return out


class World:
    def __init__(self):
        self.env = {}            # lower name -> value
        self.macros = {}         # name -> value
        self.envm = set()        # macros that stand for environment variables
        self.ro = set()


def case(ctx, J, seed):
    rng = random.Random(seed)
    env, order = {}, []
    for n in rng.sample(NAMES, rng.randint(0, 9)) + rng.sample(ODD, rng.choice([0, 0, 1, 3])):
        if rng.random() < .25:
            n = n.upper() if rng.random() < .5 else n.lower()
        if n.lower() in [x.lower() for x in env]:
            continue
        env[n] = rand_value(rng)
    special = {}
    for k, (v, x) in enumerate(rng.sample(DOLLAR, rng.choice([0, 0, 1, 2]))):
        n = "DOLLAR%d" % k
        env[n] = v
        special[n] = v if x is None else x
    force = rng.random() < .2
    w = World()
    for n, v in env.items():
        w.env[n.lower()] = special.get(n, seen(v))
    valid = lambda n: n.replace("_", "a").replace(".", "a").isalnum() and n.isascii() and (n[0].isalpha() or n[0] == "_") or False
    args = ["-nologo", "-s"] + (["-e"] if force else [])
    # command line macros
    cl = {}
    for n in rng.sample(NAMES + list(x for x in env if valid(x)), rng.choice([0, 0, 1, 2, 3])):
        if n.lower() in cl or n in special:
            continue
        v = rng.choice(["", "cl", "cl value", "c:\\x;y", "a=b", "q\"q", "%X%", "é", "p$$q", "$(UNDEFINED_MACRO)r", "$$$$(X)"])
        cl[n.lower()] = (n, v)
        args.insert(rng.randint(0, len(args)), "%s=%s" % (n, v))
        w.env[n.lower()] = expand(seen(v), {})
        for nm in (n, n.upper()):
            w.macros[nm] = seen(v)
            w.ro.add(nm)
    for n, v in env.items():
        u = n.upper()
        if u in w.macros or not valid(n):
            continue
        if special.get(n) is not None and expand(v, {}) is None and not v.endswith("$"):
            continue
        w.macros[u] = seen(v)
        w.envm.add(u)
        if force:
            w.ro.add(u)
    for n in cl:
        u = cl[n][0].upper()
        if any(x.upper() == u for x in env):
            w.envm.add(u)
    # makefile definitions
    mk = ""
    for _ in range(rng.choice([0, 1, 3, 6])):
        base = rng.choice(list(env) + NAMES)
        n = base.upper() if rng.random() < .8 else base
        if not valid(n) or n.startswith("DOLLAR") or n in special:
            continue
        v = rng.choice(MKVALUES)
        if rng.random() < .3:
            old = w.macros.get(n, "")
            if old and "\n" not in old and "$" not in old:
                v = rng.choice(["$(%s)" % n + v, v + "$(%s)" % n, "x$(%s)y$(%s)" % (n, n)])
        elif rng.random() < .2:
            v = "$(%s)%s" % (rng.choice(["UNSET_ONE", "CC", "LOCAL"]), v)
        pre = rng.random()
        if pre > .85:
            # undefining a macro is no matter of the environment, and neither is what is defined afterwards
            mk += rng.choice(["!UNDEF %s\n", "!undef %s\n"]) % n
            w.macros[n] = ""
            w.envm.discard(n)
            w.ro.discard(n)
            if pre > .92:
                continue
            v = rng.choice(MKVALUES)
        if pre < .15:
            mk += "!IF 0\n%s = never\n!ENDIF\n" % n
        mk += "%s%s%s\n" % (n, rng.choice(["=", " = ", " ="]), v)
        if n in w.ro:
            continue
        nv = v.replace("$(%s)" % n, w.macros.get(n, "") if n in w.macros or True else "")
        w.macros[n] = nv
        if n in w.envm:
            look = dict({"CC": "cl"}, **w.macros)
            x = expand(nv, look)
            if x is not None:
                w.env[n.lower()] = x
    if rng.random() < .3:
        mk += "LOCAL_ONLY = 1\n"
    sub = rng.random() < .25
    mk += "all:\n\tjt id=direct envall\n\tjt x:0 && jt id=shell envall\n" + ("\t$(MAKE) -nologo -s -f sub.mak\n" if sub else "")
    files = {"Makefile": mk, "sub.mak": "all:\n\tjt id=sub envall\n"}
    if any("UNSET_ONE" in x for x in env):
        return
    r = ctx.run(J, files, args, "environment build", env=env)
    if r.bad:
        return
    errs = []
    if r.rc != 0:
        errs.append("exit code %s: %s" % (r.rc, r.text_err()[-200:]))
    got = {}
    for e in r.ev:
        if e.kind == "ENVALL":
            n, _, v = e.a[1].partition("=")
            got.setdefault(e.a[0], []).append((n, v))
    base = {"ComSpec", "PATH", "TMP", "TEMP", "LC_ALL", "TZ", "SystemRoot", "HOME", "QT_NO_GLIB", "ASAN_OPTIONS", "UBSAN_OPTIONS", "_JOMJOBCOUNT_", "_JOMSRVKEY_"}
    baselow = {x.lower() for x in base}
    for who in ["direct", "shell"] + (["sub"] if sub else []):
        have = {}
        for n, v in got.get(who, []):
            if n.lower() in have:
                errs.append("%s: %s is there twice" % (who, n))
            have[n.lower()] = v
        for n in sorted(set(have) | set(w.env)):
            if n in baselow:
                continue
            want = w.env.get(n)
            if who == "sub" and want is not None and (any(ord(c) > 127 for c in want) or "$" in want):
                continue                # these are not invariant on this platform / are expanded again
            if want is None:
                errs.append("%s sees %s=%r, which is neither inherited nor from the command line" % (who, n, have[n][:80]))
            elif n not in have:
                errs.append("%s does not see %s (expected %r)" % (who, n, want[:80]))
            elif have[n] != want:
                errs.append("%s sees %s=%r, expected %r" % (who, n, have[n][:80], want[:80]))
            ctx.count("variables_compared")
            if want is not None:
                ctx.distinct((n in [x.lower() for x in env], n in cl, want[:40], force))
        miss = [b for b in base if b.lower() not in have]
        if miss:
            errs.append("%s misses %s" % (who, miss))
        if who not in got:
            errs.append("%s did not run" % who)
    ctx.count("redefinitions", sum(1 for l in mk.splitlines() if "=" in l and l[0] not in "\t!"))
    ctx.sample({"makefile": mk[:800], "args": args, "env": {k: v[:60] for k, v in env.items()}}, 3)
    if errs:
        ctx.violation("%s (%s)" % (errs[0], " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs, env=env, seed=seed))


def body(ctx):
    ctx.rule = ("random environments (odd names, empty, long, quoted, multi-line and non-ASCII values), command line macros and makefile redefinitions with and without /E; the complete environment of a directly "
                "started command, a shell command and a sub-make's command is compared with the model; distinct by (inherited, from command line, value, /E)")
    ctx.assume("values that contain macro invocations are only used in the forms whose expansion does not depend on the order in which variables are read")
    J = ctx.jom()
    ctx.pmap(lambda x: case(ctx, J, x), [ctx.rng.random() for _ in range(ctx.n(600, 8000))])


check.main("P15", body)
