#!/usr/bin/env python3
import os, random, re, sys
from urllib.parse import unquote
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, macros as M

NAMES = ["A", "B", "z", "Q7", "FOO", "Foo", "foo_bar", "X.Y", "_U1", "LONG_MACRO_NAME_WITH_MANY_CHARACTERS_0123456789", "9x", "7", "K1", "K2", "K3", "K4", "K5"]
WORDS = ["a", "b", "abc", "x.cpp", "dir/f.c", "one two", "-O2", "/W3", "k=v", "(p)", "c,d", "a.b.c", "..", "=", "--", "%d%", "@at", "x;y", "{b}", "q'q", "+", "~", "[i]", "a:b", "C:/x", "!", "*", "?", ":", ")", "(", "p^q", "^,"]
SAFE = ["a", "b", "abc", "x.cpp", "dir/f.c", "one two", "-O2", "/W3", "k=v", "(p)", "c,d", "a.b.c", "..", "=", "--", "+", "a:b", "C:/x", ":"]


class World:
    def __init__(self, rng):
        self.r = rng
        self.m = {}
        self.safe = rng.random() < .5

    def words(self):
        return WORDS

    def plain(self):
        return self.r.choice(WORDS if not self.safe else SAFE)

    def invocation(self, depth=0):
        r = self.r
        x = r.random()
        n = r.choice(NAMES) if r.random() < .9 else r.choice(["UNDEFINED_1", "u", "Nope"])
        if x < .12:
            return "$$"
        if x < .22:
            return "$" + r.choice("ABzu7")
        if x < .45:
            a = r.choice(["a", "b", ".", ".c", "/", " ", "x", "abc", ".cpp", "one", "=", "-", "zz", "aa", "k", "two", "^", "p^q", "^,", ".^"]).replace("=", "")
            if not a:
                a = "b"
            b = r.choice(["", "", "X", "aa", "a", ".obj", "\\", ", ", "a=b", "b", "(", "[$]", " + ", "abc", "^)", "=", ":", "x:y"])
            if b == "[$]":
                b = "[_]"
            return "$(%s:%s=%s)" % (n, a, b)
        return "$(%s)" % n

    def text(self):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
            out.append(self.invocation() if r.random() < .6 else self.plain())
            if r.random() < .4:
                out.append(" ")
        s = "".join(out).strip()
        return s

    def defable(self, s):
        return not s.endswith("\\") and "#" not in s and not s.endswith("^") and "<<" not in s and "\t" not in s


def squeeze(s):
    return s.strip()


def case(ctx, J, seed):
    rng = random.Random(seed)
    w = World(rng)
    mk = []
    want_msg, want_if, want_cmd = {}, {}, {}
    deps = []
    k = 0
    body = []
    target_words = set()
    uses = rng.choice([10, 25, 50])
    chain = rng.random() < .05
    if chain:
        n = rng.choice([30, 200, 600])
        mk.append("CH0 = end")
        w.m["CH0"] = "end"
        for i in range(1, n + 1):
            mk.append("CH%d = $(CH%d)%s" % (i, i - 1, rng.choice(["", "x"])))
            w.m["CH%d" % i] = mk[-1].split(" = ", 1)[1]
        mk.append("K5 = $(CH%d)" % n)
        w.m["K5"] = "$(CH%d)" % n
    for _ in range(uses):
        x = rng.random()
        if x < .4:
            n = rng.choice(NAMES)
            if rng.random() < .25:
                v = rng.choice(["", "$(%s) " % n, "$$(%s)" % n, "$(%s)$(%s)" % (n, n), "pre $(%s:a=b)" % rng.choice([y for y in NAMES if y != n])]) + w.text()
            else:
                v = w.text()
            if rng.random() < .02:
                v += "y" * 5000
            v = v.strip()
            if rng.random() < .03:
                v += "$"
            if not w.defable(v):
                continue
            old = dict(w.m)
            if len(old.get(n, "")) > 3000:
                v = "short"
            M.define(w.m, n, v)
            # a definition that makes the macro recursive is a later error; keep the program free of them
            try:
                if len(M.expand("$(%s)" % n, w.m)) > 8000:
                    raise M.Bad("long")
                for o in NAMES:
                    if len(M.expand("$(%s)" % o, w.m)) > 8000:
                        raise M.Bad("long")
            except M.Bad:
                w.m = old
                continue
            spell = n
            if rng.random() < .1 and n.startswith("K"):
                mk.append("NM = K")
                w.m["NM"] = "K"
                spell = "$(NM)" + n[1:]
            if rng.random() < .05 and len(v) < 3000 and not v.endswith("$"):
                v += "^#" + str(k)
                w.m[n] += "#" + str(k)
            mk.append("%s%s=%s%s%s" % (spell, rng.choice(["", " ", "  "]), rng.choice(["", " ", "   "]), v, rng.choice(["", "", "", "", "", " # comment $(", "#c = d"])))
            ctx.count("definitions")
            continue
        t = w.text()
        try:
            e = M.expand(t, w.m)
        except M.Bad:
            continue
        if not w.defable(t) or "\n" in e or len(e) > 6000:
            continue
        k += 1
        if x < .6:
            mk.append("!MESSAGE m%d[%s]" % (k, t))
            want_msg["m%d" % k] = e
        elif x < .75:
            if '"' in e or '"' in t or "#" in e:
                continue
            mk.append('!IF "%s" == "%s"\n!MESSAGE i%d[yes]\n!ELSE\n!MESSAGE i%d[no]\n!ENDIF' % (t, e.replace("$", "$$"), k, k))
            want_msg["i%d" % k] = "yes"
        elif x < .9:
            # a command (started directly: no characters that the shell or jom treat specially)
            if re.search(r"[%@!;&|<>^\"'{}~\[\]*?()]", e) or "$@" in t or len(e) > 3000:
                continue
            how = rng.choice(["line", "line", "inplace", "rule", "twice"])
            ids = "c%d" % k
            if how == "inplace" and "%s" in t:
                how = "line"
            if how == "inplace" and (":" in t or ";" in t):
                how = "line"
            if how == "rule":
                mk.append(".src%d.dst%d:\n\tjt id=%s stop [%s]\nall: f.dst%d" % (k, k, ids, t, k))
                body.append(k)
                want_cmd[ids] = ("rule", t)
            elif how == "inplace":
                mk.append("T%d: ; jt id=%s stop [%s]\n\nall: T%d" % (k, ids, t, k))
                want_cmd[ids] = ("now", e)
            else:
                mk.append("T%d:\n\tjt id=%s stop [%s]%s\nall: T%d" % (k, ids, t, "\n\tjt id=%s+ stop [%s]" % (ids, t) if how == "twice" else "", k))
                want_cmd[ids] = ("now", e)
                if how == "twice":
                    want_cmd[ids + "+"] = ("now", e)
        else:
            # target names and dependents
            nm = "tgt%d" % k
            a = rng.choice(NAMES)
            try:
                va = M.expand("$(%s)" % a, w.m)
            except M.Bad:
                continue
            if not re.fullmatch(r"[A-Za-z0-9_]{1,30}", va):
                continue
            mk.append("%s$(%s):%s\n\tjt id=%s\nall: $(%s:%s=%s%s)" % (nm, a, rng.choice(["", "", " a=b"]), nm, a, va, nm, va))
            want_cmd[nm] = ("any", None)
    files = {"f.src%d" % i: "x" for i in body}
    files["a=b"] = "x"
    if body:
        mk.insert(0, ".SUFFIXES: " + " ".join(".src%d .dst%d" % (i, i) for i in body))
    mk = ["all:"] + mk
    files["Makefile"] = "\n".join(mk) + "\n"
    r = ctx.run(J, files, ["-nologo", "-s", "-j", str(rng.choice([1, 3]))], "macro program")
    if r.bad:
        return
    errs = []
    if r.rc != 0:
        errs.append("exit code %s: %s" % (r.rc, r.text_err()[-300:]))
    out = r.text_out()
    for key, e in want_msg.items():
        m = re.search(r"^%s\[(.*)\]$" % key, out, re.M)
        if not m or m.group(1) != e:
            src = [l for l in mk if key + "[" in l]
            errs.append("%s gave %r, expected %r" % (src and src[0][:300], m and m.group(1)[:300], e[:300]))
    got = {}
    for ev in r.ev:
        if ev.kind == "S":
            got.setdefault(ev.a[0], []).append(ev.a[2])
    for cid, (how, e) in want_cmd.items():
        g = got.get(cid)
        if not g or len(g) != 1:
            errs.append("command %s ran %d times" % (cid, len(g or [])))
            continue
        if how == "any":
            continue
        if how == "rule":
            try:
                e = M.expand(e, w.m)
            except M.Bad:
                continue
            if re.search(r"[%@!;&|<>^\"'{}~\[\]*?()]", e):
                continue
        c = g[0].split(" stop [", 1)[1]
        if c != e + "]":
            errs.append("command %s got %r, expected %r" % (cid, c[:300], e[:300] + "]"))
    ctx.count("expansions_in_directives", len(want_msg))
    ctx.count("expansions_in_commands_and_names", len(want_cmd))
    ctx.distinct(hash(files["Makefile"]))
    ctx.sample({"makefile": files["Makefile"][:1200]}, 2)
    if errs:
        if r.rc == 0 or len(errs) == 1:
            first = errs[0]
        else:
            first = errs[0]
        ctx.violation(first, replay=ctx.replay_of(r, files, [], errors=errs[:20], seed=seed))


def bad_case(ctx, J, seed):
    rng = random.Random(seed)
    n = rng.choice([1, 1, 2, 3, 8])
    kind = rng.choice(["cycle", "cycle", "cycle", "open", "noname", "nosub", "char", "name"])
    defs = []
    if kind == "name":
        # no macro has such a name
        defs.append("%s = 1" % rng.choice(["$(UNSET)", "$(DASH)", "a-b", "$(OK)+", "x$$", "A$(SPACE)B", "$(DASH)x", "a/b"]))
        defs[0:0] = ["DASH = -", "SPACE = x y"]
        t = "$(OK)"
    elif kind == "cycle":
        names = ["R%d" % i for i in range(n)]
        for i, x in enumerate(names):
            y = names[(i + 1) % n]
            inv = "$(%s:a=b)" % y if n == 1 else rng.choice(["$(%s)", "pre $(%s) post", "$(%s:a=b)", "$(OK)$(%s)"]) % y
            defs.append("%s = %s" % (x, inv))
        rng.shuffle(defs)
        t = "$(%s)" % rng.choice(names)
    else:
        t = {"open": "$(OK", "noname": "$()", "nosub": "$(OK:x)", "char": rng.choice(["$-", "$ x", "$%", "$.", "$;", "$)"])}[kind]
        if rng.random() < .4:
            defs.append("V = %s" % t)
            t = "$(V)"
    defs = ["OK = 1"] + defs
    pre = ["# c"] * rng.randint(0, 3) + ["PRE = x \\\n  y"] * rng.randint(0, 1)
    use = rng.choice(["!MESSAGE [%s]", "!IF \"%s\" == \"\"\n!ENDIF", "t1: x%s", "t1:\n\tjt id=c %s", "!IFDEF %s\n!ENDIF", "!INCLUDE %s", "%s: x"])
    if any(d.startswith("V") for d in defs) and kind == "open":
        # an open parenthesis in a value is closed by nothing else
        pass
    text = "\n".join(pre + defs + [use % t, "all:", "\tjt id=all"]) + "\n"
    files = {"Makefile": text}
    r = ctx.run(J, files, ["-nologo", "-s", "all"], "malformed macro program")
    if r.bad:
        return
    errs = []
    if r.rc != 2:
        errs.append("exit code %s for %s" % (r.rc, use % t))
    if r.order():
        errs.append("commands ran in spite of %s" % (use % t))
    if "rror" not in r.text_err():
        errs.append("no message for %s" % (use % t))
    ctx.count("malformed_" + kind)
    ctx.distinct(text)
    if errs:
        ctx.violation("%s (%s)" % (errs[0], " / ".join(defs)), replay=ctx.replay_of(r, files, ["-nologo", "-s", "all"], errors=errs, seed=seed))


def caret_lines(ctx, J, seed):
    """a line that ends with ^ goes on, after a line break, in the next one"""
    r = random.Random(seed)
    mk, files, want = "OTHER = oo\nall:\n", {}, {}
    for i in range(r.randint(1, 4)):
        parts = [r.choice(["a%d", "one two %d", "$(OTHER)%d", "x^^%d", "k=%d", ""]) for _ in range(r.randint(2, 5))]
        parts = [p % j if "%d" in p else p for j, p in enumerate(parts)]
        parts[0] = parts[0] or "first"
        parts[-1] = parts[-1] or "last"
        mk += "V%d%s=%s%s\n" % (i, r.choice(["", " "]), r.choice(["", " "]), "".join(p + "^\n" + r.choice(["", "", " ", "\t", "    "]) if k < len(parts) - 1 else p for k, p in enumerate(parts)))
        v = "\n".join(parts).replace("$(OTHER)", "oo")
        if r.random() < .3:
            mk += "V%d=$(V%d)^\n  more\n" % (i, i)
            v += "\nmore"
        if r.random() < .3:
            mk += "W%d = <$(V%d:o=0)>\n" % (i, i)
            want["w%d" % i] = "<" + v.replace("o", "0") + ">\n"
            mk += "all: w%d\nw%d:\n\tjt id=w%d cat:<<\n$(W%d)\n<<\n\n" % (i, i, i, i)
        want["v%d" % i] = v + "\n"
        mk += "all: v%d\nv%d:\n\tjt id=v%d cat:<<\n$(V%d)\n<<\n\n" % (i, i, i, i)
    enc = r.choice([lambda t: t.encode(), lambda t: b"\xef\xbb\xbf" + t.encode(), lambda t: t.replace("\n", "\r\n").encode()])
    files = {"Makefile": enc(mk)}
    x = ctx.run(J, files, ["-nologo", "-s", "-j", str(r.choice([1, 3]))], "values of several lines")
    if x.bad:
        return
    got = {}
    for e in x.ev:
        if e.kind == "CAT":
            got[e.a[0]] = e.a[-1].replace("\r", "")
    bad = [k for k in want if got.get(k) != want[k]]
    if x.rc or bad:
        ctx.violation("value of several lines: exit code %d, %s is %r, expected %r" % (x.rc, bad[:1], got.get(bad[0]) if bad else None, want[bad[0]] if bad else None), replay=ctx.replay_of(x, {"Makefile": mk}, []))
    ctx.count("values_of_several_lines", len(want))
    ctx.distinct(mk)


def body(ctx):
    ctx.rule = ("random macro programs (definitions with nesting, self reference, substitution, escapes, computed names) whose expansions in messages, expressions, commands, rules, target names and dependents are "
                "compared with a reference expander; malformed and recursive ones must be errors; distinct by text")
    ctx.assume("file name macros and an empty `from` of a substitution are outside this property; $(NAME) in its own definition means the old value")
    J = ctx.jom()
    n = ctx.n(800, 10000)
    ctx.pmap(lambda s: caret_lines(ctx, J, s), ["c%d/%d" % (ctx.seed, i) for i in range(ctx.n(60, 1500))])
    cs = [(case, ctx.rng.random()) for _ in range(n)] + [(bad_case, ctx.rng.random()) for _ in range(n // 2)]
    ctx.rng.shuffle(cs)
    ctx.pmap(lambda c: c[0](ctx, J, c[1]), cs)


check.main("P19", body)
