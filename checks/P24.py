#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check

DIRS = ["", "", "sub\\", "d.x\\", "my dir\\", "a\\b.c\\", "a\\deep er\\"]
EXTS = ["", ".obj", ".tar.gz", ".c", ".x y"]


def D(v):
    return v.rsplit("\\", 1)[0] if "\\" in v else "."


def F(v):
    return v.rsplit("\\", 1)[-1]


def R(v):
    f = F(v)
    if "." in f:
        f = f.rsplit(".", 1)[0]
    return v[:len(v) - len(F(v))] + f


def B(v):
    return F(R(v))


MODS = {"": lambda v: v, "D": D, "B": B, "F": F, "R": R}


def q(v):
    return '"%s"' % v if " " in v or "\t" in v else v


class Piece:
    """literal text or a file name macro"""
    def __init__(self, text=None, base=None, mod="", sub=None, paren=False, raw=False):
        self.raw = raw
        self.text, self.base, self.mod, self.sub, self.paren = text, base, mod, sub, paren

    def spell(self):
        if self.base is None:
            return self.text if self.raw else self.text.replace("$", "$$")
        if not self.paren and not self.mod and not self.sub:
            return "$" + self.base
        return "$(%s%s%s)" % (self.base, self.mod, ":%s=%s" % self.sub if self.sub else "")

    def value(self, ctx):
        if self.base is None:
            return self.text
        vs = [MODS[self.mod](v) for v in ctx[self.base]]
        if self.sub:
            vs = [v.replace(self.sub[0], self.sub[1]) for v in vs]
        return " ".join(q(v) for v in vs)


def pieces(r, bases):
    out = []
    for _ in range(r.randint(1, 6)):
        if r.random() < .4:
            out.append(Piece(text=r.choice(["x", "[", "]", "-I", "=", " ", " ", "$", "/Fo", "'", ",", "a.b", "(", ")", "_"])))
        elif r.random() < .05:
            # left as written
            out.append(Piece(text=r.choice(["^$%s", "^$(%s)", "^$(%sF)", "$(%sX)", "$(%s )", "$(%s)".replace(")", "^)")]) % r.choice(["@", "**", "*", "?"]), raw=True))
        else:
            sub = None
            if r.random() < .35:
                sub = (r.choice([".obj", ".c", "n", ".", "\\", "sub", "s", "1", "my dir", " ", ".tar", "x.y", "zz"]), r.choice(["", "", ".o", "X", "\\\\", " ", "q r", "/", "n"]))
            out.append(Piece(base=r.choice(bases), mod=r.choice(["", "", "", "D", "B", "F", "R"]), sub=sub, paren=r.random() < .5))
    out.append(Piece(text="."))     # blanks at the end of a command are not kept
    return out


class T:
    pass


def name(r, k, used):
    return r.choice(DIRS) + r.choice(["n%d", "n%d", "N%dx", "N%dx", "x.y%d", "x.y%d", "a b%d", "a b%d", "p;q%d", "h#%d"]) % k + r.choice(EXTS)


def spell(r, n):
    n = n.replace("\\", "/") if r.random() < .5 else n
    return '"%s"' % n if any(c in n for c in " ;#") or r.random() < .1 else n


def case(ctx, J, seed):
    r = random.Random(seed)
    files, when, targets, lines = {}, {}, [], []
    base = 1000000000
    macros = [(m, pieces(r, ["@", "*", "**", "?"])) for m in ["FM%d" % i for i in range(r.randint(0, 2))]]
    for m, ps in macros:
        lines.append("%s = %s" % (m, "<>".replace("<>", "(") + "".join(p.spell() for p in ps) + ")"))
    srcs = []
    for k in range(r.randint(1, 6)):
        n = name(r, k, when)
        when[n] = base + r.randint(1, 9) * 100
        files[n.replace("\\", "/")] = ("x", when[n])
        srcs.append(n)
    rule = r.random() < .5
    if rule:
        lines.append(".SUFFIXES: .in .outx")
        nrule = r.randint(1, 2)
        rps = [pieces(r, ["<", "<", "@", "*", "**", "?"]) for _ in range(nrule)]
        lines.append(".in.outx:")
        rid = []
        for i in range(nrule):
            c = "jt id=rule.%d o:" % i + "".join(p.spell() for p in rps[i])
            mod = r.choice(["", "", "@", "!", "!"])
            if mod == "!" and any(p.base == "?" for p in rps[i]):
                mod = ""
            lines.append("\t" + mod + c)
            rid.append((mod, rps[i], "jt id=rule.%d o:" % i))
        rinl = r.random() < .4
        if rinl:
            rl = pieces(r, ["<", "@", "**"])
            lines += ["\tjt id=rule.in cat:rule.txt <<rule.txt", "".join(p.spell() for p in rl).lstrip("!") or "e", "<<"]
        lines += ["\tjt id=rule.touch t:$@", ""]
    n = r.randint(1, 8)
    expect = {}
    for k in reversed(range(n)):
        t = T()
        t.name = name(r, 100 + k, when)
        if any(t.name == o for o in when):
            continue
        t.infer = rule and r.random() < .35
        if t.infer:
            t.name = "inf%d.outx" % k
            when["inf%d.in" % k] = base + r.randint(1, 9) * 100
            files["inf%d.in" % k] = ("x", when["inf%d.in" % k])
        t.deps = r.sample(srcs, min(len(srcs), r.randint(0, 4)))
        t.deps += [o.name for o in targets if r.random() < .3]
        r.shuffle(t.deps)
        indirect = {}
        if not any(c in t.name for c in " ;#") and r.random() < .25:
            m = r.choice(["F", "B", "R", "", ":n=m", "D:.=_"])
            d = Piece(base="@", mod=m[:1].strip(":"), sub=tuple(m[m.index(":") + 1:].split("=")) if ":" in m else None).value({"@": [t.name]}) + ".srcx"
            if d not in when and not d.startswith("."):
                when[d] = base + r.randint(1, 9) * 100
                files[d.replace("\\", "/")] = ("x", when[d])
                t.deps.append(d)
                indirect[d] = "%s(@%s).srcx" % (r.choice(["$$", "$"]), m) if m or r.random() < .5 else r.choice(["$$@.srcx", "$@.srcx"])
                r.shuffle(t.deps)
        t.time = base + r.randint(1, 9) * 100 if r.random() < .6 else None
        if t.time:
            files[t.name.replace("\\", "/")] = ("old", t.time)
        # the commands
        blocks = [t.deps]
        if len(t.deps) > 1 and r.random() < .25:
            i = r.randint(1, len(t.deps) - 1)
            blocks = [t.deps[:i], t.deps[i:]]
            if not t.infer and r.random() < .3:
                blocks.reverse()
                t.deps = blocks[0] + blocks[1]
        cmds = []
        if not t.infer:
            for c in range(r.randint(1, 3)):
                cmds.append((r.choice(["", "", "@", "!", "-"]), pieces(r, ["@", "*", "**", "?"]), r.random() < .2))
        body = []
        t.expect = []        # functions of the dependents that are newer
        head = "jt id=%s.%%d " % ("t%d" % k)
        for c, (mod, ps, inl) in enumerate(cmds):
            if mod == "!" and t.time and any(p.base == "?" for p in ps):
                mod = ""
            text = "o:" + "".join(p.spell() for p in ps)
            fm = None
            if macros and r.random() < .4 and not (mod == "!" and t.time):
                fm = r.choice(macros)
                text += "$(%s)" % fm[0]
            line = mod + head % c + text
            inlname = inltext = None
            if inl:
                inlname = r.choice(["in%d_%d.txt" % (k, c), "in$(@B)_%d.txt" % c if " " not in t.name else "in%d_%d.txt" % (k, c)])
                inltext = pieces(r, ["@", "*", "**", "?"] if not (mod == "!" and t.time) else ["@", "**"])
                s = "".join(p.spell() for p in inltext)
                if s.startswith("!"):
                    inltext = [Piece(text="e")]
                    s = "e"
                line += " cat:%s <<%s" % (inlname, inlname)
                body += ["\t" + line, s, "<<"]
            else:
                body.append("\t" + line)
            t.expect.append((c, mod, ps, fm, inlname, inltext, head % c))
        if not t.infer:
            body.append("\tjt id=t%d.touch \"t:%s\"" % (k, t.name))
        sep = ":"
        for i, b in enumerate(blocks):
            lines.append("%s %s %s" % (spell(r, t.name), sep, " ".join(indirect.get(d) or spell(r, d) for d in b)))
            if i == len(blocks) - 1:
                lines += body
            lines.append("")
        t.key = "t%d" % k
        targets.append(t)
    # simulate
    state = dict(when)
    NOW = 1 << 60
    want, cats = {}, {}
    nvals = 0
    for t in targets:      # dependents come before
        deps = t.deps + (["inf%s.in" % t.name[3:-5]] if t.infer else [])
        newer = [d for d in deps if t.time is None or state[d] > t.time]
        if t.time is not None and not newer:
            state[t.name] = t.time
            continue
        state[t.name] = NOW
        env = {"@": [t.name], "*": [R(t.name)], "**": deps, "?": newer}
        if t.infer:
            env["<"] = [deps[-1]]
            want[t.name] = [h + "".join(p.value(e) for p in ps) for mod, ps, h in rid
                            for e in ([dict(env, **{"**": [d], "?": [d]}) for d in deps] if mod == "!" else [env])]
            if rinl:
                want[t.name].append("jt id=rule.in cat:rule.txt rule.txt")
                cats.setdefault("rule.txt", []).append((t.name, "".join(p.value(env) for p in rl).lstrip("!") or "e"))
            want[t.name].append("jt id=rule.touch t:" + t.name)
            nvals += sum(1 for _, ps, h in rid for p in ps if p.base)
            continue
        for c, mod, ps, fm, inlname, inltext, h in t.expect:
            envs = [env]
            if mod == "!":
                envs = [dict(env, **{"**": [d], "?": [d] if t.time is None else []}) for d in deps]
            for e in envs:
                s = h + "o:" + "".join(p.value(e) for p in ps)
                nvals += sum(1 for p in ps if p.base)
                if fm:
                    s += "(" + "".join(p.value(e) for p in fm[1]) + ")"
                if inlname:
                    nm = inlname.replace("$(@B)", B(t.name))
                    s += " cat:%s %s" % (nm, nm)
                    cats.setdefault(nm, []).append((t.name, "".join(p.value(e) for p in inltext)))
                want.setdefault(t.key, []).append(s)
        want.setdefault(t.key, []).append("jt id=%s.touch \"t:%s\"" % (t.key, t.name))
    lines = ["all: " + " ".join(spell(r, t.name) for t in targets), ""] + lines
    J_ = r.choice([1, 1, 2, 4, 8])
    args = ["/nologo", "/J%d" % (1 if rule and rinl else J_)]
    # mask: spawn, death
    def setup(d):
        for f, v in files.items():
            os.utime(os.path.join(d, f), (v[1], v[1]))
    fs = {f: v[0] for f, v in files.items()}
    for d in DIRS:
        fs[d.replace("\\", "/") + "keep"] = ""
    mk = "\n".join(lines) + "\n"
    x = ctx.run(J, dict(fs, Makefile=mk), args, what="file name macros", setup=setup, chaos=(r.getrandbits(30), 6, 2000) if J_ > 1 and r.random() < .5 else None)
    if x.bad:
        return None
    fs["Makefile"] = mk
    rep = lambda **k: ctx.replay_of(x, fs, args, **k)
    ctx.distinct(str(hash(mk)))
    ctx.count("macro_invocations_checked", nvals)
    ctx.count("targets", len(targets))
    got = {}
    for e in x.starts():
        cmd = e.a[2]
        m = re.match(r"jt id=(t\d+|rule)\.(\w+)", cmd)
        got.setdefault(m.group(1), []).append(cmd)
    if rule:
        w = [c for t in targets if t.infer for c in want.get(t.name, [])]
        if sorted(w) != sorted(got.get("rule", [])):
            a, b = sorted(set(got.get("rule", [])) - set(w)), sorted(set(w) - set(got.get("rule", [])))
            ctx.violation("file name macros in a rule: %r instead of %r (rc %s)" % (a[:1], b[:1], x.rc), replay=rep(expected=w))
            return
    for t in targets:
        if t.infer:
            continue
        w, g = want.get(t.key, []), got.get(t.key, [])
        if w != g:
            i = next((i for i in range(max(len(w), len(g))) if w[i:i + 1] != g[i:i + 1]), 0)
            ctx.violation("file name macros: %r instead of %r (rc %s)" % (g[i:i + 1], w[i:i + 1], x.rc), replay=rep(expected=w, seen=g, target=t.name))
            return
        ctx.count("commands_compared", len(w))
    seen = {}
    for e in x.ev:
        if e.kind == "CAT":
            seen.setdefault(e.a[1], []).append(e.a[2])
    for n, w in cats.items():
        ctx.count("inline_files_compared", len(w))
        exp = sorted(v + "\r\n" for _, v in w)
        if exp != sorted(seen.get(n, [])):
            ctx.violation("file name macros in inline file %s: %r instead of %r" % (n, sorted(seen.get(n, []))[:2], exp[:2]), replay=rep(expected=exp))
            return
    if x.rc != 0:
        ctx.violation("file name macros: exit code %s: %s" % (x.rc, x.text_err()[:200]), replay=rep())
    ctx.sample({"makefile": mk[:600], "commands": [w for t in targets for w in want.get(t.key, [])][:6]})


def body(ctx):
    ctx.rule = "a build of random targets whose commands, inline files and inference rules use random file name macros, every expansion compared; distinct by makefile"
    J = ctx.jom()
    ctx.pmap(lambda s: case(ctx, J, s), [ctx.rng.getrandbits(48) for _ in range(ctx.n(1200, 40000))])
    ctx.assume("dependents are files or become files; duplicates in the list of dependents and $? with the prefix ! for an existing target are left open")


check.main("P24", body)
