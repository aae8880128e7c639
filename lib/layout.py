"""Makefiles as lists of logical lines, and their many layouts and encodings."""
import random, re

WORDS = ["one", "Two", "x=1", "c:\\dir\\f", "a,b", "(p)", "\"q r\"", "100%", "-O2", "/W3", "a;b", "[z]", "@w", "!w", "~", "it's"]
LATIN = ["é", "Äöü", "ß§", "ñandú", "¡x!"]
UNI = ["日本", "Ωmega", "Ж", "€5", "അ", "മലയാളം", "ഊ", "x\u0a0dy"]
COMMENT = ["c", " a comment", "## more", " x = 1", " foo: bar", " !ENDIF", " $(", " $(UNCLOSED", " quote \" quote", " ends with ^", " $", " <<", "\ttab", " !IF 1", " back\\slash"]


class L:
    """one logical line: how it may be laid out depends on its kind"""
    def __init__(self, kind, text="", toks=None):
        self.kind, self.text, self.toks = kind, text, toks


def long_word(r):
    n = r.choice([100, 500, 1021, 1022, 1023, 1024, 2047, 4095, 6130, 6141, 6142, 6143, 6144, 6145, 7166, 7167, 7168, 8190, 12000])
    return "".join(r.choice("abcdefghij0123456789") for _ in range(max(1, n + r.choice([0, 0, -20, -10, -3, -2, -1, 1, 2]))))


def words(r, extra, n=None, longok=True):
    w = [r.choice(WORDS + extra) for _ in range(n or r.randint(1, 6))]
    if longok and r.random() < .15:
        w[r.randrange(len(w))] = long_word(r)
    return w


def base(r, extra):
    out, macros, targets = [], [], []
    n = r.randint(3, 9)
    for k in range(n):
        x = r.random()
        if x < .5:
            m = "MAC%d" % len(macros)
            w = words(r, extra)
            if r.random() < .2:
                w.append("end" + r.choice(["^\\", "\\\\", "^#", "^#x"]))
            out.append(L("macro", m, w))
            macros.append(m)
        elif x < .65:
            out.append(L("dir", "MESSAGE", ["m%d" % k] + words(r, [w for w in extra if len(w) < 99], longok=False) + (["$(%s)" % r.choice(macros)] if macros else [])))
        elif x < .8:
            c = r.choice(["1", "0"])
            out.append(L("cond", "IF", [c, "==", "1"]))
            out.append(L("macro", "COND%d" % k, words(r, extra)))
            macros.append("COND%d" % k)
            if r.random() < .6:
                out.append(L("dir", r.choice(["ELSE", "ELSEIF 1", "ELSE IF 1", "ELSEIFDEF MAC0", "ELSE IFNDEF MAC0"]), []))
                out.append(L("macro", "COND%d" % k, words(r, extra)))
            out.append(L("dir", "ENDIF", []))
        elif x < .9:
            out.append(L("dir", r.choice(["UNDEF", "UNDEF"]), ["MAC%d" % r.randint(0, 9)]))
    t = r.randint(1, 7)
    if r.random() < .3:
        out.append(L("dot", ".SUFFIXES", [".aa", ".bb", ".x"]))
        out.append(L("rule", ".aa.bb", None))
        out.append(L("cmd", None, ["jt", "id=rule", "o:$<=$@"]))
        srcs = ["s%d.bb" % i for i in range(r.randint(1, 3))]
    else:
        srcs = []
    hashes = ["n^#%d" % j for j in range(r.randint(1, 2))] if r.random() < .3 else []
    for k in range(t):
        deps = [("T%d" % j) for j in range(k + 1, t) if r.random() < .4] + [s for s in srcs if r.random() < .5]
        deps += [h for h in hashes if k == 0 or r.random() < .4]
        out.append(L("dep", r.choice(["T%d", "T%d"]) % k, deps))
        out[-1].more = k + 1 < t or True
        for c in range(r.randint(1, 3)):
            w = ["jt", "id=T%d.%d" % (k, c)]
            if macros and r.random() < .6:
                w.append("\"o:$(%s:\"=')\"" % r.choice(macros))
            if r.random() < .5:
                w += ["o:" + r.choice(["v", "w w"]).replace(" ", "_") for _ in range(r.randint(1, 3))] + ["o:" + r.choice(extra or ["z"])]
            if r.random() < .1:
                w.append("o:" + long_word(r))
            mod = r.choice(["", "", "@", "-"])
            w[0] = mod + w[0]
            inline = None
            if r.random() < .2:
                w += ["<<in%d_%d.txt" % (k, c)]
                w[1] += " cat:in%d_%d.txt" % (k, c)
                inline = [r.choice(["", "  lead", "\ttab", "plain text", "# not a comment", "back\\", "caret^", "tail  "] + extra) + r.choice(["", " $(MAC0)"]) for _ in range(r.randint(0, 5))]
                inline.append("<<" + r.choice(["", "KEEP", "NOKEEP"]))
            out.append(L("cmd", None, w))
            for i in inline or []:
                out.append(L("raw", i, None))
    for h in hashes:
        out.append(L("dep", h, []))
        out.append(L("cmd", None, ["jt", "id=hash", "o:$@"]))
    return out, srcs


def comment(r):
    return "#" + r.choice(COMMENT)


def render(lines, lay):
    return render_at(lines, lay)[0]


def render_at(lines, lay):
    """the text and, per logical line, the numbers of its first and last physical line; lay: random.Random for a re-laid-out text, None for the plain one"""
    r, out = lay, []
    at = []
    prev = None
    for i, l in enumerate(lines):
        if i:
            at.append(span(out))
        raw_before = l.kind == "raw" or (prev and prev.kind == "cmd" and "<<" in " ".join(prev.toks))
        if r and l.kind != "raw" and not raw_before:
            while r.random() < .25:
                # a command block directly follows its dependency line
                if prev and prev.kind in ("dep", "rule") and l.kind == "cmd":
                    out.append(comment(r))
                else:
                    out.append(r.choice([comment(r), comment(r), "", "", "  ", "\t"]))
        prev = l
        if l.kind == "raw":
            out.append(l.text)
            continue
        trail = ""
        if r and l.kind != "cmd" and r.random() < .25:
            trail = r.choice(["  ", "\t", " "]) + (comment(r) if r.random() < .6 else "")
            if trail.endswith(("^", "\\")):
                trail += "."
        def join(toks, exact, comment_ok=True):
            s = ""
            for k, t in enumerate(toks):
                if not k:
                    s = t
                elif t.startswith("!"):
                    s += " " + t    # would be a directive in column one
                elif r and r.random() < .2 and not s.endswith(("\\", "^", "#")):
                    if exact == "cmd":
                        s += "\\\n" + r.choice(["", " ", "\t", "      "]) + t
                    elif exact == "msg":
                        s += " \\\n" + t
                    elif exact == "macro":
                        s += "\\\n" + r.choice(["", " ", "\t\t"]) + t
                    else:
                        s += r.choice([" ", "", "\t"]) + "\\\n" + r.choice(["", " ", "\t", "   "]) + t
                elif r and exact == "free" and r.random() < .3:
                    s += r.choice(["  ", "\t", " \t "]) + t
                else:
                    s += " " + t
            return s
        if l.kind == "macro":
            eq = r.choice(["=", " = ", " =", "= ", "\t=\t"]) if r else " = "
            v = join(l.toks, "macro")
            if v.endswith("\\"):
                trail = ""
            out.append(l.text + eq + v + trail)
        elif l.kind in ("dir", "cond"):
            d = l.text
            if r:
                q = re.match(r"(ELSE )?\w+", d).group(0)
                d = (r.choice([q, q.lower(), q.capitalize()]) if r.random() < .5 else q) + d[len(q):]
                d = r.choice(["", "", " ", "\t", "   "]) + d
            s = "!" + d
            if l.toks:
                # a continued directive line is joined without a blank
                if l.kind == "cond":
                    s += " "
                    for k, t in enumerate(l.toks):
                        s += (" " if k else "") + ("\\\n" if k and r and r.random() < .2 else "") + t
                else:
                    s += " " + join(l.toks, "msg" if l.text == "MESSAGE" else "none")
            out.append(s + trail)
        elif l.kind == "dot":
            out.append(l.text + (r.choice([":", " :", " : "]) if r else ":") + join(l.toks, "free") + trail)
        elif l.kind == "rule":
            out.append(l.text + ":")
        elif l.kind == "dep":
            c = r.choice([":", " :", " : ", ":  ", ":\t"]) if r else ": "
            out.append(l.text + c + join(l.toks, "free") + trail)
        elif l.kind == "cmd":
            ind = r.choice(["\t", " ", "    ", "\t\t", " \t"]) if r else "\t"
            out.append(ind + join(l.toks, "cmd") + (r.choice(["", "", " ", "\t"]) if r else ""))
    if lines:
        at.append(span(out))
    return "\n".join(out) + "\n", at


def span(out):
    n = sum(x.count("\n") + 1 for x in out)
    return n - out[-1].count("\n"), n


def encode(text, enc, crlf, nofinal):
    if crlf:
        text = text.replace("\n", "\r\n")
    if nofinal:
        text = text.rstrip("\r\n")
    if enc == "8bit":
        return text.encode("latin-1")
    if enc == "utf8":
        return b"\xef\xbb\xbf" + text.encode("utf-8")
    return b"\xff\xfe" + text.encode("utf-16-le")
