#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check
from layout import L, LATIN, base, encode, render_at

MAL = ["$(OPEN", "$( ", "a $(OPEN:x=y", "$()", "x$(MAC0:nosubst)", "$-", "$ x", "$(CYC1)", "$(CYC2:x=y)", "$(SELF)", "$z$(CYC1)"]
HEAD = [L("raw", "CYC1 = $(CYC2)"), L("raw", "CYC2 = x$(CYC1)"), L("raw", "SELF = $$(SELF)"), L("raw", "SELF = a$(SELF:a=b)")]


def errors(r):
    """(what, logical lines, index of the erroneous one)"""
    m = r.choice(MAL[:9])
    k = r.random
    E = lambda s: L("raw", s)
    return r.choice([
        lambda: ("no separator", [E(r.choice(["this is no rule", "target", "+x", "\"quoted\"", "(a b)", "$(MAC0) and more", "target \\\n continued \\\n  twice"]))], 0),
        lambda: ("expression", [E(r.choice(["!IF 1 +", "!IF (", "!IF 1 / 0", "!IF \"a\" == ", "!IF 2 2", "! if 1 ==\\\n ==", "!IF )", "!IF"])), E("!ENDIF")], 0),
        lambda: ("else expression", [E("!IF 0"), E(r.choice(["!ELSEIF 1 +", "!ELSE IF (", "!elseif )"])), E("!ENDIF")], 1),
        lambda: ("!ERROR", [E(r.choice(["!ERROR stop", "!error", "! ERROR x \\\ny", "!ERROR $(MAC0)"]))], 0),
        lambda: ("missing include", [E(r.choice(["!INCLUDE nosuchfile.mk", "!include <nosuch.mk>", "!INCLUDE \"no such.mk\"", "include nosuchfile.mk", "!INCLUDE"]))], 0),
        lambda: ("unknown directive", [E(r.choice(["!FOO", "!IFX 1", "!ENDIFF", "!ELSEX", "!MESSAG x", "! \tBAR"]))], 0),
        lambda: ("unbalanced", [E(r.choice(["!ENDIF", "!ELSE", "!ELSEIF 1", "!ELSE IFDEF X", "!elseifndef y"]))], 0),
        lambda: ("macro name", [E(r.choice(["bad name = x", "b-d = x", "a+b=1", "b$(MAC0)! = 1"]))], 0),
        lambda: ("malformed invocation in a dependency line", [E("errtgt: " + m)] + ([E("\tjt id=never")] if k() < .5 else []), 0),
        lambda: ("malformed invocation in a target name", [E("errtgt" + r.choice(["$(OPEN", "$(CYC1)"]) + " : x")], 0),
        lambda: ("malformed invocation in a command", [E("errtgt:"), E("\tjt id=a"), E("\tjt id=never o:" + m), E("\tjt id=b")], 2),
        lambda: ("malformed invocation in a command on the dependency line", [E("errtgt: ; jt id=never " + m)], 0),
        lambda: ("malformed invocation in a message", [E("!MESSAGE " + m)], 0),
        lambda: ("malformed invocation in a condition", [E("!IF \"%s\" == \"\"" % m), E("!ENDIF")], 0),
        lambda: ("malformed invocation in an inference rule's command", [E(".ee.ff:"), E("\tjt o:x"), E("\tjt " + r.choice(["$(OPEN", "$(", "$-"]))], 2),
        lambda: ("malformed invocation in an inline file", [E("errtgt:"), E("\tjt cat:e.txt <<e.txt"), E("fine"), E("text " + m), E("fine"), E("<<")], 3),
        lambda: ("colon and double colon", [E("errtgt: a"), E("errtgt:: b")] + ([E("\tjt id=never"), E("\tjt id=never")] if k() < .6 else []), 1),
        lambda: ("dependents macro in a dependency line", [E("errtgt: %s" % r.choice(["$**", "$?", "$(**)", "$(?F)"]))] + ([E("\tjt id=never"), E(""), E("\tjt id=never")] if k() < .6 else []), 0),
        lambda: ("include cycle", [E("!INCLUDE Makefile")], 0),
    ])()


def prefix(r, extra, k):
    lines, srcs = base(r, extra)
    for l in lines:
        # several texts in one makefile
        if l.kind == "dep":
            l.text = l.text.replace("T", "P%dT" % k)
            l.toks = [t if t.endswith(".bb") else t.replace("T", "P%dT" % k) for t in l.toks]
    if r.random() < .4:
        sk = [L("raw", "!IF 0")] + [L("raw", t) for t in r.sample(["!ERROR no", "!INCLUDE none.mk", "no rule", "X = $(OPEN", "!FOO", "\tjt id=never", "a: $(", "! IF 1", "cont \\\n more"], r.randint(0, 6))]
        n = sum(1 for l in sk if l.text == "! IF 1")
        sk += [L("raw", "!ENDIF")] * (n + 1)
        # between blocks only
        at = r.choice([i for i, l in enumerate(lines) if l.kind in ("macro", "dep", "dir") and not (i and lines[i - 1].kind in ("cond",))] or [0])
        lines[at:at] = sk
    return lines


def case(ctx, J, seed):
    r = random.Random(seed)
    extra = r.choice([[], [], LATIN])
    lay = lambda: random.Random(r.getrandbits(40)) if r.random() < .8 else None
    enc = lambda: (r.choice(["8bit", "8bit", "utf8", "utf16"]), r.random() < .3, False)
    what, err, idx = errors(r)
    files = {}
    # the file with the error: before it other text and possibly an included file; behind it more text
    chain = r.choice([0, 0, 1, 1, 2])
    names = ["Makefile"] + ["inc%d.mk" % i for i in range(1, chain + 1)]
    if what == "include cycle" and chain:
        err[0] = L("raw", "!INCLUDE " + r.choice(names))
    first = last = None
    for d, name in enumerate(names):
        lines = [l for l in HEAD] if d == 0 else []
        if not d:
            lines.append(L("macro", "MAC0", ["m"]))
        for k in range(r.randint(0, 2)):
            lines += prefix(r, extra, 10 * d + k)
            if r.random() < .3:
                inc = "ok%d_%d.mk" % (d, k)
                t, _ = render_at(prefix(r, extra, 100 + 10 * d + k), lay())
                files[inc] = encode(t, *enc())
                lines.append(L("raw", "!INCLUDE " + inc))
        if d < chain:
            lines.append(L("raw", "!INCLUDE " + names[d + 1]))
            pos = None
        else:
            pos = len(lines) + idx
            lines += err
        if r.random() < .5 and not (err[-1].text.startswith("\t") and r.random() < .5):
            lines += prefix(r, extra, 10 * d + 5)
        text, at = render_at(lines, lay())
        if pos is not None:
            first, last = at[pos]
        files[name] = encode(text, *enc())
    args = ["/nologo", "/J%d" % r.choice([1, 3])]
    x = ctx.run(J, files, args, what="error position")
    if x.bad:
        return
    rep = lambda **k: ctx.replay_of(x, files, args, error=what, expected="%s %d-%d" % (names[-1], first, last), **k)
    ctx.count("errors_" + what.replace(" ", "_"))
    ctx.distinct("%s %s %d %d" % (what, err[idx].text, chain, first))
    ctx.maxi("largest_line_number", first)
    if x.rc != 2:
        ctx.violation("error position: %s (%r): exit code %s instead of 2" % (what, err[idx].text, x.rc), replay=rep())
    elif x.starts():
        ctx.violation("error position: %s (%r): commands run: %s" % (what, err[idx].text, x.order()[:3]), replay=rep())
    else:
        t = x.text_err()
        m = re.search(r"(?s)Error: .* in (\S*?)([^\\\s]+) line (\d+)\s*$", t)
        if not m:
            ctx.violation("error position: %s (%r): no position in %r" % (what, err[idx].text, t[:300]), replay=rep())
        elif m.group(2) != names[-1] or not (first <= int(m.group(3)) <= last):
            ctx.violation("error position: %s (%r): reported at %s line %s, but it is at %s line %d%s" % (
                what, err[idx].text, m.group(2), m.group(3), names[-1], first, "" if first == last else "-%d" % last), replay=rep())
        else:
            ctx.count("positions_compared")
    ctx.sample({"error": what, "line": err[idx].text, "file": names[-1], "position": [first, last], "message": x.text_err()[:200]})


def unclosed(ctx, J, seed):
    """a conditional without !ENDIF is an error that names the makefile"""
    r = random.Random(seed)
    lines = prefix(r, [], 1) + [L("raw", r.choice(["!IF 1", "!IFNDEF NOPE", "!IF 0\n!ELSE", "!IF 0"]))]
    lines += prefix(r, [], 2) if r.random() < .6 else []
    text, at = render_at(lines, random.Random(r.getrandbits(40)))
    files = {"Makefile": encode(text, "8bit", r.random() < .3, False)}
    x = ctx.run(J, files, ["/nologo"], what="missing !ENDIF")
    if x.bad:
        return
    ctx.count("errors_missing_endif")
    m = re.search(r"(?s)Error: .* in (\S*?)([^\\\s]+) line (\d+)\s*$", x.text_err())
    if x.rc != 2 or x.starts():
        ctx.violation("missing !ENDIF: exit code %s, commands %s" % (x.rc, x.order()[:3]), replay=ctx.replay_of(x, files, []))
    elif not m or m.group(2) != "Makefile" or not (1 <= int(m.group(3)) <= text.count("\n") + 1):
        ctx.violation("missing !ENDIF: file and line not named: %r" % x.text_err()[:200], replay=ctx.replay_of(x, files, []))


def body(ctx):
    ctx.rule = "an error of one of 19 kinds planted behind a random makefile text in a random layout and include depth; distinct by error text, depth and line"
    J = ctx.jom()
    ctx.pmap(lambda s: case(ctx, J, s), [ctx.rng.getrandbits(48) for _ in range(ctx.n(1200, 40000))])
    ctx.pmap(lambda s: unclosed(ctx, J, s), [ctx.rng.getrandbits(48) for _ in range(ctx.n(60, 1000))])
    ctx.assume("for a line that is continued with backslashes, every line number of it is accepted")


check.main("P22", body)
