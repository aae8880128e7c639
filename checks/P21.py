#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check
from layout import L, LATIN, UNI, base, encode, render

def observe(r, lines):
    ev = [(e.kind, tuple(e.a[1:]) if e.kind != "S" else (e.a[0], e.a[2])) for e in r.ev if e.kind in ("S", "E", "CAT", "CMD", "NOTFOUND")]
    return {"exit code": r.rc, "commands": [x[1] for x in ev if x[0] == "S"], "other": [x for x in ev if x[0] not in ("S", "E")], "stdout": r.text_out().splitlines(), "stderr": re.sub(r" line \d+", "", r.text_err())}


def case(ctx, J, seed):
    r = random.Random(seed)
    extra = r.choice([[], [], LATIN, UNI])
    lines, srcs = base(r, extra)
    if r.random() < .25:
        # the last line is a command; end with something else
        lines.append(r.choice([L("dep", "zlast", []), L("macro", "LAST", ["x"]), L("dir", "MESSAGE", ["last"])]))
    args = ["/nologo", "/J1", "T0"]
    files = dict((s[:-3] + ".aa", "x") for s in srcs)
    runs = []
    d0 = "utf8" if extra is UNI else "8bit"
    plan = [(None, d0, False, False)]
    for k in range(3):
        lay = random.Random(r.getrandbits(40)) if (k or r.random() < .5) else None
        enc = r.choice(["utf8", "utf16"] if extra is UNI else ["8bit", "8bit", "8bit", "utf8", "utf16"])
        last = lines[-1]
        plan.append((lay, enc, r.random() < .4, last.kind != "raw" and r.random() < .35))
    for lay, enc, crlf, nofinal in plan:
        text = render(lines, lay)
        f = dict(files)
        f["Makefile"] = encode(text, enc, crlf, nofinal)
        x = ctx.run(J, f, args, what="layout")
        if x.bad:
            return
        runs.append((x, observe(x, lines), f, (enc, "crlf" if crlf else "lf", "nofinal" if nofinal else "final", "laid out" if lay else "plain", text)))
    ref = runs[0]
    ctx.count("commands_run", len(ref[1]["commands"]))
    if ref[1]["exit code"] == 0:
        ctx.count("successful_builds")
    else:
        ctx.count("failing_builds")
    for x, o, f, how in runs[1:]:
        ctx.distinct("%s/%s" % (how[:4], hash(how[4])))
        ctx.count("layouts_" + how[0] + "_" + how[1])
        for k in ref[1]:
            if o[k] != ref[1][k]:
                a, b = o[k], ref[1][k]
                if isinstance(a, list):
                    bad = [(p, q) for p, q in zip(a + ["(none)"] * 999, b + ["(none)"] * 999) if p != q]
                    a, b = bad[0]
                ctx.violation("layout %s: %s differs from that of the plain makefile: %r instead of %r" % ("/".join(how[:4]), k, str(a)[:200], str(b)[:200]),
                              replay=ctx.replay_of(x, f, args, plain=render(lines, None), laid_out=how[4], how=how[:4], seen=o[k], reference=ref[1][k]))
                return
    ctx.sample({"layout": runs[1][3][:4], "makefile": runs[1][3][4][:500]})


def body(ctx):
    ctx.rule = "a pair of a plain makefile and another layout/encoding of it, both executed; distinct by layout and text"
    J = ctx.jom()
    ctx.pmap(lambda s: case(ctx, J, s), [ctx.rng.getrandbits(48) for _ in range(ctx.n(380, 12000))])
    ctx.assume("a blank line between a dependency line and its commands, and comment lines inside continued lines, are left open")


check.main("P21", body)
