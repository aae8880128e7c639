#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check

BUILTINS = ["copy nul nul", "del nosuch.tmp", "echo some text", "echo \"quoted  text\"", "type in.txt", "ver x", "if exist in.txt jt id=%s", "if not exist nosuch jt id=%s", "call jt id=%s", "erase no1 no2", "md newdir%d", "set /a", "ECHO Text", "Copy in.txt out%d.txt",
            "if \"a b\"==\"a b\" jt id=%s", "exit 0", "mkdir made%d"]


def arg(r, shell, uni):
    """(text as it must arrive, the same as written in a makefile)"""
    k = r.random()
    if k < .25:
        t = "".join(r.choice("abcXYZ019._-+=,;:'`~[]()!@/\\") for _ in range(r.randint(1, 12)))
        t = "/" + t if r.random() < .2 else t
    elif k < .4:
        t = '"%s"' % "".join(r.choice("ab c  d.\\/;,=-+()!'") for _ in range(r.randint(0, 14))).rstrip("\\")
    elif k < .5:
        t = r.choice(['\\"', 'a\\\\"b c"', '"a\\"b"', '"tail\\\\"', 'x"y z"w', '""', '"', "''", '-D"N=1 2"', '-DSTR=\\"text\\"', '"a""b"'])
        if t == '"' and shell:
            t = '""'
    elif k < .58:
        t = r.choice(["%", "%X", "100%", "%PATH%", "%%", "a%b%c"])
        if shell:
            t = r.choice(["%", "100%"])
    elif k < .66:
        t = r.choice(["^", "a^b", "^(", "^^", "^)", "a^"]) if not shell else "plain"
        t += "x"
    elif k < .72:
        t = r.choice(["$", "$x", "a$", "US$100", "$$"])
    elif k < .78:
        t = r.choice(["{a}", "{}", "*", "?", "*.c", "a?b", "~1", "a#b", "#x"])
    elif k < .82 and uni:
        t = r.choice(["\u00e4\u00f6\u00fc", "caf\u00e9", "\u0394\u03bb", "\u65e5\u672c", "na\u00efve"])
    elif k < .86:
        t = r.choice(["/c", "/C", "-", "--", "-5", "@rsp", "!x", "rem", "cd", "NUL", "/C x"])
    else:
        t = "w" * r.choice([1, 3, 40, 300])
    return t


def written(r, t, macros):
    s = t.replace("%", "%%").replace("$", "$$")
    if r.random() < .12 and t and not re.search(r"[\s#\\^\"]", t):
        n = "V%d" % len(macros)
        macros[n] = s
        return "$(%s)" % n
    return s


def case(ctx, J, seed):
    r = random.Random(seed)
    uni = r.random() < .15
    macros, lines, expect = {}, [], []
    for i in range(r.randint(1, 9)):
        cid = "k%d" % i
        kind = r.choice(["direct", "direct", "direct", "shell", "shell", "builtin", "missing", "comment", "empty", "long"])
        pre = r.choice(["", "", "", "@", "-", "@-", "-@", "!", "-5", "-5@", "@!-", "---", "- ", "@ ", "-@ ", "-\t"])
        ids, via = [cid], kind
        prog = r.choice(["jt", "jt", "JT", "jt.exe", "Jt.EXE", '"jt"', '"jt.exe"'])
        if kind in ("direct", "long", "missing"):
            if kind == "missing":
                prog = r.choice(["nosuchprogram", "copyfiles", "iffy.exe", "Verifier", "remtool", "rem.exe", "REMARK", "cdrom", "setup.exe", "callee", "volume", "DirList.exe", "format-x", "typex", "xcopy1", "xrem", "no\\such.exe", '"no such"', "nosuch.bat"])
                pre = r.choice(["-", "-@", "@-"])
                ids = []
            n = r.choice([0, 1, 2, 3, 6]) if kind != "long" else r.choice([200, 900])
            t, w = prog + " id=" + cid, prog + " id=" + cid
            if kind == "missing":
                t = w = prog
            for _ in range(n):
                sep = r.choice([" ", " ", " ", "  ", "\t", "    "])
                a = arg(r, kind == "missing", uni) if kind != "long" else "w%04d\"x y\"" % _ + "z" * r.randint(0, 30)
                if kind == "direct" and r.random() < .03:
                    a = "@long" + "q" * 7000
                t += sep + a
                w += sep + written(r, a, macros)
            if kind == "direct" and "-" in pre and "5" not in pre and t.count('"') % 2 == 0 and r.random() < .3:
                a = r.choice([" x:1", " x:2", " x:9009", " x:1", " crash"])
                t, w = t + a, w + a
            if kind == "missing" and t.count('"') % 2:
                continue
            if kind == "direct" and t.count('"') % 2 and t.endswith("\\"):
                continue
        elif kind == "shell":
            parts, ids, q = [], [], r.choice([" && ", " & ", "&&", " || ", "|", " > out.txt", " 2>&1", " < in.txt", ">>log.txt 2>&1", "quoted"])
            one = lambda c: "%s id=%s%s" % (r.choice(["jt", '"jt"', "jt.exe"]), c, "".join(" " + arg(r, True, uni) for _ in range(r.choice([0, 1, 2]))))
            if q in (" && ", " & ", "&&", " || ", "|"):
                cs = [cid + x for x in "abc"[:r.choice([2, 2, 3])]]
                t = q.join(one(c) for c in cs)
                ids = cs if q != " || " else cs[:1]
            elif q == "quoted":
                t = one(cid) + r.choice([' "a & b"', ' "x>y"', ' "a|b" c', ' -D"<T>"', ' "a && b" "c | d"'])
                ids = [cid]
            else:
                t = one(cid) + q
                ids = [cid]
            if t.count('"') % 2 or "\\\"" in t or "^" in t or t.count("%") > 1:
                continue
            w = written(r, t, {}) if r.random() < 2 else t
            w = t.replace("%", "%%").replace("$", "$$")
        elif kind == "builtin":
            t = r.choice(BUILTINS)
            ids = [cid] if "%s" in t else []
            t = t % (cid if "%s" in t else i) if "%" in t else t
            if t.startswith("set"):
                continue
            if r.random() < .2:
                t = t.replace(" ", "\t", 1)
            pre = r.choice(["-", "-@"]) if pre in ("!", "@!-") else "-" + pre.replace("-5", "").replace("!", "")
            w = t
        elif kind == "comment":
            t = w = r.choice(["rem jt id=%s", "REM\tjt id=%s", ":label jt id=%s", "Rem a & jt id=%s", ": & jt id=%s"]) % cid
            ids = []
        else:
            t, w, ids = "", r.choice(["$(NOTHING)", "@$(NOTHING)", "-"]), []
        if w.endswith("\\") or len(w) > 24000:
            continue
        if pre and pre[-1].isdigit() and w[:1].isdigit():
            continue
        if pre.endswith("-") and w[:1].isdigit() or w[:1] in "-@!" and kind != "empty":
            continue
        lines.append("\t" + pre + w)
        expect.append((kind, t.rstrip(), ids))
    if not expect:
        return
    mk = "".join("%s = %s\n" % (n, s.replace("#", "^#")) for n, s in macros.items()) + "first: dep\n" + "\n".join(lines) + "\ndep:\n"
    mk = re.sub(r"(?m)#(?=.*$)", "#", mk)
    comspec = r.choice(["minicmd", "minicmd", "minicmd.exe", "MiniCmd", None])
    files = {"Makefile": ("\ufeff" if not mk.isascii() else "") + mk, "in.txt": "some input\n"}
    env = {}
    if comspec:
        env["ComSpec"] = comspec
    else:
        env["ComSpec"] = ""
        comspec = "cmd.exe"
    args = ["/NOLOGO", "/J", str(r.choice([1, 4]))]
    rr = ctx.run(J, files, args, env=env)
    if rr.bad:
        return
    def bad(what):
        ctx.violation("seed %s: %s" % (seed, what), replay=ctx.replay_of(rr, files, args, expected=expect))
    # what jom started, in order
    spawns = []
    failed = []
    for e in rr.ev:
        if e.kind == "SPAWN":
            spawns.append((e.raw.split(" cmd=", 1)[1], list(failed)))
            failed.clear()
        elif e.kind == "SPAWN-FAILED":
            failed.append(e.raw.split(" ", 1)[1])
    i = 0
    for kind, t, ids in expect:
        if kind == "comment":
            continue
        if kind == "empty":
            # nothing to do; asking the shell to do nothing is fine
            if i < len(spawns) and spawns[i][0].rstrip() == comspec + " /C":
                i += 1
            continue
        if i >= len(spawns):
            return bad("command not executed: %r" % t[:300])
        got, fl = spawns[i]
        i += 1
        operators = any(c in t for c in "|<>&")
        if kind in ("shell", "builtin") or operators:
            if fl and (not t.startswith("mkdir") or [x.rstrip() for x in fl] != [t]):
                return bad("needs the shell, but was started directly first: %r" % fl)
            m = re.match(re.escape(comspec) + r"\s+/C\s(.*)$", got, re.S)
            if not m:
                return bad("%r was not given to the shell %s, but: %r" % (t[:200], comspec, got[:300]))
        elif kind == "missing":
            if [x.rstrip() for x in fl] != [t]:
                return bad("%r was not tried directly once: %r" % (t[:200], [x[:200] for x in fl]))
            if not got.startswith(comspec + " /C "):
                return bad("%r was not given to the shell %s, but: %r" % (t[:200], comspec, got[:300]))
        else:
            if fl:
                return bad("start failed: %r" % fl)
            if got.rstrip() != t:
                return bad("written %r, started %r" % (t[:400], got[:400]))
    if i != len(spawns):
        return bad("something else was started: %r" % (spawns[i],))
    if failed:
        return bad("failed start without consequence: %r" % failed)
    # what the shell was asked to do
    shells = [e.a[0] for e in rr.ev if e.kind == "CMD"]
    want = [t for k, t, ids in expect if k in ("shell", "builtin", "missing") or k != "comment" and k != "empty" and any(c in t for c in "|<>&")]
    shells = [s.rstrip() for s in shells if s.strip()]
    if shells != want:
        d = next((k for k in range(max(len(shells), len(want))) if k >= len(shells) or k >= len(want) or shells[k] != want[k]), 0)
        return bad("the shell received %r, written %r" % (shells[d:d + 1], want[d:d + 1]))
    # every program exactly once, with the arguments as the C runtime splits them
    ran = [e.a[0] for e in rr.ev if e.kind == "S"]
    wanted = [x for k, t, ids in expect for x in ids]
    if sorted(ran) != sorted(wanted):
        return bad("programs run %s, expected %s" % (ran, wanted))
    lost = [t for k, t, ids in expect if k == "missing"]
    nf = [e for e in rr.ev if e.kind == "NOTFOUND"]
    if len(nf) != len(lost):
        return bad("missing programs tried by the shell %d times, expected %d" % (len(nf), len(lost)))
    if rr.rc != 0:
        return bad("exit code %s: %s" % (rr.rc, rr.text_err()[-300:]))
    for k, t, ids in expect:
        ctx.count("commands_" + k)
        ctx.maxi("longest_command_line", len(t))
        ctx.distinct(re.sub(r"k\d+|w+|z+|q+|\d+", "", t)[:200])
    ctx.count("command_lines_compared", len(spawns))
    ctx.sample({"commands": [t[:120] for k, t, ids in expect]}, 3)


def body(ctx):
    J = ctx.jom("asan")
    ctx.rule = "commands of random pieces (quotes, escapes of quotes, runs of blanks, %, ^, $, brackets, other alphabets, lines up to 20000 characters), prefixes, shell operators, built-ins, comments, missing programs; the command line given to process creation, the one the shell receives and the programs that run are compared with the text written"
    ctx.pmap(lambda s: case(ctx, J, s), ["l%d/%d" % (ctx.seed, i) for i in range(ctx.n(500, 12000))])
    ctx.assume("blanks at the end of a command are left open")


check.main("P37", body)
