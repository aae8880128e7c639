#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, ppexpr

PRESENT = ["here.txt", "with space.txt", "paren (x86).txt", "sub/deep.h", "a).b"]
ABSENT = ["nothere.txt", "with spac.txt", "paren.txt", "sub/other.h", "here.tx"]
DEFS = {"DEF1": "1", "EMPTY": "", "Mixed_1": "x", "E.Q": "2"}
HEAD = "".join("%s = %s\n" % kv for kv in DEFS.items()) + "GONE = 1\n!UNDEF GONE\n"


def defined_atom(r):
    n = r.choice(list(DEFS) + ["GONE", "NOPE", "def1", "DEF", "DEF11"])
    k = r.choice(["DEFINED", "defined", "Defined"]) + r.choice(["", "", " ", "  ", "\t"])
    return k + r.choice(["(%s)", "(%s)", "( %s )", "(\"%s\")"]) % n


def exist_atom(r):
    n = r.choice(PRESENT + ABSENT)
    if r.random() < .3:
        n = n.replace("/", "\\")
    k = r.choice(["EXIST", "exist", "Exist"]) + r.choice(["", "", " "])
    if any(c in n for c in ")"):
        if n.count("(") != n.count(")"):
            return k + "(\"%s\")" % n
    return k + r.choice(["(%s)", "(%s)", "( %s )", "(\"%s\")"]) % n


def cmd_atom(r):
    return "[jt x:%d]" % r.choice([0, 0, 1, 2, 5, 77, 255])


def world():
    def run(c):
        m = re.fullmatch(r"jt x:(\d+)", c.strip())
        if not m:
            raise ppexpr.Bad("command the reference does not know")
        return int(m.group(1))
    return {"defined": lambda n: n in DEFS, "exist": lambda n: n.replace("\\", "/") in PRESENT, "run": run}


def lit(v):
    if v >= 0:
        return str(v)
    if v == -2147483648:
        return "(-2147483647-1)"
    return "(-%d)" % -v


FILES = {p: "x" for p in PRESENT}


def usable(s):
    return not any(c in s for c in "$#\n\r") and not s.strip().endswith("\\") and not s.strip().endswith("^")


def commands_known(s):
    """malformed texts must not make jom run something strange"""
    for m in re.findall(r"\[[^\]]*\]?", s):
        if not re.fullmatch(r"\[jt x:\d+\]", m):
            return False
    return True


def valid_case(ctx, J, seed):
    rng = random.Random(seed)
    g = ppexpr.Gen(rng, [defined_atom, exist_atom] * 3 + ([cmd_atom] if rng.random() < .3 else []))
    w = world()
    mk, want = [HEAD], {}
    k = 0
    while k < 60:
        s = g.deep() if rng.random() < .03 else g.expr()
        if not usable(s):
            continue
        try:
            v = ppexpr.evaluate(s, w)
        except ppexpr.Bad:
            continue                    # division by zero
        k += 1
        how = rng.random()
        if how < .5:
            # exact value, three-way through the branches
            mk.append("!IF (%s) == %s\n!MESSAGE R%d:eq\n!ELSE IF (%s) != 0\n!MESSAGE R%d:ne\n!ELSE\n!MESSAGE R%d:zero\n!ENDIF\n" % (s, lit(v), k, s, k, k))
            want[k] = "eq"
        elif how < .8:
            mk.append("%s %s\n!MESSAGE R%d:T\n!%s\n!MESSAGE R%d:F\n!ENDIF\n" % (rng.choice(["!IF", "!if", "! IF", "!If"]), s, k, rng.choice(["ELSE", "else"]), k))
            want[k] = "T" if v else "F"
        elif how < .9:
            mk.append("!IF 0\n!MESSAGE R%d:wrong\n!%s %s\n!MESSAGE R%d:T\n!ELSE\n!MESSAGE R%d:F\n!ENDIF\n" % (k, rng.choice(["ELSEIF", "ELSE IF", "else if"]), s, k, k))
            want[k] = "T" if v else "F"
        else:
            mk.append("X%d = %s\n!IF $(X%d)\n!MESSAGE R%d:T\n!ELSE\n!MESSAGE R%d:F\n!ENDIF\n" % (k, s, k, k, k))
            want[k] = "T" if v else "F"
        ctx.distinct(s)
    mk.append("all:\n\tjt id=all\n")
    files = dict(FILES, Makefile="".join(mk))
    r = ctx.run(J, files, ["-nologo", "-s"], "valid expressions")
    if r.bad:
        return
    errs = []
    got = {}
    for m in re.finditer(r"^R(\d+):(\w+)", r.text_out(), re.M):
        got.setdefault(int(m.group(1)), []).append(m.group(2))
    for k, x in want.items():
        if got.get(k) != [x]:
            line = [p for p in mk if "R%d:" % k in p][0]
            errs.append("expression %d: branch %s taken, expected %s: %s" % (k, got.get(k), x, line[:300]))
    if r.rc != 0 or r.order() .count("all") != 1:
        errs.append("exit code %s: %s" % (r.rc, r.text_err()[-400:]))
    ctx.count("valid_expressions", len(want))
    ctx.sample({"makefile": "".join(mk[:4])}, 2)
    if errs:
        # the error text is the more telling one if jom gave up
        if r.rc != 0:
            errs.reverse()
        ctx.violation(errs[0], replay=ctx.replay_of(r, files, ["-nologo", "-s"], errors=errs, seed=seed))


def bad_case(ctx, J, seed):
    rng = random.Random(seed)
    g = ppexpr.Gen(rng, [defined_atom, exist_atom])
    w = world()
    for _ in range(1000):
        r = rng.random()
        if r < .2:
            z = rng.choice(["/", "%"]) + rng.choice([" 0", "0", "(1-1)", "(0)", "DEFINED(NOPE)"])
            a = rng.choice([g.num(), g.primary(2), "1"])
            s = rng.choice(["%s%s", "(%s%s)", "1 && %s%s", "0 && %s %s", "1 || (%s%s)", "-(%s%s)", "!(%s%s) + 1"]) % (a, z)
        else:
            s = g.expr()
            if len(s) > 200:
                continue
            for _ in range(rng.choice([1, 1, 2])):
                s = g.mutate(s)
        s = s.strip()
        if not usable(s) or not commands_known(s) or re.match(r"(?i)(def|defined)?\(?\s*$", s) and False:
            continue
        # the reference does not decide these (odd arguments of DEFINED and EXIST, numbers that do not fit)
        if re.search(r"(?i)(defined|exist)[ \t]*\([^)]*[^\w.)\s\"/\\ (]", s) or any(int(x) > 2147483647 for x in re.findall(r"\d+", s)):
            continue
        if any(ppexpr.closing(s, m.end() - 1) < 0 for m in re.finditer(r"(?i)exist[ \t]*\(", s)):
            continue
        try:
            ppexpr.evaluate(s, w)
            continue
        except ppexpr.Bad as e:
            why = str(e)
            break
    else:
        return
    pre = []
    for i in range(rng.randint(0, 5)):
        pre.append(rng.choice(["", "# comment", "A%d = x" % i, "!MESSAGE m", "!IF 1\n!ENDIF", "B%d = a \\\n  b" % i, "!IF 0\n!IF (\n!ENDIF\n!ELSE\n!ENDIF"]))
    form = rng.choice(["!IF %s", "!IF %s", "!IF 0\n!ELSEIF %s", "!IF 0\n!ELSE IF %s", "M = %s\n!IF $(M)"])
    if form.startswith("M"):
        if '"' in s and s.count('"') % 2 or "=" in s[:0]:
            form = "!IF %s"
    text = HEAD + "\n".join(pre + [form % s]) + "\n"
    line = text.count("\n")
    text += "!MESSAGE TRUE\n!ELSE\n!MESSAGE FALSE\n!ENDIF\nall:\n\tjt id=all\n"
    if form.startswith("!IF 0"):
        text = text.replace("!MESSAGE TRUE\n!ELSE\n", "!MESSAGE TRUE\n!ELSE\n")
    files = dict(FILES, Makefile=text)
    r = ctx.run(J, files, ["-nologo", "-s"], "ill-formed expression")
    if r.bad:
        return
    errs = []
    out = r.text_out()
    if "TRUE" in out or "FALSE" in out:
        errs.append("ill-formed expression %r (%s) was silently decided as %s" % (s, why, "true" if "TRUE" in out else "false"))
    if r.order():
        errs.append("a command ran although %r is ill-formed" % s)
    if r.rc != 2:
        errs.append("exit code %s for %r (%s)" % (r.rc, s, why))
    m = re.search(r"in (\S+) line (\d+)", r.text_err())
    if not m or not m.group(1).endswith("Makefile") or int(m.group(2)) != line:
        errs.append("error position %s, expected Makefile line %d: %s" % (m and m.groups(), line, r.text_err()[-300:]))
    ctx.count("ill_formed_expressions")
    ctx.count("ill_formed: " + re.sub(r" '.*", "", why))
    ctx.distinct(s)
    ctx.sample({"ill-formed": s, "why": why, "message": r.text_err()[:200]}, 4)
    if errs:
        ctx.violation(errs[0], replay=ctx.replay_of(r, files, ["-nologo", "-s"], errors=errs, seed=seed))


def body(ctx):
    ctx.rule = "generated well-formed expressions (60 per makefile) whose value is compared with a reference evaluator, and ill-formed ones that must be errors at their line; distinct by expression text"
    ctx.assume("numbers are decimal and fit into 32 bits; && || & | share the lowest precedence level, as in the grammar of jom")
    J = ctx.jom()
    n = ctx.n(100, 3000)
    cs = [(valid_case, ctx.rng.random()) for _ in range(n)] + [(bad_case, ctx.rng.random()) for _ in range(3 * n)]
    ctx.rng.shuffle(cs)
    ctx.pmap(lambda c: c[0](ctx, J, c[1]), cs)


check.main("P17", body)
