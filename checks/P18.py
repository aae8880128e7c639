#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen

MACROS = ["AA", "BB", "CC_1", "Mixed"]
DEAD = ["!ERROR stop", "!INCLUDE nosuchfile.mak", "include nosuchfile.mak", "!IF (((\n!ENDIF", "!IF\n!ENDIF", "!IF 1 ==\n!ELSEIF )\n!ELSE\n!ENDIF", "!unknowndirective", "BAD = $(", "\t$(AA", "a:: b : c",
        "$(AA:x)", "!MESSAGE $(", "!IF $(\n!ENDIF", "!IFDEF $(\n!ELSE\n!ENDIF", "1badname$ = 3", "!UNDEF $(", "R1 = $(R2)\nR2 = $(R1)\nR3 = $(R1)x", "dead: nosuchdependent\n\tjt id=never", "!CMDSWITCHES +Z",
        "= novalue", ":", "!", "!   ", "{", "BB = dead", "AA = dead", "!UNDEF AA", "!UNDEF Mixed", "!MESSAGE dead", "# !ENDIF", "#!ELSE", "  !ENDIF", "\t!ENDIF", "dead2: <<x\n<<", "LONG = " + "x" * 3000, "a\\", "!IFDEF Mixed\n!MESSAGE dead\n!ENDIF"]


class Program:
    """generates the text and, in step, the meaning"""
    def __init__(self, rng):
        self.r = rng
        self.k = 0
        self.files = {}
        self.macros = {}
        self.msgs = []
        self.cmds = []          # ids in order (J=1)
        self.budget = rng.choice([6, 15, 40, 80])
        self.live_conds = 0
        self.dead_lines = 0
        self.kinds = set()

    def kw(self, s):
        r = self.r
        x = r.random()
        s = s.lower() if x < .2 else (s.capitalize() if x < .3 else s)
        return "!" + r.choice(["", "", "", " ", "\t", "  "]) + s

    def tail(self):
        return self.r.choice(["", "", "", "", " ", "  # comment", " # !ENDIF"])

    def cond(self, live):
        """(suffix of IF, text, value)"""
        r = self.r
        if not live and r.random() < .3:
            return "", r.choice(["(", "1 +", "$(", "\"", "nonsense", "1/0", "DEFINED(", "== 1"]), None
        x = r.random()
        m = r.choice(MACROS)
        if x < .25:
            return "DEF", r.choice(["", "", "$(EMPTY)"]) + r.choice([m, m, "$(N_%s)" % m]), m in self.macros
        if x < .45:
            return "NDEF", r.choice([m, m, "$(N_%s)" % m]), m not in self.macros
        if x < .6:
            v = r.random() < .5
            return "", r.choice(["1", "2 > 1", "!0", "1 == 1 && 1"]) if v else r.choice(["0", "1 > 2", "!1", "1 == 1 && 0"]), v
        if x < .75:
            neg = r.random() < .4
            return "", "%sDEFINED(%s)" % ("!" if neg else "", m), (m in self.macros) != neg
        val = r.choice(["v1", "v2", self.macros.get(m, "")])
        if r.random() < .2:
            return "", "\"$(%s)\" == \\\n \"%s\"" % (m, val), self.macros.get(m, "") == val
        return "", "\"$(%s)\" == \"%s\"" % (m, val), self.macros.get(m, "") == val

    def conditional(self, live, body):
        """body(live) -> list of lines"""
        r = self.r
        out = []
        suf, t, v = self.cond(live)
        taken = False
        self.live_conds += live
        now = live and bool(v)
        out.append("%s %s%s" % (self.kw("IF" + suf), t, self.tail()))
        out += body(now)
        taken = now
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 4])):
            can = live and not taken
            suf, t, v = self.cond(can)
            now = can and bool(v)
            e = self.kw("ELSE" + r.choice(["", " ", "  ", "\t"]) + "IF" + suf)
            out.append("%s %s%s" % (e, t, self.tail()))
            out += body(now)
            taken = taken or now
        if r.random() < .55:
            out.append(self.kw("ELSE") + self.tail())
            out += body(live and not taken)
        out.append(self.kw("ENDIF") + self.tail())
        return out

    def stmt(self, live, depth):
        r = self.r
        self.k += 1
        k = self.k
        self.budget -= 1
        if not live and r.random() < .35:
            self.dead_lines += 1
            return r.choice(DEAD).split("\n")
        x = r.random()
        if x < .3 and depth < 7:
            return self.conditional(live, lambda lv: self.stmts(lv, depth + 1))
        m = r.choice(MACROS)
        if x < .45:
            v = r.choice(["v1", "v2", "v3", ""])
            if live:
                self.macros[m] = v
            return ["%s%s%s%s" % (m, r.choice([" = ", "=", "\t= "]), v, r.choice(["", "", "", " ", " # v9"]))]
        if x < .5:
            if live:
                self.macros.pop(m, None)
            return [self.kw("UNDEF") + " " + m]
        if x < .68:
            if live:
                self.msgs.append("m%d [%s] [%s]" % (k, self.macros.get(m, ""), self.macros.get("AA", "")))
            return [self.kw("MESSAGE") + " m%d [$(%s)] [$(AA)]" % (k, m) + self.tail()]
        if x < .84:
            # a description block with conditionals between its commands
            out = ["t%d:" % k]
            n = [0]

            def commands(lv, d=0):
                o = []
                for _ in range(r.choice([0, 1, 1, 2])):
                    if r.random() < .35 and d < 3:
                        o += self.conditional(lv, lambda l2: commands(l2, d + 1))
                        self.kinds.add("in commands")
                    else:
                        n[0] += 1
                        cid = "t%d.%d" % (k, n[0])
                        if lv:
                            self.cmds.append(cid)
                        o.append("\tjt id=%s" % cid)
                return o
            out += commands(live)
            out += ["", "all: t%d" % k]
            return out
        if x < .92:
            # a continued line with conditionals inside
            out = ["%s = v1 \\" % m]
            items = ["v1"]

            def parts(lv):
                i = "w%d" % r.randint(1, 9)
                if lv:
                    items.append(i)
                return ["   %s \\" % i]
            for _ in range(r.randint(1, 3)):
                out += self.conditional(live, parts) if r.random() < .6 else parts(live)
            out.append("   last%d" % k)
            if live:
                self.msgs.append("list%d %s" % (k, " ".join(items + ["last%d" % k])))
                self.macros[m] = "v1"
            self.kinds.add("in continuation")
            return out + ["!MESSAGE list%d $(%s)" % (k, m), "%s = v1" % m]
        f = "inc%d.mak" % k
        keep = self.msgs, self.cmds
        body = self.stmts(live, depth + 1)
        self.files[f] = "\n".join(body) + "\n"
        self.kinds.add("include")
        return ["!INCLUDE %s" % f]

    def stmts(self, live, depth=0):
        out = []
        n = self.r.choice([0, 1, 2, 3]) if depth else 1000
        while n and self.budget > 0:
            out += self.stmt(live, depth)
            n -= 1
        return out


def case(ctx, J, seed):
    rng = random.Random(seed)
    p = Program(rng)
    lines = ["N_%s = %s" % (m, m) for m in MACROS] + ["all:"] + p.stmts(True)
    end = ["end [%s] " % p.macros.get(m, "") + m for m in MACROS]
    lines += ["!MESSAGE end [$(%s)] %s" % (m, m) for m in MACROS]
    files = dict(p.files, Makefile="\n".join(lines) + "\n")
    r = ctx.run(J, files, ["-nologo", "-s", "-j", "1"], "conditionals")
    if r.bad:
        return
    want = p.msgs + end
    got = [re.sub(r"\s+", " ", x).strip() for x in r.text_out().splitlines() if x.strip()]
    want = [re.sub(r"\s+", " ", x).strip() for x in want]
    errs = []
    if r.rc != 0:
        errs.append("exit code %s: %s" % (r.rc, r.text_err()[-300:]))
    for i in range(max(len(want), len(got))):
        a = want[i] if i < len(want) else "nothing more"
        b = got[i] if i < len(got) else "nothing more"
        if a != b:
            errs.append("message %d is %r, expected %r" % (i, b, a))
            break
    if sorted(r.order()) != sorted(p.cmds):
        errs.append("commands %s ran, expected %s" % (sorted(set(r.order()) ^ set(p.cmds))[:5], "the others"))
    ctx.count("conditionals_in_live_text", p.live_conds)
    ctx.count("garbage_in_dead_text", p.dead_lines)
    ctx.count("messages_compared", len(want))
    for k in p.kinds:
        ctx.count("programs with conditionals " + k)
    ctx.distinct(hash(files["Makefile"]))
    ctx.sample({"makefile": files["Makefile"][:1500], "expected": want}, 2)
    if errs:
        ctx.violation(errs[0], replay=ctx.replay_of(r, files, ["-nologo", "-s", "-j", "1"], errors=errs, seed=seed, want=want))


def unbalanced(ctx, J, seed):
    rng = random.Random(seed)
    p = Program(rng)
    p.budget = rng.choice([4, 10, 20])
    lines = ["N_%s = %s" % (m, m) for m in MACROS] + ["all:", "\tjt id=all", ""] + p.stmts(True)
    isend = [i for i, l in enumerate(lines) if re.match(r"(?i)!\s*endif", l)]
    k = rng.choice(["drop", "extra", "else", "elseif", "open"])
    if k == "drop":
        # an !ENDIF that closes a conditional of the outermost level in live text
        if not isend:
            k = "open"
        else:
            depth, closes = 0, []
            for i, l in enumerate(lines):
                if re.match(r"(?i)!\s*if", l):
                    depth += 1
                elif re.match(r"(?i)!\s*endif", l):
                    depth -= 1
                    if depth == 0:
                        closes.append(i)
            if not closes:
                k = "open"
            else:
                del lines[closes[-1]]
    if k == "open":
        lines += [rng.choice(["!IF 1", "!IF 0", "!IFDEF NOPE", "!IF 0\n!ELSE", "!IF 1\n!ELSE", "!IF 1\n!IF 0\n!ENDIF"]), "# the end"]
    elif k == "extra":
        lines += [p.kw("ENDIF"), "MORE = 1"]
    elif k == "else":
        lines += [p.kw("ELSE"), "MORE = 1"]
    elif k == "elseif":
        lines += [rng.choice(["!ELSEIF 1", "!ELSE IF 0", "!ELSEIFDEF X", "!ELSE IFNDEF X"]), "MORE = 1"]
    if rng.random() < .3:
        lines = [l for l in lines if True] + (["late:", "\tjt id=late"] if k not in ("open", "drop") else [])
    files = dict(p.files, Makefile="\n".join(lines) + rng.choice(["\n", ""]))
    r = ctx.run(J, files, ["-nologo", "-s", "-j", "1"], "unbalanced conditionals")
    if r.bad:
        return
    errs = []
    if r.rc != 2:
        errs.append("unbalanced conditionals (%s): exit code %s" % (k, r.rc))
    if r.order():
        errs.append("unbalanced conditionals (%s): commands ran" % k)
    if not r.text_err().strip():
        errs.append("unbalanced conditionals (%s): no message" % k)
    ctx.count("unbalanced_" + k)
    ctx.distinct(hash(files["Makefile"]))
    if errs:
        ctx.violation(errs[0], replay=ctx.replay_of(r, files, [], errors=errs, seed=seed))


def body(ctx):
    ctx.rule = ("random conditional programs (nesting, all forms of ELSE, conditionals between commands, in continued lines and includes; garbage in dead branches) whose messages, macros and "
                "commands are predicted by a reference preprocessor; unbalanced variants must be errors; distinct by text")
    ctx.assume("an !ELSE after an !ELSE of the same conditional is outside the domain")
    J = ctx.jom()
    n = ctx.n(500, 8000)
    cs = [(case, ctx.rng.random()) for _ in range(n)] + [(unbalanced, ctx.rng.random()) for _ in range(n // 4)]
    ctx.rng.shuffle(cs)
    ctx.pmap(lambda c: c[0](ctx, J, c[1]), cs)


check.main("P18", body)
