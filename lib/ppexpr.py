"""Reference lexer, parser and evaluator of preprocessor expressions (32-bit arithmetic), and a generator."""
import re, sys

sys.setrecursionlimit(20000)


class Bad(Exception):
    pass


def i32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v & 0x80000000 else v


OPS = ["&&", "||", "!=", "==", "<=", ">=", "<<", ">>", "&", "|", "<", ">", "+", "-", "*", "/", "%", "~", "!", "(", ")"]


def closing(s, i):
    """index behind the parenthesis that closes the one at s[i]; quotes hide parentheses"""
    depth, q = 0, False
    while i < len(s):
        c = s[i]
        if c == '"':
            q = not q
        elif not q:
            if c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
                if depth == 0:
                    return i + 1
        i += 1
    return -1


def lex(s, world):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c in " \t":
            i += 1
            continue
        if c.isdigit() and c in "0123456789":
            m = re.match(r"[0-9]+", s[i:])
            out.append(("num", int(m.group())))
            i += m.end()
            continue
        if c == '"':
            i += 1
            v = ""
            while True:
                if i >= len(s):
                    raise Bad("unterminated string")
                if s[i] == '"':
                    if s[i + 1:i + 2] == '"':
                        v += '"'
                        i += 2
                        continue
                    i += 1
                    break
                v += s[i]
                i += 1
            out.append(("str", v))
            continue
        if c == "[":
            i += 1
            v = ""
            while True:
                if i >= len(s):
                    raise Bad("unterminated command")
                if s[i] == "^" and s[i + 1:i + 2] in ("[", "]") and s[i + 1:i + 2]:
                    v += s[i + 1]
                    i += 2
                    continue
                if s[i] == "]":
                    i += 1
                    break
                v += s[i]
                i += 1
            out.append(("num", world["run"](v)))
            continue
        m = re.match(r"(defined|exist)[ \t]*", s[i:], re.I)
        if m:
            j = i + m.end()
            if s[j:j + 1] != "(":
                raise Bad("no parenthesis")
            e = s.find(")", j) + 1 if m.group(1).lower() == "defined" else closing(s, j)
            if e <= 0:
                raise Bad("unbalanced")
            arg = s[j + 1:e - 1].strip()
            if arg.startswith('"'):
                arg = arg[1:]
            if arg.endswith('"'):
                arg = arg[:-1]
            out.append(("num", int(world["defined"](arg) if m.group(1).lower() == "defined" else world["exist"](arg))))
            i = e
            continue
        for o in OPS:
            if s.startswith(o, i):
                out.append((o, o))
                i += len(o)
                break
        else:
            raise Bad("unknown character %r" % c)
    return out


LEVELS = [("==", "!=", "<", ">", "<=", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]


def evaluate(s, world):
    """value of the expression, or Bad"""
    t = lex(s, world)
    pos = [0]

    def peek(k=0):
        return t[pos[0] + k][0] if pos[0] + k < len(t) else None

    def take():
        pos[0] += 1
        return t[pos[0] - 1]

    def apply(o, a, b):
        if o == "==":
            return int(a == b)
        if o == "!=":
            return int(a != b)
        if o == "<":
            return int(a < b)
        if o == ">":
            return int(a > b)
        if o == "<=":
            return int(a <= b)
        if o == ">=":
            return int(a >= b)
        if o == "<<":
            return i32((a & 0xffffffff) << (b & 31))
        if o == ">>":
            return a >> (b & 31)
        if o == "+":
            return i32(a + b)
        if o == "-":
            return i32(a - b)
        if o == "*":
            return i32(a * b)
        if b == 0:
            raise Bad("division by zero")
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        if o == "/":
            return i32(q)
        return i32(a - q * b)

    def term0():
        v = term1()
        while peek() in ("&&", "||", "&", "|"):
            o = take()[0]
            b = term1()
            v = {"&&": lambda: int(v != 0 and b != 0), "||": lambda: int(v != 0 or b != 0),
                 "&": lambda: i32(v & b), "|": lambda: i32(v | b)}[o]()
        return v

    def term1():
        if peek() == "str":
            a = take()[1]
            if peek() not in ("==", "!="):
                raise Bad("string without comparison")
            o = take()[0]
            if peek() != "str":
                raise Bad("string compared with something else")
            b = take()[1]
            return int((a == b) == (o == "=="))
        return level(0)

    def level(k):
        if k == len(LEVELS):
            return unary()
        v = level(k + 1)
        while peek() in LEVELS[k]:
            o = take()[0]
            v = apply(o, v, level(k + 1))
        return v

    def unary():
        if peek() in ("-", "~", "!"):
            o = take()[0]
            v = primary()
            return i32(-v) if o == "-" else (~v if o == "~" else int(v == 0))
        return primary()

    def primary():
        if peek() == "num":
            return take()[1]
        if peek() == "(":
            take()
            v = term0()
            if peek() != ")":
                raise Bad("missing )")
            take()
            return v
        raise Bad("operand expected")
    v = term0()
    if pos[0] != len(t):
        raise Bad("trailing tokens")
    return v


NUMS = [0, 0, 1, 1, 2, 3, 5, 7, 8, 10, 31, 32, 33, 63, 64, 100, 255, 256, 1000, 65535, 65536, 2147483646, 2147483647]
STRS = ["", "a", "b", "A", "abc", "a b", "x(y)", "()", ")", "1", "&&", "a\"\"b", "\"\"", "==", "  ", "C:\\dir\\file", "[x]", "@", "a;b", "%PATH%", "'", "DEFINED(X)", "exist(", "!", "\tq"]


class Gen:
    def __init__(self, rng, atoms):
        self.r, self.atoms = rng, atoms         # atoms: strings for DEFINED/EXIST/[cmd]

    def ws(self):
        return self.r.choice(["", "", " ", " ", " ", "  ", "\t"])

    def num(self):
        r = self.r
        if r.random() < .75:
            s = str(r.choice(NUMS))
        else:
            s = str(r.randint(0, 2147483647) >> r.randint(0, 30))
        if r.random() < .04:
            s = "0" * r.randint(1, 3) + s
        return s

    def primary(self, d):
        r = self.r
        x = r.random()
        if d <= 0 or x < .45:
            if self.atoms and r.random() < .25:
                a = r.choice(self.atoms)
                return a(r) if callable(a) else a
            return self.num()
        return "(" + self.ws() + self.term0(d - 1) + self.ws() + ")"

    def unary(self, d):
        if self.r.random() < .2:
            return self.r.choice("-~!") + self.ws() + self.primary(d)
        return self.primary(d)

    def level(self, k, d):
        if k == len(LEVELS):
            return self.unary(d)
        s = self.level(k + 1, d)
        while self.r.random() < (.22 if d > 0 else .08):
            s += self.ws() + self.r.choice(LEVELS[k]) + self.ws() + self.level(k + 1, d)
        return s

    def string(self):
        r = self.r
        if r.random() < .6:
            return '"' + r.choice(STRS) + '"'
        return '"' + "".join(r.choice("abAB \t()<>=!&|[]0123456789.;:,\\/*~%@'") for _ in range(r.randint(0, 12))) + '"'

    def term1(self, d):
        if self.r.random() < .2:
            a = self.string()
            b = a if self.r.random() < .4 else self.string()
            return a + self.ws() + self.r.choice(["==", "!="]) + self.ws() + b
        return self.level(0, d)

    def term0(self, d):
        s = self.term1(d)
        while self.r.random() < (.3 if d > 0 else .1):
            s += self.ws() + self.r.choice(["&&", "||", "&", "|", "&&", "||"]) + self.ws() + self.term1(d)
        return s

    def expr(self):
        d = self.r.choice([0, 1, 1, 2, 2, 3, 4])
        s = self.term0(d)
        return s if len(s) < 1500 else self.expr()

    def deep(self):
        n = self.r.choice([20, 60, 100, 127, 128, 129, 200, 300])
        k = self.r.randint(0, 3)
        if k == 0:
            return "(" * n + self.num() + ")" * n
        if k == 1:
            return "".join("(%s%s" % (self.num(), self.r.choice(["+", "-", "*", "|", "&", "=="])) for _ in range(n)) + "1" + ")" * n
        if k == 2:
            return self.r.choice(["+", "-", "&&", "||", "*", "<<", "=="]).join(self.num() for _ in range(n))
        return "".join(self.r.choice(["-(", "~(", "!("]) for _ in range(n)) + self.num() + ")" * n

    def mutate(self, s):
        """probably ill-formed"""
        r = self.r
        k = r.randint(0, 9)
        i = r.randint(0, len(s))
        tok = ["(", ")", "&&", "==", "1", "\"a\"", "!", "-", "<", "*", "%", "[", "]", "DEFINED", "EXIST", "DEFINED(", "EXIST(", "DEFINED()", "=", "?", "@", "x", ",", ".", "{", "'", "\"", "^", "abc", ";", "0x1", ":"]
        if k <= 3:
            return s[:i] + " " + r.choice(tok) + " " + s[i:]
        if k <= 6:
            j = min(len(s), i + r.randint(1, 3))
            return s[:i] + s[j:]
        if k == 7:
            return s + r.choice(["", " ", "+", "&&", ")", "(", "==", " 1", "!", "\"", "-", "[", " x", " ?"])
        if k == 8:
            return r.choice(["+", "&&", ")", "(", "==", "*", "1 ", "/", "<", "\"", "\"a\"", "==\"a\"", "x", "?"]) + s
        return " ".join(r.choice(tok + OPS + ["0", "1", "7", "\"a\""]) for _ in range(r.randint(1, 7)))
