"""Inputs nobody would write: fragments of the makefile language, put together, broken and mutated."""
import random

FRAG = [
    "all: a.obj b.obj\n\tjt id=all $** $? $@\n", "aa: bb\n\t!jt $**\nbb:\n", "X=$(Y:.c=.obj)\nY=a.c b.c\nall: $(X)\n", ".c.obj:\n\tjt $< $@ $*\n", ".c.obj::\n\tjt $<\n",
    "{src}.c{obj}.obj::\n\tjt $(<F) <<\n$<\n<<\n", ".SUFFIXES:\n", ".SUFFIXES: .x .y .c .obj\n", ".SILENT:\n.IGNORE:\n.PRECIOUS: aa\n", ".SYNC: aa\n", ".NOTPARALLEL:\n", ".SYNC\n",
    "t1:\n\tjt <<\nline one\n<<\n", "t2:\n\tjt <<f.rsp <<\"g h.rsp\"\n1\n<<KEEP\n2\n<<NOKEEP UNICODE\n", "t3: inc.mak ; jt id=3\n\tjt id=4\n", "t4 t5 : t6\n", "t6:: t7\n\tjt\nt6:: t8\n\tjt\nt7:\nt8:\n",
    "!IF 1+2*3 == 7 && defined(X) || !DEFINED(Y)\nt: ; jt\n!ELSEIF \"a\" != \"$(B)\"\n!ELSE\n!ENDIF\n", "!IFDEF X\n!ELSEIFNDEF Y\n!ENDIF\n", "!IF EXIST(inc.mak) && EXIST(\"a b\")\n!MESSAGE yes\n!ENDIF\n",
    "!INCLUDE inc.mak\n", "!INCLUDE <inc.mak>\n", "include inc.mak\n", "!IF [jt x] == 0\n!ENDIF\n", "!ERROR stop\n", "!UNDEF X\n", "!CMDSWITCHES +S\n", "!MESSAGE $(X) $(UNDEF)\n",
    "!IF (1 << 70) + (-2147483647 - 2) / -1 % 0\n!ENDIF\n", "!IF 1 / 0\n!ENDIF\n", "!IF 99999999999999999999 > 0x7fffffff\n!ENDIF\n", "!IF ~-!~0\n!ENDIF\n", "!IF ((((1))))\n!ENDIF\n",
    "A = \\\n\t1 \\\n\t2\n", "A = ^$(B) ^# ^\\\n", "A=$(A) x\n", "A = $(B)\nB = $(A)\nt: $(A)\n", "P=$$@ $$(@D) $$(@F)\n", "d1 d2: $$@.c $$(@B).h\n", "w: *.c {a;b}z.h\n", "q: \"a b.c\" 'x'\n\tjt $(**B) $(?F) $(<D) $(*R)\n",
    "t9:\n\t-5@!jt $$ %% ^^ $(@D)\n", "t10:\n\tcd sub\n\tset A=B\n\tcd\n\trem x\n\t:lab\n", "$(X): $(Y) ; $(Z)\n", "a\\\nb: c\\\n d\n\tjt\\\n x\n", "t11: t11\n", "u1: u2\nu2: u3\nu3: u1\n", "# comment\n", "t12: # comment\n\tjt # no comment\n",
    "\ufeffX=1\n", "X=$(CC) $(MAKE) $(MAKEDIR) $(MAKEFLAGS)\n", "t13:\n\t$(MAKE) /$(MAKEFLAGS)\n", "m: $(**)\n", "m2: ; $(@ $($( $() $(X:=) $(X:a) $(X:a=b=c) $(*:a=b)\n", "\t\n", " \n", "=\n", ":\n", "::\n", "x=\n", "<<\n", "$\n", "\\\n", "^\n", "{\n", "}.c.obj:\n", "{a.c{b}.obj:\n",
    "t14:\n\tjt $*\ufeff@ \ufeff \ufeff( \ufeff*\n", "\ufeff@: \ufeff<\n", "t15: \ufeff\n\tjt \ufeff\n", "t16: ^\n", "t17: $@ $$@@ $$(@\n", "t18:\n\tjt <<\"\n<<\n", "t19:\n\t<<\n", "n: $(X:\\=/) $(X:$(Y)=$(Z))\n", "n2:\n\tjt $(@:a=b) $(**:.c=.obj) $(<:x=y)\n",
]
DICT = ["$(", "$$", "$@", "$*", "$**", "$?", "$<", "$(@D)", "$(*F)", "$(?B)", "$(<R)", "$(**F)", "<<", "\n<<", "KEEP", "NOKEEP", "!IF ", "!ENDIF\n", "!ELSE", "!IFDEF ", "!IFNDEF ", "!INCLUDE ", "!UNDEF ", "!ERROR", "!MESSAGE ", "EXIST(", "DEFINED(", "&&", "||", "==", "!=",
        "<=", ">=", "<<", ">>", "0x", "017", ".SUFFIXES:", ".SILENT:", ".IGNORE:", ".PRECIOUS:", ".SYNC", ".NOTPARALLEL", "::", ":\n\t", "\\\n", "^\n", "\n\t", "\r\n", "{a}.c{b}.o", ".c.obj", "\"", "^", "%%", "%|dpfF", "%|@", "#", ";", "=", "\xef\xbb\xbf", "\xff\xfe", "\x1a", "\x00", "[", "]", "inc.mak",
        "Makefile", "/A", "/N", "/P", "/K", "/R", "/Y", "/D", "/F", "/DUMPGRAPH", "X=1", "@cmd.rsp", "all"]
ARGS = ["/A", "/B", "/C", "/D", "/E", "/F", "/F\ninc.mak", "/f-", "-f\nMakefile", "/G", "/H", "/?", "/I", "/J", "/J\n3", "/j0", "/j99", "-j4x", "/K", "/L", "/N", "/NOLOGO", "/P", "/Q", "/R", "/S", "/T", "/U", "/Y", "/W", "/VERSION", "/DEBUG", "/DUMPGRAPH",
        "/DUMPGRAPHDOT", "/ERRORREPORT", "/ERRORREPORT:NONE", "/NOLOGO/K", "/AKNPRY", "-", "/", "--", "=", "X=", "X=1", "=1", "A B=1", "$(X)=1", "X=$(Y)", "X=$", "X", "all", "aa", "t1", "a.obj", "\"", "\"a b\"", "@cmd.rsp", "@", "@nosuch", "@Makefile", "\\", "", " ", "/ ", "/j\n-1", "/j\n4294967296", "/j\n0x10", "\u00e4=1", "\ufeff", "$@",
        "*", "inc.mak", "/f\n", "/f\nnosuch", "/nologo /k", "/J\nJ", "MAKEFLAGS=A", "MAKE=x", "CC=", "/zzz", "/NNOLOGO"]
ENV = ["X=1", "Y=a.c b.c", "A=$(B)", "B=$(A)", "C=$", "D=$(", "E=$(X:a=b)", "CC=x", "MAKEFLAGS=K", "MAKEFLAGS=", "MAKEFLAGS=/K", "MAKEFLAGS=-", "JOMFLAGS=J", "JOMFLAGS=ZZ", "JOMFLAGS=NP", "INCLUDE=;;a;b c;", "PATH=", "lower=1", "a b=c", "==", "F=$@ $*", "G=\ufeff@", "MAKEFLAGS=J99", "_JOMJOBCOUNT_=x", "_JOMSRVKEY_=no", "TMP=", "TMP=nosuch"]
FILES = ["a.c", "b.c", "src/a.c", "x.y", "a b.c", "aa"]


# fragments that are errors on their own, which end the run early
BROKEN = [f for f in FRAG if f.startswith((".SYNC\n", "!IF 1+2", "!ERROR", "!IF (1 <<", "!IF 1 / 0", "!IF 9999", "!IF ~-", "A = $(B)", "w: *", "q: ", "a\\", "m: ", "m2: ", "=", "<<", "$\n", "{\n", "t19", "n: ", ":\n", "::\n"))]
FINE = [f for f in FRAG if f not in BROKEN]


def web(r):
    """macros that are defined by each other, in circles or not, invoked in every way"""
    names = r.sample(["A", "B", "C", "d"] if r.random() < .4 else ["A", "B", "C", "d", "E9", "Nn", "N_n", "CC"], r.choice([1, 2, 2, 3, 4]))

    def ref():
        n = r.choice(names)
        one = ["$" + n, "$" + n] if len(n) == 1 else []
        return r.choice(one + ["$(%s)" % n, "$(%s)" % n, "$(%s:a=b)" % n, "$(%s:x=$(%s))" % (n, r.choice(names)), "$$(%s)" % n])
    ls = ["%s=%s" % (n, r.choice(["", "a", "a "]) + r.choice(["", "", " ", "x"]).join(ref() for _ in range(r.choice([0, 1, 1, 1, 2])))) for n in names]
    r.shuffle(ls)
    use = ref()
    ls.insert(r.randrange(len(ls) + 1), r.choice(["web: %s\n\tjt", "web:\n\tjt %s", "!IF \"%s\" == \"\"\n!ENDIF", "!MESSAGE %s", "!INCLUDE %s", "%s: ; jt", "W = %s\nweb: $(W)", "{%s}.c.obj:\n\tjt $<", ".SUFFIXES: %s"]) % use)
    return "\n".join(ls) + "\n"


def makefile(r):
    if r.random() < .12:
        return web(r) + (r.choice(FINE) if r.random() < .5 else "")
    p = r.choice([0, 0, .1, .3])
    return "".join(r.choice(BROKEN if r.random() < p else FINE) for _ in range(r.choice([1, 2, 3, 5, 8, 14])))


def mutate(r, b, n=None):
    b = bytearray(b)
    for _ in range(n if n is not None else r.choice([0, 0, 0, 0, 1, 1, 2, 4, 10])):
        k, i = r.random(), r.randrange(len(b) + 1)
        if k < .25 and b:
            del b[i:i + r.choice([1, 1, 1, 2, 5, 20])]
        elif k < .6:
            b[i:i] = r.choice(DICT).encode("latin-1" if r.random() < .9 else "utf-8")
        elif k < .7:
            b[i:i] = bytes([r.choice([0, 9, 10, 13, 26, 32, 34, 36, 40, 58, 60, 92, 94, 127, 128, 255, r.randrange(256)])])
        elif k < .8 and b:
            b[i % len(b)] = r.randrange(256)
        elif k < .9:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[j:j + r.choice([3, 20, 100])]
        else:
            b[i:i] = r.choice([b"(", b")", b"$(", b"\\", b"!", b"x", b"\n", b"$"]) * r.choice([2, 10, 60, 300])
    return bytes(b)


def some(r, pool, p):
    return [r.choice(pool) for _ in range(r.choice([0, 0, 1, 2, 4]))] if r.random() < p else []


def packed(r):
    """one input for the in-process target"""
    mk = mutate(r, makefile(r).encode())
    inc = mutate(r, makefile(r).encode()) if r.random() < .4 else b""
    a = "\n".join(some(r, ARGS, .5)).encode()
    e = "\n".join(some(r, ENV, .5)).encode()
    c = mutate(r, " ".join(x.replace("\n", " ") for x in some(r, ARGS, .4)).encode())
    return b"\x1e".join(x.replace(b"\x1e", b"") for x in (mk, inc, a, e, c))


def dictionary():
    out = []
    for d in DICT:
        out.append('"%s"' % "".join("\\x%02x" % c for c in d.encode("latin-1")))
    return "\n".join(out) + "\n"
