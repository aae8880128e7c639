#!/usr/bin/env python3
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check
from layout import L, LATIN, base, encode, render_at

DIRS = ["", "sub", "sub/deep", "other", "my dir", "inc1", "inc2", "inc2/x"]
INCPATH = ["inc1", "inc2", "my dir"]


def observe(r):
    ev = [(e.kind, tuple(e.a[1:]) if e.kind != "S" else (e.a[0], e.a[2])) for e in r.ev if e.kind in ("S", "E", "CAT", "CMD", "NOTFOUND")]
    return {"exit code": r.rc, "commands": [x[1] for x in ev if x[0] == "S"], "other": [x for x in ev if x[0] not in ("S", "E")], "stdout": r.text_out().splitlines(), "stderr": re.sub(r" in \S*([/\\])(\S+) line \d+", "", r.text_err())}


def join(*p):
    return os.path.normpath(os.path.join(*[x for x in p if x] or ["."]))


def lookup(files, name, stack, angle, absolute):
    """the file that a name stands for: working directory, directories of the including files from the innermost on, INCLUDE path"""
    cand = [name] + [join(d, name) for d in reversed(stack)] + ([join(d, name) for d in INCPATH] if angle else [])
    for c in cand:
        c = join(c)
        if c in files:
            return c
    return None


def balanced(groups):
    d = 0
    for kind, ls in groups:
        m = re.match(r"!\s*(\w+)", ls[0]) if ls else None
        w = m.group(1).upper() if m else ""
        if w.startswith("IF"):
            d += 1
        elif w == "ENDIF":
            d -= 1
        if d < 0 or (d == 0 and w.startswith("ELSE")):
            return False
    return d == 0


class Split:
    def __init__(self, r, crlf):
        self.r, self.files, self.n, self.depth, self.how, self.crlf = r, {}, 0, 0, [], crlf

    def enc(self, text, main=False):
        r = self.r
        return encode(text, r.choice(["8bit", "8bit", "8bit", "utf8", "utf16"]), self.crlf, not text.endswith("\n\n") and text != "\n" and not main and r.random() < .2)

    def place(self, lines, stack, plain):
        """put the lines into a file and return the directive that includes it"""
        r = self.r
        self.n += 1
        n = self.n
        want = "%s%d%s" % (r.choice(["part", "p q", "X"]), n, r.choice([".mk", ".inc", "", ".x.y"]))
        d = r.choice(DIRS)
        angle = False
        how = r.choice(["cwd", "beside", "outer", "incpath", "absolute", "dots"])
        if how == "cwd":
            name, path = join(d, want), join(d, want)
        elif how == "beside":
            name = join(d, want)
            path = join(stack[-1], name)
        elif how == "outer":
            name = join(d, want)
            path = join(r.choice(stack), name)
        elif how == "incpath":
            angle = True
            name = want
            path = join(r.choice(INCPATH), want)
        elif how == "dots":
            d = d or "sub"
            path = join(d, want)
            name = r.choice(["./" + path, join(d) + "/" + "../" * len(join(d).split("/")) + path, ".//" + path])
        else:
            path = join(d, want)
            name = "$(ROOTDIR)/" + path
        if how != "dots" and r.random() < .2 and how != "absolute":
            angle = True
        key = path
        if key in self.files:
            return None
        self.files[key] = b""
        self.later.append((how, name, list(stack), angle, key))
        # decoys in all the places that come later
        self.how.append(how + ("<>" if angle else ""))
        self.depth = max(self.depth, len(stack))
        body = self.cut(lines, stack + [os.path.dirname(path)], plain)
        self.files[key] = self.enc("\n".join(body) + ("\n" if body else ""))
        blanks = " " in name
        spell = ("<%s>" % name) if angle else (('"%s"' % name) if blanks or r.random() < .3 else name)
        if r.random() < .2:
            self.defs.append("INCNAME%d = %s" % (n, spell))
            spell = "$(INCNAME%d)" % n
        if plain and r.random() < .2:
            return r.choice(["include ", "Include ", "INCLUDE\t"]) + spell
        return r.choice(["!INCLUDE ", "!include ", "! Include ", "!\tINCLUDE\t"]) + spell + r.choice(["", "", "  ", " # comment" if plain else ""])

    def cut(self, groups, stack, plain):
        """groups: lists of physical lines, one per logical line, with the kind"""
        r, out, i = self.r, [], 0
        while i < len(groups):
            if r.random() < .3 and len(stack) < 7:
                j = min(len(groups), i + r.randint(1, 6) if r.random() < .9 else i)
                cut = groups[i:j]
                if not balanced(cut):
                    out += groups[i][1]
                    i += 1
                    continue
                # old style directives only where a new block may begin
                first_dep = groups[i][0] in ("macro", "dir", "cond", "dep", "dot", "rule")
                d = self.place(cut, stack, first_dep)
                if d:
                    out.append(d)
                    i = j
                    continue
            out += groups[i][1]
            i += 1
        return out

    def run(self, text, at):
        lines = text.split("\n")[:-1]
        groups, prev = [], 0
        for kind, (a, b) in at:
            groups += [("raw", [l]) for l in lines[prev:a - 1]] + [(kind, lines[a - 1:b])]
            prev = b
        self.later, self.defs = [], []
        main = self.cut(groups, [""], True)
        main = self.r.choice([["INCLUDE = %s" % ";".join(INCPATH)], ["IROOT = inc", "INCLUDE = $(IROOT)1;$(IROOT)2;$(INONE)my dir"], ["INCLUDE = $(IALL)", "IALL = %s" % ";".join(INCPATH)],
                              ["INCLUDE = inc1;.\\inc2\\;;my dir;"],
                              ["INCLUDE = nowhere;inc1;nowhere\\inc2;inc2;Makefile;$(INONE);my dir"]]) + self.defs + main
        # decoys: places that are searched after the right one
        for how, name, stack, angle, key in self.later:
            if self.r.random() < .5 and how not in ("absolute", "dots"):
                cand = [name] + [join(d, name) for d in reversed(stack)] + [join(d, name) for d in INCPATH]
                cand = [join(c) for c in cand]
                later = [c for c in cand[cand.index(key) + 1:] if c not in cand[:cand.index(key)]]
                # the name must be unambiguous for every other directive, too: names are unique
                for c in later:
                    if c != key and c not in self.files and not self.inside(c):
                        self.files[c] = b"!ERROR the wrong file was included\n"
                        self.decoys = True
        return main

    def inside(self, c):
        # not where an earlier directory of the search for it lies
        return any(k.startswith(c + "/") for k in self.files)


def case(ctx, J, seed):
    r = random.Random(seed)
    lines, srcs = base(r, r.choice([[], [], LATIN]))
    if r.random() < .3:
        lines[0:0] = [L("raw", "!IF 0"), L("raw", "!INCLUDE nosuch.mk"), L("raw", "include nosuch.mk"), L("raw", "!ENDIF")]
    text, at = render_at(lines, random.Random(r.getrandbits(40)) if r.random() < .6 else None)
    s = Split(r, r.random() < .3)
    s.decoys = False
    kinds = [(l.kind, p) for l, p in zip(lines, at)]
    main = s.run(text, kinds)
    if not s.files:
        return
    flat = "\n".join(["INCLUDE = %s" % ";".join(INCPATH)] + s.defs) + "\n" + text
    srcf = dict((x[:-3] + ".aa", "x") for x in srcs)
    args = ["/nologo", "/J1", "ROOTDIR=."]
    f1 = dict(srcf, Makefile=encode(flat, "8bit", False, False))
    f2 = dict(srcf, Makefile=s.enc("\n".join(main) + "\n", True), **s.files)
    for d in DIRS[1:]:
        f1[d + "/keep"] = f2[d + "/keep"] = ""
    x1 = ctx.run(J, f1, args + ["T0"], what="include flat")
    x2 = ctx.run(J, f2, args + ["T0"], what="include split")
    if x1.bad or x2.bad:
        return
    o1, o2 = observe(x1), observe(x2)
    ctx.count("files_included", len(s.how))
    for h in s.how:
        ctx.count("found_by_" + h)
    if s.decoys:
        ctx.count("runs_with_decoys")
    ctx.maxi("deepest_nesting", s.depth)
    ctx.count("commands_run", len(o1["commands"]))
    ctx.count("successful_builds" if x1.rc == 0 else "failing_builds")
    ctx.distinct(" ".join(s.how) + str(hash(text)))
    for k in o1:
        if o1[k] != o2[k]:
            ctx.violation("include: %s differs from that of the flat makefile: %r instead of %r" % (k, str(o2[k])[:200], str(o1[k])[:200]),
                          replay=ctx.replay_of(x2, {k: v for k, v in f2.items()}, args, flat=flat, split="\n".join(main), how=s.how))
            return
    ctx.sample({"makefile": "\n".join(main)[:600], "files": sorted(s.files), "found by": s.how})


def failing(ctx, J, seed):
    """missing files and cycles"""
    r = random.Random(seed)
    kind = r.choice(["missing", "cycle", "cycle"])
    depth = r.randint(0, 5)
    dirs = [""] + [r.choice(["", "sub", "sub/deep", "other"]) for _ in range(depth)]
    paths = ["Makefile"] + [join(dirs[i], "f%d.mk" % i) for i in range(1, depth + 1)]
    files = {}
    inline = r.random() < .15
    style = lambda n: r.choice(['!INCLUDE %s', '!include "%s"', 'include %s', '! INCLUDE <%s>']) % n
    if kind == "missing":
        bad = r.choice(["nosuch.mk", "sub/nosuch.mk", "no such.mk", "f9.mk"])
        last, named = style(bad), bad
    else:
        t = paths[r.randint(0, depth)]
        spell = t
        if r.random() < .4:
            spell = r.choice(["./" + t, "sub/../" + t, "$(CURD)/" + t])
        last, named = style(spell), os.path.basename(t)
    if kind == "missing" and "include " in last and last[0] == "i" and " " in named:
        pass
    for i, p in enumerate(paths):
        t = ["# %d" % i, "M%d = 1" % i]
        if i == 0:
            t += ["CURD = .", "INCLUDE = inc1;inc2", "all:", "\tjt id=all", ""]
        nxt = style(paths[i + 1]) if i < depth else last
        t += ["tgt%d:" % i, "\tjt id=no%d" % i] * r.randint(0, 1)
        t += [nxt] + ["after%d:" % i, "\tjt id=after%d" % i]
        files[p] = "\n".join(t) + "\n"
    files["sub/keep"] = files["inc1/keep"] = ""
    if kind == "missing":
        # files of that name in places that are not searched
        places = ["elsewhere", "inc3"] + (["inc1", "inc2"] if "<" not in last else [])
        for d in r.sample(places, r.randint(0, len(places))):
            files.setdefault("%s/%s" % (d, bad), "WRONG = 1\n")
    x = ctx.run(J, files, ["/nologo"], what="include error")
    if x.bad:
        return
    ctx.count("errors_" + kind)
    ctx.distinct("%s %d %s" % (kind, depth, last))
    t = x.text_err() + x.text_out()
    if x.rc != 2 or x.starts():
        ctx.violation("include %s (%r): exit code %s, commands run %s" % (kind, last, x.rc, x.order()[:3]), replay=ctx.replay_of(x, files, []))
    elif named not in t:
        ctx.violation("include %s (%r): the message does not name the file: %r" % (kind, last, t[:200]), replay=ctx.replay_of(x, files, []))


def body(ctx):
    ctx.rule = "a makefile run flat and split into included files (random nesting, directories, spellings, decoys in places searched later), or one with a missing file or a cycle; distinct by text and split"
    J = ctx.jom()
    ctx.pmap(lambda s: case(ctx, J, s), [ctx.rng.getrandbits(48) for _ in range(ctx.n(550, 20000))])
    ctx.pmap(lambda s: failing(ctx, J, s), [ctx.rng.getrandbits(48) for _ in range(ctx.n(250, 5000))])
    ctx.assume("a continued line is not split over two files")
    ctx.assume("file names with / (the native file system of the sandbox)")


check.main("P23", body)
