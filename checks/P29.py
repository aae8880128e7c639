#!/usr/bin/env python3
import collections, os, random, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen

DIRS = ["", "", "", "sub", "Sub2", "sub/deep", "my dir", "x.d"]
CHARS = "aabbABc01_-."
ODD = "[]()+~,'@="      # special to the matchers that implementations are tempted to use
T0 = 1500000000


def matches(pat, name):
    """* any characters, ? one character, anything else itself in either case"""
    rx = "".join(".*" if c == "*" else "." if c == "?" else re.escape(c) for c in pat)
    return re.fullmatch(rx, name, re.I | re.S) is not None


def fname(r, odd, blanks):
    n = r.choice("abABc01_") + "".join(r.choice(CHARS + (ODD if odd else "") + (" " if blanks else "")) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5])))
    n = n.rstrip(". ") or "a"
    return n + r.choice(["", ".c", ".C", ".cpp", ".h", ".c.h", ".tar.gz"])


def recase(r, s):
    return "".join(c.swapcase() if r.random() < .3 else c for c in s)


def pattern(r, names):
    """derived from an existing name or made up"""
    if names and r.random() < .85:
        s = recase(r, r.choice(names)) if r.random() < .5 else r.choice(names)
        for _ in range(r.randint(1, 3)):
            i = r.randint(0, len(s))
            j = min(len(s), i + r.randint(0, 3))
            if r.random() < .6:
                s = s[:i] + "*" + s[j:]
            elif i < len(s):
                s = s[:i] + "?" + s[i + 1:]
        if "*" not in s and "?" not in s:
            s += "*"
        if s in ("*.*", "**.*", "*.**"):
            s = "*.c"
        return s
    return r.choice(["*", "*.c", "*.CPP", "?.c", "a*", "*b*", "??", "a?b*", "*.c*", "*.h", "*.nothing", "z*z", "*.?", "*_*.c", "?*"])


def case(ctx, J, seed):
    r = random.Random(seed)
    tree = {}                                   # directory -> {lower case: name}
    odd = r.random() < .3
    blanks = r.random() < .2
    files = {}
    for d in set(DIRS):
        for _ in range(r.choice([0, 2, 4, 8, 15, 60 if r.random() < .2 else 6])):
            n = fname(r, odd, blanks)
            if n.lower() not in {x.lower() for x in DIRS} and n.lower() not in tree.get(d, {}) and n.lower() not in ("makefile", "a", "nul", "con", "list", "goal", "other"):
                tree.setdefault(d, {})[n.lower()] = n
    root = r.choice(["", "", "", "", "proj"])     # where the makefile lies, and jom is run
    far = r.choice([False, False, False, True])   # the makefile is elsewhere: names still count from where jom runs
    for d, t in tree.items():
        for n in t.values():
            files[os.path.join(root, d, n)] = ("", T0)
    if root:
        # a sibling of which the name starts alike, with files that look alike
        for n in list(tree.get("", {}).values())[:5]:
            files["projection/" + n] = ("", T0)
            files["projbase/x" + n] = ("", T0)
    macros, segs, expected, literal = [], [], [], 0
    wild, multi = [], False
    for i in range(r.choice([1, 1, 1, 2, 2, 3, 5])):
        kind = r.choice(["pat", "pat", "pat", "lit"]) if i else "pat"
        d = r.choice(DIRS)
        names = list(tree.get(d, {}).values())
        absolute, prefix = False, ""
        if d:
            prefix = "".join(recase(r, c) if r.random() < .2 else c for c in d) + "/"
        q = r.random()
        if q < .08:
            prefix = "./" + prefix
        elif q < .16:
            prefix = (root + "/" if root else "") + prefix
            prefix = ("../" + prefix) if root else ("sub/../" if tree.get("sub") else "./") + prefix
        elif q < .3:
            absolute = True
        if root and q > .93:
            # the sibling directory, spelled with its absolute or relative path
            d = r.choice(["projection", "projbase"])
            prefix = "../" + d + "/"
            absolute = False
            names = [os.path.basename(f) for f in files if f.startswith(d + "/")]
            if r.random() < .6:
                absolute = "up"
                prefix = d + "/"
        if kind == "lit":
            if not names:
                continue
            s = r.choice(names)
            hit = [s]
        else:
            s = pattern(r, names)
            # directories do not lie where they could match
            if not prefix.strip("./") or d in ("sub", ""):
                if any(matches(s, x.split("/")[i]) for x in set(DIRS) | {"TMP", "cfg", "projection", "projbase", "proj"} for i in range(len(x.split("/")))) or matches(s, "makefile") or matches(s, "build.mk") or matches(s, "goal") or matches(s, "list.ev"):
                    continue
            hit = [n for n in names if matches(s, n)]
            wild.append((s, len(hit)))
        if not names and kind == "lit":
            continue
        written = prefix + s
        want = [prefix + h for h in hit]
        if absolute == "up":
            written = "$(UP)/" + written
            want = ["<UP>/" + w for w in want]
        elif absolute:
            written = "$(HERE)/" + written
            want = ["<HERE>/" + w for w in want]
        elif r.random() < .15:
            macros.append("W%d = %s" % (i, written))
            if " " in written:
                written = '"$(W%d)"' % i
                segs.append(written)
                expected += want
                continue
            written = "$(W%d)" % i
        if r.random() < .7:
            written = written.replace("/", "\\")
        if " " in written or absolute or r.random() < .1:
            written = '"%s"' % written
        segs.append(written)
        expected += want
    if not wild or not segs:
        return
    if sum(len(e) + 3 for e in expected) > 4000:
        return
    # distribute over one or several dependency lines
    k = r.randint(1, len(segs)) if r.random() < .3 else len(segs)
    colon = ":"
    cmd = ["\t@jt id=goal args $**", "\t@jt id=newer args $?", "\t@jt id=make t:goal"]
    head = ["goal%s %s" % (colon, " ".join(segs[:k]))] + cmd
    if k < len(segs):
        extra = ["goal: %s" % " ".join(segs[k:])]
        body = (extra + [""] + head) if r.random() < .3 else (head + [""] + extra)
    else:
        body = head
    # a matched file may be a target itself: its command comes first
    sub = None
    cand = [e for e in expected if not e.startswith("<") and ".." not in e and " " not in e and "./" not in e]
    if cand and r.random() < .3 and not odd:
        sub = r.choice(cand)
        body += ["", "%s: always" % recase(r, sub.replace("/", "\\")), "\t@jt id=sub", "always:"]
    text = "\n".join(macros + body) + "\n"
    mk = ("cfg/" if far else "") + r.choice(["makefile", "build.mk"])
    files[os.path.join(root, mk)] = text
    if far:
        # what lies beside the makefile does not count
        for n in ("a.c", "b.cpp", "aaa.h", "decoy.c"):
            if r.random() < .5:
                files[os.path.join(root, "cfg", n)] = ("", T0)
    d = J.newdir()
    try:
        up = os.path.join(d, "w").replace("/", "\\")
        args = ["/NOLOGO", "UP=" + up, "HERE=$(MAKEDIR)" if r.random() < .5 else "HERE=" + up + ("\\" + root if root else ""), "/F", mk.replace("/", "\\"), "goal"]
        r1 = ctx.run(J, files, args, cwd=root, d=d)
        judge(ctx, r1, files, args, expected, None, root, seed, wild, sub)
        if r1.bad or r1.rc != 0 or sub:
            return
        # second run: everything is older than goal except for some files
        touched = [f for f in files if r.random() < .2 and not f.endswith(mk)]
        touch = {f: ("", 2000000000) for f in touched}
        r2 = ctx.run(J, touch, args, cwd=root, d=d)
        exp2 = [e for e in expected if native(e, root, files) in touched]
        judge(ctx, r2, dict(files, **touch), args, expected, exp2, root, seed, wild, None)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.count("patterns", len(wild))
    ctx.count("patterns_matching_nothing", sum(1 for p, n in wild if not n))
    ctx.count("patterns_matching_several", sum(1 for p, n in wild if n > 1))
    ctx.maxi("most_matches", max(n for p, n in wild))
    ctx.count("cases_with_the_makefile_elsewhere", int(far))
    ctx.count("cases_with_odd_characters", int(odd))
    ctx.distinct(repr(sorted(wild)) + repr(len(expected)))
    ctx.sample({"dependents": segs, "stand for": expected[:20]})


def macro_case(ctx, J, seed):
    """patterns that contain file name macros of the target: each target of the block has its own matches"""
    r = random.Random(seed)
    bases = r.sample(["app", "App2", "lib", "tool_x", "b", "core1", "zz.top"], r.choice([1, 2, 2, 3]))
    targets = [b + r.choice([".exe", ".lib", ".txt"]) for b in bases]
    sub = r.choice(["", "", "src/"])
    names = set()
    for t in targets:
        for _ in range(r.choice([0, 1, 3, 6])):
            names.add(r.choice([t, t.rsplit(".", 1)[0], "x" + t, "other"]) + r.choice(["", "1", "_a", "22"]) + r.choice([".c", ".h", ".c.txt"]))
    names = sorted({n.lower(): n for n in names if n.lower() not in {t.lower() for t in targets}}.values())
    pats = []
    for _ in range(r.choice([1, 1, 2, 3])):
        stem = r.choice(["$@", "$(@B)", "$(@F)", "$*", "$(@R)"]) if r.random() < .8 else r.choice(bases)
        pats.append(stem + r.choice([x for x in ["*.c", "?.c", "*", "*.?", "??.c", "_*"] if stem + x[:1] != "$**"]) if r.random() < .8 else "*" + stem + ("?.c" if stem == "$*" else "*.c"))
    mk = "all: %s\n\n%s: %s\n\tjt id=%s args $**\n" % (" ".join(targets), " ".join(targets), " ".join(sub.replace("/", "\\") + p for p in pats), "$@")
    want = {}
    for t in targets:
        b = t.rsplit(".", 1)[0]
        want[t] = []
        for p in pats:
            for m, v in (("$(@B)", b), ("$(@R)", b), ("$(@F)", t), ("$@", t), ("$*", b)):
                p = p.replace(m, v)
            want[t] += [sub + n for n in names if matches(p, n)]
            if not sub and any(matches(p, x) for x in ("makefile", "src", "TMP")):
                return
    files = {"Makefile": mk}
    for n in names:
        files[sub + n] = ("", T0)
    files[sub + "unrelated.dat"] = ("", T0)
    args = ["/NOLOGO"]
    q = ctx.run(J, files, args, what="patterns with file name macros")
    if q.bad:
        return
    got = {e.a[0]: sorted({x.replace("\\", "/").lower() for x in e.a[3:]}) for e in q.ev if e.kind == "ARGS"}
    exp = {t: sorted({x.lower() for x in w}) for t, w in want.items()}
    ctx.count("patterns_with_file_name_macros", len(pats))
    ctx.distinct(mk + repr(names))
    if q.rc != 0 or got != exp:
        ctx.violation("seed %s: exit code %s, dependents %r instead of %r" % (seed, q.rc, got, exp), replay=ctx.replay_of(q, files, args))


def native(e, root, files):
    e = e.replace("<HERE>", "").replace("<UP>", ".." if root else "").lstrip("/")
    p = os.path.normpath(os.path.join(root, e))
    for f in files:
        if f.lower() == p.lower():
            return f
    return p


def judge(ctx, r, files, args, expected, newer, root, seed, wild, sub):
    if r.bad:
        return
    def bad(what):
        ctx.violation("seed %s: %s" % (seed, what), replay=ctx.replay_of(r, files, args))
    got = {e.a[0]: list(e.a[3:]) for e in r.ev if e.kind == "ARGS"}
    order = [e.a[0] for e in r.ev if e.kind == "S"]
    if r.rc != 0:
        return bad("exit code %s: %s" % (r.rc, r.text_err()[-300:]))
    if newer is not None and not newer and expected:
        if order:
            bad("nothing that the patterns match is newer, but %s ran" % order)
        return
    if newer is not None and not expected:
        # a target without dependents that exists is up to date
        if order:
            bad("no dependents, target exists, but %s ran" % order)
        return
    if "goal" not in got or "newer" not in got:
        return bad("the commands were not run: %s" % order)
    # relative names as written, absolute ones resolved
    def canon_want(e):
        if e.startswith("<HERE>"):
            return "<abs>" + os.path.normpath((root or "") + e[6:] if root else e[7:])
        if e.startswith("<UP>"):
            return "<abs>" + os.path.normpath(e[5:])
        return e
    for what, have, want in (("$**", got["goal"], expected), ("$?", got["newer"], newer)):
        if want is None:
            continue
        want = [canon_want(x) for x in want]
        relative = {x.lower() for x in want if not x.startswith("<abs>")}

        def identity(x):
            # relative names must come out as written, absolute ones as some name of that file
            x = x.replace("\\", "/")
            if x.lower() in relative or x.startswith("<abs>"):
                return x.lower()
            p = x if x.startswith("/") else os.path.join(r.w, root, x)
            return "<abs>" + os.path.relpath(os.path.normpath(p), r.w).lower()
        h, w = collections.Counter(map(identity, have)), collections.Counter(map(identity, want))
        both = any(identity(os.path.join(r.w, root, x)) in w for x in relative)
        if max(w.values(), default=1) > 1 or what == "$?" or both:
            h = {identity(os.path.join(r.w, root, x)) if not x.startswith("<abs>") else x for x in h}
            w = {identity(os.path.join(r.w, root, x)) if not x.startswith("<abs>") else x for x in w}
        if h != w:
            return bad("%s: patterns %s stand for %s, not for %s" % (what, [p for p, n in wild], sorted(h), sorted(w)))
    if sub and (order[:1] != ["sub"] or order.count("sub") != 1):
        bad("the target %s that a pattern matches was not built first, once: %s" % (sub, order))


def body(ctx):
    J = ctx.jom("asan")
    ctx.rule = "dependency lines with patterns (* and ? at random places of existing and other names; own, lower, upper and sibling directories; relative, absolute, quoted, from macros; several lines, literal names in between) over generated directory trees; $** and $? as the command receives them, against an independent matcher, first with a missing target, then with some newer files; patterns with the file name macros of several targets"
    ctx.pmap(lambda s: case(ctx, J, s), ["w%d/%d" % (ctx.seed, i) for i in range(ctx.n(500, 12000))])
    ctx.pmap(lambda s: macro_case(ctx, J, s), ["m%d/%d" % (ctx.seed, i) for i in range(ctx.n(250, 5000))])
    ctx.assume("directories that match a pattern, the pattern *.* (which Windows treats specially) and hidden files are left open")


check.main("P29", body)
