#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work

EDGE = [0, 1, 2, 3, 4, 5, 127, 128, 255, 256, 257, 258, 259, 260, 512, 1000, 9009, 0xf290, 0xf291, 0xf292, 32767, 32768, 65535, 65536, 65537, 1 << 24, 0x103 << 16,
        0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xC0000005, 0xC000013A, 0xfffffffe, 0xffffffff]
MAXES = [0, 1, 2, 3, 5, 127, 255, 256, 259, 1000, 0xf291, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]


def pick_code(rng):
    r = rng.random()
    if r < .6:
        return rng.choice(EDGE)
    if r < .8:
        return rng.randint(0, 300)
    return rng.randint(0, 2**32 - 1)


def effective(code):
    """the value jom judges: abnormal ends count as 2"""
    return 2 if code >= 0x80000000 or code == 0xf291 else code


FORMS = {"plain": "%s", "and": "echo . > NUL && %s", "redir": "%s > NUL", "if": "if not exist nosuchfile %s", "call": "call %s", "pipe": "echo . | %s",
         "cmd": "cmd /c %s", "seq": "jt x:7 & %s", "quoted": "\"jt\" %s"}


def make_prefix(rng, code):
    """(text, tolerated maximum or None for the default)"""
    r = rng.random()
    at = rng.choice(["", "", "@", "@@"])
    at2 = rng.choice(["", "", "@"])
    if r < .3:
        return at, None
    if r < .5:
        return at + "-" * rng.choice([1, 1, 1, 2, 5]) + at2, 2**32 - 1
    m = rng.choice([effective(code), max(0, effective(code) - 1), min(effective(code) + 1, 2**32 - 1), rng.choice(MAXES), rng.randint(0, 300)])
    return at + "-" * rng.choice([1, 1, 1, 3]) + "%d" % m + rng.choice([" ", at2 or " ", ""] if not at2 else [at2]), m


def case(ctx, J, seed):
    rng = random.Random(seed)
    mode = rng.choice(["k", "k", "k", "I", "ignore", "envI", "one", "one"])
    n = 1 if mode == "one" else rng.randint(3, 10)
    noshell = rng.random() < .12          # no shell either: commands that need it cannot be started
    shape = rng.random()
    ignore_at = rng.randint(0, n) if mode == "ignore" else None
    mk, expect, failing = "", {}, []
    names = ["t%d" % i for i in range(n)]
    mk += "IG = -\nIG7 = -7\nDO = jt\nall: %s\n" % " ".join(names) + ("\n" if rng.random() < .5 else "\tjt id=all\n")
    has_all = "id=all" in mk
    infer = set(i for i in range(n) if rng.random() < .15)
    files = {}
    body = ""
    for i, t in enumerate(names):
        code = pick_code(rng)
        crash = rng.random() < .07
        base = None
        if mode in ("I", "envI") or (ignore_at is not None and i >= ignore_at):
            base = 2**32 - 1
        pre, mx = make_prefix(rng, code)
        if rng.random() < .1:
            pre, mx = rng.choice([("$(IG)", 2**32 - 1), ("$(IG7) ", 7), ("@$(IG)", 2**32 - 1), ("$(IG)12 ", 12)])
        form = rng.choice(["plain", "plain"] + sorted(FORMS))
        if crash:
            form = rng.choice(["plain", "redir"])
        if form == "quoted":
            cmd = '"jt" id=%s.a x:%d' % (t, code)
        else:
            cmd = FORMS[form] % ("jt id=%s.a %s" % (t, "crash" if crash else "x:%d" % code))
        what = "x:%d" % code
        if rng.random() < .06 and form != "quoted" and not crash:
            # a program that does not exist: some failure code, never success
            cmd = rng.choice(["nosuchprogram_%d a b" % i, "nosuchprogram_%d a b > NUL" % i])
            mx = rng.choice([None, 2**32 - 1])
            pre = "" if mx is None else "-"
            code, what = 9009, "no such program"
            form = "missing"
        unstarted = noshell and (form in ("and", "redir", "if", "call", "pipe", "seq", "missing"))
        if unstarted:
            code, what, crash = 2, "cannot be started", False
            ctx.count("commands_that_cannot_be_started")
        eff = 2 if crash else effective(code)
        tol = mx if mx is not None else (base if base is not None else 0)
        fails = eff > tol
        if ignore_at == i:
            body += rng.choice([".IGNORE:\n", ".IGNORE :\n"])
        lead, repeat = "", 1
        for k in range(rng.choice([0, 0, 0, 1, 2, 3, 4])):
            if rng.random() < .3:
                lead += "\t%s\n" % rng.choice(["rem nothing", ": nothing", "set X=%d" % k])
            else:
                lead += "\t%sjt id=%s.p%d\n" % (rng.choice(["", "-", "@", "-3 "]), t, k)
                expect["%s.p%d" % (t, k)] = 1
        if i not in infer and form not in ("missing", "quoted") and rng.random() < .12:
            # once for each dependent: every time with the same tolerance
            k = rng.randint(1, 3)
            bang = pre.rstrip(" ")
            pos = rng.choice([x for x in range(len(bang) + 1) if x in (0, len(bang)) or not bang[x].isdigit()])
            if "$" in bang:
                pos = len(bang)
            pre = bang[:pos] + "!" + bang[pos:] + pre[len(bang):]
            if pos == len(bang) and pre.endswith("!") and rng.random() < .3:
                pre += rng.choice([" ", "@"])
            body += "%s: %s\n%s\t%s%s\n\tjt id=%s.b\n" % (t, " ".join("e%d_%d" % (i, q) for q in range(k)), lead, pre, cmd, t)
            body += "".join("e%d_%d:\n" % (i, q) for q in range(k))
            repeat = k
            ctx.count("commands_repeated_for_each_dependent")
        elif i in infer and form not in ("missing",):
            # the same command as part of an inference rule with its own suffix
            body += ".SUFFIXES: .s%d\n.s%d.r%d:\n%s\t%s%s\n\tjt id=%s.b\n%s.r%d:\nf%d: %s.r%d\n" % (i, i, i, lead, pre, cmd, t, t, i, i, t, i)
            body += "%s: %s.r%d\n" % (t, t, i)
            files["%s.s%d" % (t, i)] = "x"
        else:
            body += "%s:\n%s\t%s%s\n\t%sjt id=%s.b\n" % (t, lead, pre, cmd, rng.choice(["", "@"]), t)
        if form != "missing" and not unstarted:
            expect[t + ".a"] = 1 if fails else repeat
        expect[t + ".b"] = 0 if fails else 1
        if fails:
            failing.append((t, eff, tol, form, what))
        ctx.distinct((eff if eff < 300 or eff in EDGE else "big", "max" if tol == 2**32 - 1 else ("=" if eff == tol else "<" if eff < tol else "+1" if eff == tol + 1 else ">"),
                      form, mode, fails))
        ctx.count("commands_judged")
    if has_all:
        expect["all"] = 0 if failing else 1
    files["Makefile"] = mk + body
    args = ["-nologo", "-s", "-j", str(rng.choice([1, 1, 2, 4, 16]))]
    env = None
    if mode == "k" or mode == "ignore":
        args.append("-k")
    elif mode == "I":
        args.append("-i")
        if rng.random() < .3:
            args.append("-k")          # /I wins
    elif mode == "envI":
        env = {"MAKEFLAGS": "I"}
    if noshell:
        env = dict(env or {}, ComSpec=rng.choice(["nosuchshell", "no\\such\\dir\\cmd.exe"]))
    r = ctx.run(J, files, args, "exit code build", env=env)
    if r.bad:
        return
    h = gen.history(r)
    errs = []
    stop_at_first = mode in ("one", "I", "envI")
    for cid, k in expect.items():
        got = len(h.get(cid, []))
        if got != k:
            # without /K a failure elsewhere legitimately keeps targets from being started
            if got == 0 and failing and stop_at_first and mode != "one":
                continue
            errs.append("%s ran %d times, expected %d" % (cid, got, k))
    want = 0 if not failing else (1 if mode in ("k", "ignore") else 2)
    if r.rc != want:
        errs.append("exit code %s, expected %d" % (r.rc, want))
    err = r.text_err()
    for t, eff, tol, form, what in failing:
        if (t + ".a" in h or form == "missing") and "Error" not in err:
            errs.append("failure of %s is not reported on standard error" % t)
    ctx.sample({"makefile": files["Makefile"], "args": args, "failing": failing, "rc": r.rc}, 3)
    if errs:
        ctx.violation("%s; failing by the model: %s (%s)" % ("; ".join(errs[:3]), failing, " ".join(args)),
                      replay=ctx.replay_of(r, files, args, errors=errs, failing=failing, seed=seed))


def body(ctx):
    ctx.rule = ("commands with boundary and random 32-bit exit codes under every prefix form, .IGNORE, /I, run directly, by the shell and from inference rules; whether the "
                "next command runs and jom's exit code are compared with the rule effective code > tolerated maximum; distinct by (code class, relation to maximum, form, mode)")
    J = ctx.jom()
    ctx.pmap(lambda s: case(ctx, J, s), [ctx.rng.random() for _ in range(ctx.n(500, 8000))])


check.main("P07", body)
