#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work

TREE = ["aa", "aa/bb", "aa/bb/cc", "aa/with space", "dd", "dd/aa", "dd/ee.x", "with space", "with space/bb", "Upper"]
FILES = ["file.txt", "aa/file.txt", "dd/aa/file.txt"]


def norm(cwd, rel):
    p = os.path.normpath("/" + ("" if rel.startswith("/") else cwd) + "/" + rel)
    return "" if p == "/" else p.strip("/")


def one_target(rng, t, s, vars_shared):
    """commands of one target with what each jt must see; model of cd and of the private variable"""
    lines, exp, printed = [], [], []
    cwd, val, dead = "", None, False
    shared = []
    n = rng.randint(2, 10)
    k = 0
    private = "PV_%s" % t

    def jt():
        nonlocal k
        i = "%s.%d" % (t, k)
        k += 1
        reads = ["env:" + private, "env:" + rng.choice(vars_shared)]
        form = rng.choice(["%s", "%s", "%s", "jt x:0 && %s", "call %s", "%s > NUL"])
        sub = None
        if rng.random() < .12:
            # cd inside a shell command has no effect on the following commands
            d = rng.choice(TREE)
            up = "/".join([".."] * (cwd.count("/") + 1)) + "/" if cwd else ""
            form = "cd \"%s%s\" && %%s" % (up, d)
            sub = d
        line = form % ("jt id=%s %s %s" % (i, " ".join(s.ops()), " ".join(reads)))
        lines.append(rng.choice(["", "", "@"]) + line)
        if not dead:
            exp.append((i, sub if sub is not None else cwd, val))
        else:
            exp.append((i, None, None))
        return i
    last = jt() if rng.random() < .5 else None
    for _ in range(n):
        r = rng.random()
        if r < .45:
            tgt = rng.choice(TREE + ["."])
            how = rng.random()
            if how < .25:
                arg = ".."
                if not cwd:
                    arg = tgt
            elif how < .75:
                arg = os.path.relpath("/" + tgt, "/" + cwd)
            else:
                arg = None
            bad = rng.random() < .12
            if bad:
                arg = rng.choice(["nosuch", "..\\nosuch\\aa", "aa/nosuch", os.path.relpath("/" + rng.choice(FILES), "/" + cwd)])
            if arg is None:
                text, new = "$(MAKEDIR)/%s" % tgt, norm("", tgt)
            else:
                text, new = arg, norm(cwd, arg)
            if rng.random() < .4:
                text = text.replace("/", "\\")
            if rng.random() < .1 and not text.endswith((".txt", ".")):
                text += rng.choice(["\\", "/", "\\."])
            q = '"%s"' % text if rng.random() < .5 or (" " in text and rng.random() < .7) else text
            verb = rng.choice(["cd ", "cd ", "cd ", "cd  ", "CD ", "Cd ", "cd\t", "cd /d ", "cd /D "])
            pre = rng.choice(["", "", "@", "-", "-@"] if not bad else ["", "-", "-", "-1 ", "-0 "])
            lines.append(pre + verb + q + rng.choice(["", "", "  "]))
            if not dead:
                if bad:
                    if pre in ("", "@", "-0 "):
                        dead = True
                else:
                    cwd = new
            if lines[-1].rstrip().endswith("\\"):
                lines[-1] = lines[-1].rstrip() + "."            # not a continued line
        elif r < .53:
            lines.append(rng.choice(["cd $(EMPTY)", "cd $(EMPTY) ", "cd  $(EMPTY)"]))
            if not dead:
                printed.append(cwd)
        elif r < .57:
            lines.append(rng.choice(["cd", "@cd"]))            # left to the shell, prints as well
            if not dead:
                printed.append("\1" + cwd)
        elif r < .60:
            lines.append(rng.choice(["rem cd aa", ": cd aa", "rem set %s=9" % private]))
        elif r < .80:
            v = rng.choice(["1", "x y", "a=b", "%d" % rng.randint(0, 999), "c:\\dir\\f", "$(EMPTY)v", "\"quoted\"", " lead", "", "=", "x="])
            if rng.random() < .5:
                lines.append(rng.choice(["set ", "SET ", "set  ", "Set "]) + "%s=%s%s" % (private, v, rng.choice(["", " "])))
                if not dead:
                    val = v.replace("$(EMPTY)", "")
            else:
                name = rng.choice(vars_shared)
                v = "%s_%d" % (t, k) + "_%d" % len(shared)
                lines.append("set %s=%s" % (name, v))
                if not dead:
                    shared.append((name, v, exp[-1][0] if exp else None, "%s.%d" % (t, k)))
                    # the next command of the target tells that it has happened
                    jt()
        else:
            jt()
    if rng.random() < .7:
        jt()            # otherwise a cd without any effect may be the last command
    return lines, exp, printed, shared, private, dead


def case(ctx, J, seed):
    rng = random.Random(seed)
    s = work.Sched(rng)
    nt = rng.choice([1, 2, 3, 4, 6, 9])
    vs = ["SHARED_A", "SHARED_B"]
    mk = "all: %s\n" % " ".join("t%d" % i for i in range(nt))
    deps = {i: [d for d in range(i + 1, nt) if rng.random() < .15] for i in range(nt)}
    exp, printed, sets, priv, dead = {}, [], [], {}, set()
    body = []
    for i in range(nt):
        t = "t%d" % i
        lines, e, p, sh, pv, dd = one_target(rng, t, s, vs)
        if rng.random() < .2:
            # the same through an inference rule
            body.append(".SUFFIXES: .s%d\n.s%d.q%d:\n%s\n%s.q%d: %s\n%s: %s.q%d\n" % (i, i, i, "".join("\t%s\n" % x for x in lines), t, i, " ".join("t%d" % d for d in deps[i]), t, t, i))
        else:
            body.append("%s: %s\n%s" % (t, " ".join("t%d" % d for d in deps[i]), "".join("\t%s\n" % x for x in lines)))
        for x in e:
            exp[x[0]] = (i,) + x[1:]
        printed.append((i, p))
        sets += [(i,) + x for x in sh]
        priv[i] = pv
        if dd:
            dead.add(i)
    mk += "\n".join(body)
    files = {"Makefile": mk}
    for d in TREE:
        files[d + "/x"] = ""
    for f in FILES:
        files[f] = "x"
    for i in range(nt):
        files["t%d.s%d" % (i, i)] = "x"
    jn = work.jobs(rng)
    args = ["-nologo", "-s", "-k", "-j", str(jn)]
    env = {"SHARED_A": "inherited", "PV_t0": "inherited"}
    # targets above a dead one do not run
    blocked = set()
    for i in reversed(range(nt)):
        if any(d in dead or d in blocked for d in deps[i]):
            blocked.add(i)
    kw = s.kwargs(list(exp))
    if kw.get("chaos"):
        # pipes read in pieces: the printed lines of parallel targets could be mixed
        kw["chaos"] = (kw["chaos"][0], kw["chaos"][1] & ~16 or 15, kw["chaos"][2])
    r = ctx.run(J, files, args, "build with cd and set", env=env, **kw)
    if r.bad:
        return
    errs = []
    runs, envs, spawn = {}, {}, {}
    for e in r.ev:
        if e.kind == "S":
            runs.setdefault(e.a[0], []).append(e)
        elif e.kind == "ENV":
            envs.setdefault(e.a[0], {})[e.a[1]] = e.raw.split(" ")[2] if e.raw.split(" ")[2] == "UNSET" else e.a[2]
    for i, (t, cwd, val) in exp.items():
        got = runs.get(i, [])
        if t in blocked or cwd is None:
            if got:
                errs.append("%s ran although %s" % (i, "cd before it failed" if t not in blocked else "its dependents failed"))
            continue
        if len(got) != 1:
            errs.append("%s ran %d times" % (i, len(got)))
            continue
        c = got[0].a[1].strip("/")
        if c != cwd:
            errs.append("%s ran in '%s', expected '%s'" % (i, c, cwd))
        v = envs.get(i, {}).get(priv[t], "UNSET")
        w = val if val is not None else ("inherited" if t == 0 else "UNSET")
        if v != w and not (w == "" and v == "UNSET"):       # as by cmd.exe or an empty value
            errs.append("%s saw %s=%r, expected %r" % (i, priv[t], v, w))
        ctx.count("commands_checked")
        ctx.distinct((cwd, val, c == ""))
    # shared variables: every read returns a value that was current at some time around the read
    E = {e.a[0]: e.i for e in r.ev if e.kind == "E"}
    S = {k: v[0].i for k, v in runs.items()}
    iv = {n: [] for n in vs}
    for (t, name, v, before, after) in sets:
        if t in blocked or after not in S:
            continue
        lo = E.get(before, -1) if before else -1
        iv[name].append((lo, S[after], v))
    for i, m in envs.items():
        for name in vs:
            if name not in m or i not in S:
                continue
            at = S[i]
            spawned = max([e.i for e in r.ev[:at] if e.kind == "SPAWN" and ("id=%s " % i) in e.raw.replace("%20", " ") + " "] or [0])
            ok = set()
            for lo, hi, v in iv[name]:
                if lo < at and not any(l2 > hi and h2 < spawned for l2, h2, v2 in iv[name]):
                    ok.add(v)
            if not any(h2 < spawned for l2, h2, v2 in iv[name]):
                ok.add("inherited" if name == "SHARED_A" else "UNSET")
            if m[name] not in ok:
                errs.append("%s saw %s=%r, possible are %s" % (i, name, m[name], sorted(ok)))
            ctx.count("shared_reads_checked")
    want = []
    for i, ps in printed:
        if i not in blocked:
            want += [("/" + p[1:] if p[0:1] == "\1" else (r.w + ("/" + p if p else "")).replace("/", "\\")) for p in ps]
    got = [l for l in r.text_out().splitlines()]
    # how a directory is spelled is not the point
    want, got = ([os.path.normpath(x.replace("\\", "/")) for x in l] for l in (want, got))
    if sorted(want) != sorted(got):
        errs.append("printed directories %s, expected %s" % (sorted(got)[:6], sorted(want)[:6]))
    if r.rc != (1 if dead else 0):
        errs.append("exit code %s with %d failing targets" % (r.rc, len(dead)))
    ctx.count("failing_cd_targets", len(dead))
    ctx.sample({"makefile": mk[:2500], "args": args}, 2)
    if errs:
        ctx.violation("%s (%s, %s)" % (errs[0], " ".join(args), s.name), replay=ctx.replay_of(r, files, args, errors=errs[:20], seed=seed))


def body(ctx):
    ctx.rule = ("random programs of cd (relative, absolute, quoted, /d, .., missing, files), set and other commands in up to nine targets built in parallel; working directory and variables of every "
                "command are compared with a shell model, shared variables with the set of values that may be current; distinct by (directory, value)")
    J = ctx.jom()
    ctx.pmap(lambda x: case(ctx, J, x), [ctx.rng.random() for _ in range(ctx.n(450, 6000))])


check.main("P14", body)
