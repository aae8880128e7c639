#!/usr/bin/env python3
import collections, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check


class C:
    def __init__(self, tag):
        self.tag, self.text, self.shown, self.silent, self.out, self.err, self.code, self.ignored, self.waits = tag, "", None, False, [], [], 0, False, False


def command(r, tag, target, silent, fail, control, moved):
    """one command; .text as written, .shown as displayed if it is"""
    c = C(tag)
    kind = r.choice(["direct", "direct", "direct", "shell", "echo", "cd", "set", "comment", "two", "macro", "missing", "redirected", "long"])
    if kind == "cd" and moved:
        kind = "direct"
    if fail:
        kind = r.choice(["direct", "shell", "missing", "crash"])
    pre = r.choice(["", "", "", "", "@", "@", "-", "-@", "@-", "@ ", "- @", "--", "-200", "-200@", "@-200 "])
    n = r.randint(0, 3)
    outs = ["o%s.%d %s" % (tag, k, "z" * r.choice([0, 5, 30])) for k in range(n)]
    o = "".join(' "o:%s"' % x for x in outs)
    c.out = list(outs)
    if kind in ("direct", "crash"):
        c.text = c.shown = "jt id=%s%s%s" % (tag, r.choice(["", "", "", " s:20", " s:60"]), o)
        if r.random() < .3:
            c.text, c.shown = c.text + " $@ 100%%", c.shown + " " + target + " 100%%"
        if control:
            c.text, c.shown, c.waits = c.text + " wait", c.shown + " wait", True
        if r.random() < .15:
            c.text, c.shown = c.text + " \"e:e%s\"" % tag, c.shown + " \"e:e%s\"" % tag
            c.err = ["e" + tag]
    elif kind == "shell":
        c.text = c.shown = "jt id=%s%s && jt id=%sx" % (tag, o, tag)
    elif kind == "echo":
        c.text = c.shown = r.choice(["echo o%s text", "echo o%s", "ECHO o%s"]) % tag
        c.out = [c.text[5:]]
    elif kind == "cd":
        c.text = c.shown = r.choice(["cd d_%s", "cd  d_%s", "CD .\\d_%s", "cd /d d_%s", "cd \"d_%s\""]) % tag
        c.out = []
    elif kind == "set":
        c.text = c.shown = "set V%s=1" % tag.replace(".", "_")
        c.out = []
    elif kind == "comment":
        c.text = c.shown = r.choice(["rem %s", ":%s", "REM o%s", ": o%s"]) % tag
        c.out = []
    elif kind == "two":
        c.text = c.shown = "jt id=%s%s & jt id=%sx o:o%s.last" % (tag, o, tag, tag)
        c.out = outs + ["o%s.last" % tag]
    elif kind == "macro":
        c.text, c.shown = "$(JT) id=%s$(NOTHING)%s $$x" % (tag, o), "jt id=%s%s $x" % (tag, o)
    elif kind == "missing":
        c.text = c.shown = "nosuch_%s args" % tag
        c.out = []
        c.code = 9009
    elif kind == "redirected":
        c.text = c.shown = "jt id=%s%s > nul" % (tag, o)
        c.out = []
    elif kind == "long":
        c.text = c.shown = "jt id=%s%s %s" % (tag, o, " ".join(["w" * r.randint(1, 60) for _ in range(r.choice([50, 300]))]))
    if fail and kind in ("direct", "crash", "shell"):
        c.code = r.choice([1, 2, 3, 77, 201, 255, 256, 4711])
        c.text += " x:%d" % c.code
        c.shown += " x:%d" % c.code
    if kind == "crash":
        c.text, c.shown, c.code = c.text.replace(" x:", " y:") + " crash", c.shown.replace(" x:", " y:") + " crash", 2
    if kind == "missing":
        # what the shell says about it isn't of interest
        c.err = None
    c.silent = silent or "@" in pre
    if "-200" in pre:
        c.ignored = c.code <= 200
    elif "-" in pre:
        c.ignored = True
    if not fail and c.code and not c.ignored:
        pre, c.ignored = "-" + pre.replace("-200", "").replace("-", ""), True
    c.text = pre + c.text
    return c


def case(ctx, J, seed):
    r = random.Random(seed)
    jobs = r.choice([1, 1, 1, 2, 3, 5, 9])
    # per configuration: what must be displayed at all
    opts = [r.choice(["/NOLOGO", "/nologo", "/L", "-l"])] if r.random() < .7 else []
    logo = not opts
    dry = r.random() < .15
    if dry:
        opts.append(r.choice(["/N", "-n"]))
    s_opt, c_opt = r.random() < .15, r.random() < .12
    opts += [r.choice(["/S", "/s"])] * s_opt + [r.choice(["/C", "-c"])] * c_opt
    opts += ["/J", str(jobs)]
    failing = r.random() < .45 and not dry
    ignore = failing and jobs == 1 and r.random() < .2        # /I takes /K back
    keep_going = failing and not ignore and (jobs > 1 or r.random() < .6)
    if keep_going:
        opts.append(r.choice(["/K", "-k"]))
    if ignore:
        opts.append(r.choice(["/I", "-i"]))
    if r.random() < .15:
        r.shuffle(opts)
        i = [k for k, o in enumerate(opts) if o.isdigit()][0]
        n = opts.pop(i)
        j = opts.index("/J")
        opts.insert(j + 1, n)
    env = {}
    if opts and r.random() < .1:
        # the same from the environment
        env["JOMFLAGS"] = "".join(o[1:2] if len(o) == 2 else "L" for o in opts if o[0] in "/-" and o != "/J") + "J%d" % jobs
        opts = []
    control = jobs == 1 and not dry and not keep_going and r.random() < .4
    nt = r.randint(1, 7)
    names = ["t%d" % i for i in range(nt)]
    dirs = []
    silent_from = r.choice([None, None, None, 0, r.randint(0, nt)])
    blocks, cmds, deps = [], {}, {}
    rules = []
    silent = s_opt
    for i, t in enumerate(names):
        if silent_from == i:
            blocks.append(r.choice([".SILENT:", ".SILENT :"]))
            silent = True
        deps[t] = [x for x in names[i + 1:] if r.random() < .15]
        cs = []
        via = r.choice(["block", "block", "block", "block", "rule", "double"])
        target = t + ".q" if via == "rule" else t
        nc = r.choice([0, 1, 1, 2, 3, 5])
        bad = r.randrange(nc) if failing and nc and r.random() < .4 else None
        for k in range(nc):
            c = command(r, "%d.%d" % (i, k), target, silent, k == bad, control, any(re.match(r"cd\s", x.shown, re.I) for x in cs))
            cs.append(c)
            if ignore and "-200" not in c.text[:6]:
                c.ignored = True
        cmds[t] = (cs, target)
        if via == "rule":
            blocks.append(".SUFFIXES: .s%d\n.s%d.q:\n%s\n%s.q: %s\n" % (i, i, "".join("\t%s\n" % c.text for c in cs), t, t + ".s%d" % i))
            blocks.append("%s: %s.q %s" % (t, t, " ".join(deps[t])))
            # the rule's target is made after the dependents only if it depends on them
            blocks.append("%s.q: %s\n" % (t, " ".join(deps[t])))
            dirs.append(t + ".s%d" % i)
            if not cs:
                blocks[-3] = "%s.q:" % t
        elif via == "double" and nc > 1:
            m = r.randint(1, nc - 1)
            blocks.append("%s:: %s\n%s\n%s:: %s\n%s" % (t, " ".join(deps[t]), "".join("\t%s\n" % c.text for c in cs[:m]), t, " ".join(deps[t]),
                                                   "".join("\t%s\n" % c.text for c in cs[m:])))
        elif cs and r.random() < .2:
            # the first command on the dependency line
            blocks.append("%s: %s;%s%s\n%s" % (t, " ".join(deps[t]), r.choice(["", " ", " \t"]), cs[0].text, "".join("\t%s\n" % c.text for c in cs[1:])))
        else:
            blocks.append("%s: %s\n%s" % (t, " ".join(deps[t]), "".join("\t%s\n" % c.text for c in cs)))
    mk = "JT = jt\nNOTHING =\nall: %s\n\n%s\n" % (" ".join(names), "\n".join(blocks))
    files = {"Makefile": mk}
    for d in dirs:
        files[d] = ""
    for t, (cs, _) in cmds.items():
        for c in cs:
            files["d_%s/x" % c.tag] = ""
    merge = not control and r.random() < .4
    # the order of the two pipes of one command isn't what this is about: with several jobs only jom's own messages count
    drop_err = merge and jobs > 1
    seen = {}
    kw = {}
    d = J.newdir()
    if control:
        def policy(waiting, ctl, idle):
            try:
                seen[waiting[0]] = open(os.path.join(d, "out"), "rb").read().decode("utf-8", "replace")
            except OSError:
                pass
            return waiting[0]
        kw["control"] = policy
    if jobs > 1 and r.random() < .5:
        kw["chaos"] = (r.randint(1, 10**6), r.choice([1, 2, 4, 8, 15, 15]), r.choice([300, 2000]))
    # a cd stays in force for the target: let programs of the work directory be found anyway
    rr = ctx.run(J, files, opts, env=env, merge=merge, d=d, **kw)
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    if rr.bad:
        return

    def bad(what):
        ctx.violation("%s (%s)" % (what, " ".join(opts)), replay=ctx.replay_of(rr, files, opts, cmdenv=env))
    # ---- what should have happened, target by target
    mkpath = rr.w.replace("/", "\\") + "\\Makefile"
    blocks, broken = {}, set()
    for t in reversed(names):         # dependents first
        cs, target = cmds[t]
        lines, errs, fails = [], [], False
        for c in cs:
            if dry or not (c.silent or c_opt):
                lines.append("\t" + c.shown)
            if dry:
                continue
            lines += c.out
            if not drop_err:
                (lines if merge else errs).extend(c.err or [])
            if c.code and not c.ignored:
                (lines if merge else errs).append("jom: %s [%s] Error %d" % (mkpath, target, c.code))
                fails = True
                break
        blocks[t] = ([l.replace("%%", "%") for l in lines], errs, fails)
        if fails or any(x in broken for x in deps[t]):
            broken.add(t)
    skipped = {t for t in names if any(x in broken for x in deps[t])}
    out = rr.text_out().replace("\r\n", "\n")
    if merge:
        logo_at = out
    text_err = rr.text_err().replace("\r\n", "\n")
    both = out if merge else text_err
    m = re.match(r"\s*jom \d+\.\d+\.\d+ - empower your cores\s*?\n\n?", both)
    if bool(m) != logo:
        return bad("logo %s" % ("missing" if logo else "displayed although suppressed"))
    if m:
        both = both[m.end():]
    if merge:
        out = both
    else:
        text_err = both
    noise = re.compile(r"^('nosuch_[^']*' is not recognized as an internal or external command.*|operable program or batch file\.|Couldn't change working directory to .*)$")
    k_noise = re.compile(r"^jom: (Option /K specified\. Continuing\.|Target '[^']*' cannot be built due to failed dependencies\.)$")
    got = [l for l in out.split("\n")[:-1]]
    if out and not out.endswith("\n"):
        return bad("the output ends in the middle of a line")
    if merge:
        got = [l for l in got if not noise.match(l) and not (keep_going and k_noise.match(l)) and not (drop_err and re.match(r"e\d", l))]
    got = [l.replace("%%", "%") for l in got]
    tag = re.compile(r"(?:id=|[oed :V_/\"]|\[t)(\d+)(?:[._]\d+|(?:\.q)?\] Error)")

    def owner(l):
        m = tag.search(l)
        return "t" + m.group(1) if m else None
    e_got = [] if merge else [l for l in text_err.split("\n")[:-1] if not noise.match(l) and not (keep_going and k_noise.match(l))]
    ran = [t for t in names if t not in skipped]
    visible = []
    for l in got:
        if owner(l) and owner(l) not in visible:
            visible.append(owner(l))
    if broken and not keep_going:
        # one job, ends with the first failure
        active = set(visible) | {owner(l) for l in e_got} | {"t" + e.a[0].split(".")[0] for e in rr.starts()}
        ran = [t for t in names if t in active]
        failed = [t for t in ran if blocks[t][2]]
        if len(failed) != 1 or any(t in skipped for t in ran) or failed[0] in visible and visible[-1] != failed[0]:
            return bad("the build did not end with the first failing command: targets run %s, of which fail %s, displayed order %s" % (ran, failed, visible))
    flat = [l for t in visible for l in blocks.get(t, ([], 0, 0))[0]]
    missing = [t for t in ran if blocks[t][0] and t not in visible]
    if missing or any(t not in ran for t in visible):
        return bad("no lines of %s, or lines of skipped targets %s" % (missing, [t for t in visible if t not in ran]))
    if jobs == 1:
        if got != flat:
            k = next((k for k in range(max(len(got), len(flat))) if k >= len(got) or k >= len(flat) or got[k] != flat[k]), 0)
            return bad("output line %d is %r, expected %r" % (k, got[k:k + 1], flat[k:k + 1]))
    else:
        a, b = collections.Counter(got), collections.Counter(flat)
        if a != b:
            return bad("lines missing: %s, too many: %s" % (list((b - a))[:3], list((a - b))[:3]))
        for t in visible:
            part = [l for l in got if owner(l) == t]
            if part != blocks[t][0]:
                return bad("lines of %s out of order: %r" % (t, part[:8]))
    errs = sorted(l for t in ran for l in blocks[t][1])
    if not merge and sorted(e_got) != errs:
        return bad("standard error has %r, expected %r" % (sorted(e_got)[:4], errs[:4]))
    for c in [c for t, (cs, _) in cmds.items() for c in cs]:
        if c.waits and c.tag in seen and not (c.silent or c_opt):
            if ("\t" + c.shown).replace("%%", "%") not in seen[c.tag].replace("%%", "%").split("\n"):
                return bad("command %s was running before it was displayed" % c.tag)
            ctx.count("displayed_while_running")
    ctx.count("lines_compared", len(flat))
    ctx.count("displays_expected", sum(l.startswith("\t") for l in flat))
    ctx.count("silent_commands", sum(c.silent for t, (cs, _) in cmds.items() for c in cs))
    ctx.count("failure_messages", sum(x.startswith("jom:") for x in errs) + sum(l.startswith("jom:") for l in flat))
    ctx.distinct((dry, s_opt, c_opt, jobs > 1, keep_going, ignore, merge, control, silent_from is None, tuple(re.sub(r"\d+|[zw]+", "", c.text)[:30] for t, (cs, _) in cmds.items() for c in cs)))
    ctx.sample({"args": opts, "stdout": out[:400]}, 2)


def sub(ctx, J, seed):
    """a sub-jom displays its commands but neither logo nor anything else"""
    r = random.Random(seed)
    flags = [o for o, p in (("/S", .2), ("/C", .2), ("/K", .2)) if r.random() < p]
    passed = r.random() < .5
    jobs = r.choice([1, 2, 4])
    logo = r.random() < .5
    args = flags + ["/J", str(jobs)] + ([] if logo else ["/NOLOGO"])
    pre = r.choice(["", "@"])
    mk = "all:\n\t%s$(MAKE)%s /f sub.mak\n" % (pre, " /$(MAKEFLAGS)" if passed else "")
    sm = "sall: s1\n\t@jt id=1.0 o:o1.0\n\tjt id=1.1 o:o1.1\ns1:\n\tjt id=2.0 o:o2.0\n"
    rr = ctx.run(J, {"Makefile": mk, "sub.mak": sm}, args)
    if rr.bad:
        return
    quiet = "/S" in flags or "/C" in flags
    subquiet = quiet and passed
    want = ([] if quiet or pre else ["make"]) + ([] if subquiet else ["\tjt id=2.0 o:o2.0"]) + ["o2.0", "o1.0"] + ([] if subquiet else ["\tjt id=1.1 o:o1.1"]) + ["o1.1"]
    got = ["make" if re.match(r"\t.*/f sub\.mak$", l) else l for l in rr.text_out().split("\n")[:-1]]
    err = rr.text_err()
    n = len(re.findall("empower your cores", err))
    if got != want:
        ctx.violation("with a sub-jom: output %r, expected %r (%s)" % (got, want, args), replay=ctx.replay_of(rr, {"Makefile": mk, "sub.mak": sm}, args))
    if n != logo or re.sub(r"\s*jom [0-9.]+ - empower your cores\s*", "", err, count=1):
        ctx.violation("with a sub-jom: standard error has %r (%s)" % (err, args), replay=ctx.replay_of(rr, {"Makefile": mk, "sub.mak": sm}, args))
    ctx.count("sub_joms")
    ctx.distinct(("sub", tuple(flags), passed, jobs, logo, pre))


WORDS = ["\u00e4\u00f6\u00fc", "caf\u00e9", "\u00f1and\u00fa", "na\u00efve", "\u00c5ngstr\u00f6m", "\u00d8l", "gr\u00f6\u00dfe", "\u00a7\u00b6", "x\u00b2\u00b3", "\u00fe\u00f0"]


def accents(ctx, J, seed):
    """what is displayed is written in the console's character set"""
    r = random.Random(seed)
    w = lambda: r.choice(["", "a", "z-"]) + r.choice(WORDS) + r.choice(["", "x", ".1"])
    jobs = r.choice([1, 1, 3])
    dry = r.random() < .2
    names = ["t%d" % i if r.random() < .5 else "t%d%s" % (i, w()) for i in range(r.randint(1, 4))]
    mk, exp, errs, failed = "M = %s\nall: %s\n\n" % (w(), " ".join(names)), {}, [], False
    macro = mk[4:mk.index("\n")]
    for i, t in enumerate(names):
        mk += "%s:\n" % t
        e = exp[i] = []
        for k in range(r.randint(1, 3)):
            kind = r.choice(["jt", "jt", "rem", "macro", "target", "fail"])
            text = {"jt": "jt id=%d.%d %s", "rem": "rem %d.%d %s", "macro": "jt id=%d.%d $(M) %s", "target": "jt id=%d.%d $@ %s", "fail": "jt id=%d.%d x:3 %s"}[kind] % (i, k, w())
            shown = text.replace("$(M)", macro).replace("$@", t)
            if kind == "fail":
                last = jobs == 1 and i == len(names) - 1 and not dry and not failed
                if last:
                    failed = True
                    errs.append(" [%s] Error 3" % t)
                else:
                    text = "-" + text
            pre = r.choice(["", "", "", "@"])
            mk += "\t%s%s\n" % (pre, text)
            if dry or not pre:
                e.append(("\t" + shown).encode("cp850"))
            if failed:
                break
        mk += "\n"
    files = {"Makefile": r.choice([b"\xef\xbb\xbf" + mk.encode("utf-8"), mk.encode("utf-8-sig").replace(b"\n", b"\r\n"), b"\xff\xfe" + mk.encode("utf-16-le")])}
    args = ["/NOLOGO", "/J", str(jobs)] + ["/N"] * dry
    rr = ctx.run(J, files, args)
    if rr.bad:
        return
    rp = lambda: ctx.replay_of(rr, {"Makefile": mk}, args)
    for i in exp:
        got = [l for l in rr.out.replace(b"\r\n", b"\n").split(b"\n") if re.match((r"\t(jt id=|rem )%d\." % i).encode(), l)]
        if got != exp[i]:
            return ctx.violation("displayed as %r, expected %r" % (got, exp[i]), replay=rp())
    if len(rr.out.split()) != len(b" ".join(sum(exp.values(), [])).split()):
        return ctx.violation("more is displayed than the commands: %r" % rr.out[:300], replay=rp())
    err = rr.err.replace(b"\r\n", b"\n").split(b"\n")[:-1]
    if len(err) != len(errs) or errs and not err[0].endswith(errs[0].encode("cp850")) or rr.rc != (2 if failed else 0):
        return ctx.violation("standard error has %r, expected %r; exit code %d" % (err, [e.encode("cp850") for e in errs], rr.rc), replay=rp())
    ctx.count("displays_with_accents", sum(len(x) for x in exp.values()))
    ctx.count("failures_with_accents", len(errs))
    ctx.distinct(("accents", dry, jobs, tuple(names), failed))


def prompt(ctx, J, seed):
    """what belongs to a target is there when the target is finished, not some time later"""
    r = random.Random(seed)
    jobs = r.randint(2, 4)
    nt = jobs + r.randint(0, 4)
    names = ["t%d" % i for i in range(nt)]
    anchor = r.choice([None, "0.0", "%d.0" % (nt - 1), "%d.0" % min(jobs - 1, nt - 1)])
    mk, lines, errs, gates = "all: %s\n" % " ".join(names), {}, {}, {}
    for t in range(nt):
        mk += "t%d:\n" % t
        lines[t], errs[t], gates[t] = [], [], []
        n, moved = r.randint(1, 4), False
        for k in range(n):
            kind = r.choice(["gate", "gate", "quick", "rem", "set", "cd"]) if k else "gate"
            if k == n - 1 and r.random() < .5 and "%d.0" % t != anchor:
                kind = r.choice(["fail", "cdfail", "missing", "crash"] if k else ["fail", "crash"])
            tag = "%d.%d" % (t, k)
            c = {"gate": "jt id=%s wait o:o%s", "quick": "jt id=%s o:o%s", "rem": "rem %s", "set": "set V%s=1", "cd": "cd d%s", "fail": "jt id=%s wait o:o%s x:3",
                 "cdfail": "cd nosuch%s", "missing": "nosuch_%s args", "crash": "jt id=%s wait o:o%s crash"}[kind]
            c = c % ((tag,) * c.count("%s"))
            if kind == "cd":
                c = c.replace("cd d", "cd ..\\d") if moved else c
                moved = True
            silent = r.random() < .2
            mk += "\t%s%s\n" % ("@" * silent, c)
            if not silent:
                lines[t].append("\t" + c)
            if " wait" in c:
                gates[t].append(tag)
            if c.startswith("jt"):
                lines[t].append("o" + tag)
            code = {"fail": 3, "cdfail": 1, "missing": 9009, "crash": 2}.get(kind)
            if code:
                errs[t].append("[t%d] Error %d" % (t, code))
    files = {"Makefile": mk}
    for t in range(nt):
        for k in range(4):
            files["d%d.%d/x" % (t, k)] = ""
    args = ["/NOLOGO", "/K", "/J", str(jobs)]
    d = J.newdir()
    late, released, seen = [], set(), [0]

    def policy(waiting, ctl, idle):
        done = [t for t in range(nt) if all(x in released for x in gates[t])]
        want = min(jobs, nt - len(done))
        if len(waiting) < want and idle < 8:
            return None
        try:
            out = open(os.path.join(d, "out"), "rb").read().decode("utf-8", "replace").replace("\r", "").split("\n")
            err = open(os.path.join(d, "err"), "rb").read().decode("utf-8", "replace")
        except OSError:
            return None
        for t in done:
            gone = [l for l in lines[t] if l not in out] + [l for l in errs[t] if l not in err]
            if gone:
                if idle < 8:
                    return None
                late.append((t, gone[:2], list(waiting)))
            seen[0] += 1
        free = [w for w in waiting if w != anchor] or waiting
        w = r.choice(free)
        released.add(w)
        return w
    kw = {"chaos": (r.randint(1, 10**6), 15, 300)} if r.random() < .3 else {}
    rr = ctx.run(J, files, args, d=d, control=policy, timeout=90, **kw)
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    if rr.bad:
        return
    if late:
        ctx.violation("t%d is finished, but %s isn't displayed yet while the others wait (%s)" % (late[0][0], late[0][1], late[0][2]), replay=ctx.replay_of(rr, files, args))
    ctx.count("finished_targets_looked_at", seen[0])
    ctx.distinct(("prompt", jobs, nt, anchor, tuple(re.sub(r"\d+", "", l) for t in lines for l in lines[t])))


def body(ctx):
    J = ctx.jom("asan")
    ctx.rule = "random makefiles (commands of every kind, prefixes, .SILENT, inference rules, :: blocks, failing and crashing commands) under /S /C /N /K /I /NOLOGO and 1 to 9 jobs: jom's standard output and error must consist of exactly the expected lines, in order; while a command runs with one job, its display has been written already"
    ctx.pmap(lambda s: case(ctx, J, s), ["m%d/%d" % (ctx.seed, i) for i in range(ctx.n(500, 12000))])
    ctx.pmap(lambda s: sub(ctx, J, s), ["s%d/%d" % (ctx.seed, i) for i in range(ctx.n(30, 600))])
    ctx.pmap(lambda s: accents(ctx, J, s), ["a%d/%d" % (ctx.seed, i) for i in range(ctx.n(60, 1500))])
    ctx.pmap(lambda s: prompt(ctx, J, s), ["p%d/%d" % (ctx.seed, i) for i in range(ctx.n(60, 1500))])
    ctx.assume("whether %% is displayed as written or as % is left open; what the shell itself prints for a missing program and the lines in which /K announces skipped targets are not compared")


check.main("P38", body)
