#!/usr/bin/env python3
"""Long builds with commands that end in every way: the handle table of jom stays bounded by the job limit."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, work

BAD = ("BADHANDLE", "DOUBLE-PENDING-READ", "PROCESS-HANDLE-CLOSED-WHILE-RUNNING", "STD-HANDLE-NOT-INHERITABLE")
FDS = 30        # file descriptors that are open in an idle jom, with room (13 are seen with J = 1)

ENDINGS = {
    "ok": lambda r, i: "jt id=%s" % i,
    "output": lambda r, i: "jt id=%s P:%d:%d:x" % (i, r.choice([1, 30, 400]), r.choice([5, 60])),
    "both streams": lambda r, i: "jt id=%s o:out e:err o:out" % i,
    "fails": lambda r, i: "-jt id=%s x:%d" % (i, r.choice([1, 2, 255, 259])),
    "limit": lambda r, i: "-3 jt id=%s x:%d" % (i, r.choice([1, 3])),
    "crash": lambda r, i: "-jt id=%s crash" % i,
    "not found": lambda r, i: "-nosuchprogram%s" % i,
    "shell": lambda r, i: "echo %s > NUL && jt id=%s" % (i, i),
    "shell fails": lambda r, i: "-jt id=%s x:4 || exit 5" % i,
    "closes its output": lambda r, i: "jt id=%s closeout s:%d" % (i, r.choice([0, 1, 3])),
    "leaves a process behind": lambda r, i: "jt id=%s daemon:%d" % (i, r.choice([1, 5, 40])),
    "sleeps": lambda r, i: "jt id=%s s:%d" % (i, r.choice([1, 3, 8])),
    "builtin": lambda r, i: r.choice(["set X%s=1" % i.replace("-", "_"), "cd .", "rem nothing", ":label"]),
    "other directory": lambda r, i: "cd dir & jt id=%s" % i if r.random() < .3 else "cd dir",
    "removed directory": lambda r, i: "-cd nosuchdirectory",
    "inline": lambda r, i: "jt id=%s need:<<\nsome text\n<<%s" % (i, r.choice(["", "KEEP", "NOKEEP"])),
    "bad inline": lambda r, i: "-jt id=%s <<no/such/dir/f\nsome text\n<<" % i,
    "output of bytes": lambda r, i: "jt id=%s G:5:%d:%d:700:0:%d" % (i, r.randint(1, 999), r.choice([10, 5000, 20000]), r.choice([1, 2])),
}


def makefile(r, total, kinds, opts):
    """chains and fans of targets with about `total` commands"""
    mk, left, n, names = "", total, 0, []
    per = r.choice([1, 1, 2, 5, 20])
    while left > 0:
        k = min(left, per if r.random() < .7 else r.randint(1, per))
        name = "tt%d" % n
        deps = [r.choice(names)] if names and r.random() < .25 else []
        cmds = []
        for c in range(k):
            kind = r.choice(kinds)
            line = ENDINGS[kind](r, "i%d-%d" % (n, c))
            if kind == "bad inline" and not opts:
                pass
            cmds.append("\t@" + line + "\n")
        if r.random() < .05 and opts:
            cmds.append("\t@jt id=f%d x:1\n" % n)       # a target that fails; the others go on under /K
        mk += "%s:%s\n%s" % (name, "".join(" " + d for d in deps), "".join(cmds))
        names.append(name)
        left -= k
        n += 1
    return "all: " + " ".join(names) + "\n\n" + mk, n


def case(ctx, J, seed):
    r = random.Random(seed)
    total = r.choice([30, 60, 120, 200]) if ctx.tier == "quick" else r.choice([60, 200, 600, 1500])
    j = r.choice([1, 1, 2, 2, 3, 4, 8])
    keep = r.random() < .6
    focus = r.random()
    all_kinds = sorted(ENDINGS)
    if focus < .35:
        kinds = [r.choice(all_kinds)] * 3 + ["ok"]              # one ending, over and over
    else:
        kinds = r.sample(all_kinds, r.randint(2, len(all_kinds)))
    mk, targets = makefile(r, total, kinds, keep)
    files = {"Makefile": mk, "dir/x": ""}
    how = r.random()
    if how < .18:
        # a jom that starts joms
        subs = r.randint(2, 12)
        files = {"sub.mak": makefile(r, max(10, total // subs), kinds, keep)[0], "dir/x": "", "Makefile":
                 "all: %s\n" % " ".join("ss%d" % i for i in range(subs)) + "".join("ss%d:\n\t-@$(MAKE) /NOLOGO /F sub.mak%s\n" % (i, r.choice(["", "", " /K"])) for i in range(subs))}
    env = {}
    if r.random() < .12:
        env["ComSpec"] = "nosuchshell"
    fail = 0
    if r.random() < .35:
        fail = r.choice([20, 100, 400, 900])
        env["VSHIM_SPAWNFAIL"] = "%d,%d" % (r.randint(1, 9999), fail)
    chaos = (r.randint(1, 10**6), r.choice([31, 1, 2, 8, 9, 16, 25]), r.choice([100, 600])) if r.random() < .4 else None
    args = ["/NOLOGO", "/J", str(j)] + (["/K"] if keep else []) + (["/I"] if r.random() < .3 else [])
    x = ctx.run(J, files, args, env=env, chaos=chaos, timeout=100, what="long build")
    if x.bad:
        return
    errs, spawns, peaks = [], 0, {}
    joms = set()
    for e in x.ev:
        if e.kind in BAD:
            errs.append("%s %s" % (e.kind, e.raw.split(e.kind, 1)[-1][:80].strip()))
        if e.kind == "SPAWN":
            spawns += 1
            joms.add(e.pid)
            h = dict(a.split("=", 1) for a in e.raw.split(" cmd=", 1)[0].split() if "=" in a)
            h = {k: int(v) for k, v in h.items()}
            lim = {"server": 3 * j, "client": 3 * j, "process": j, "thread": j, "inherit": 3, "fds": FDS + 12 * j}
            for k, v in lim.items():
                if h.get(k, 0) > peaks.get(k, 0):
                    peaks[k] = h[k]
                if h.get(k, 0) > v:
                    errs.append("%d %s %s when command %d is started with /J %d (at most %d are needed)" % (
                        h[k], {"inherit": "handles inherited", "fds": "file descriptors open"}.get(k, k + " handles open"),
                        "by the child" if k == "inherit" else "in jom", spawns, j, v))
        elif e.kind == "SPAWN-FAILED":
            ctx.count("commands that cannot be started")
    if x.rc not in (0, 1, 2):
        errs.append("jom ends with %d" % x.rc)
    ctx.count("process starts", spawns)
    ctx.count("instances of jom", len(joms))
    for k, v in peaks.items():
        ctx.maxi("most %s handles with /J %d" % (k, j) if k not in ("inherit", "fds") else "most %s with /J %d" % (k, j), v)
    ctx.maxi("longest build", spawns)
    if fail:
        ctx.count("builds with injected failures of CreateProcess")
    if env.get("ComSpec"):
        ctx.count("builds without a shell")
    for k in set(kinds):
        ctx.count("builds with: " + k)
    ctx.distinct((tuple(sorted(set(kinds))), j, fail, work.interleaving(x)))
    ctx.sample({"args": args, "makefile": files["Makefile"][:300], "starts": spawns, "peaks": peaks}, 3)
    if errs:
        ctx.violation("%s (%s)" % (errs[0], " ".join(args)), replay=ctx.replay_of(x, files, args, env=env, errors=errs[:8], seed=seed))


def body(ctx):
    ctx.rule = "a build of its own endings, job limit, injected failures and interleaving"
    ctx.assume("handles are those of the Win32 stand-in, which never gives the same value twice; descriptors are those of the process")
    ctx.assume("with k free job slots jom needs not more than three pipes, a process and a thread handle per slot")
    J = ctx.jom()
    ctx.pmap(lambda s: case(ctx, J, s), ["%d/%d" % (ctx.seed, i) for i in range(ctx.n(160, 2500))])


check.main("P34", body)
