#!/usr/bin/env python3
"""Whole builds under ThreadSanitizer, with injected delays at the thread boundaries."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, check, gen, work


def body(ctx):
    ctx.rule = "a build with its own observed interleaving of command starts and ends"
    ctx.assume("Qt is not instrumented: its mutexes are replaced by ones ThreadSanitizer understands, accesses made inside Qt are not judged")
    try:
        J = ctx.jom("tsan")
    except build.BuildError as e:
        # Qt's mutexes are replaced in this build; a tree that uses other parts of their interface is not judged
        ctx.inconclusive.append("does not build for ThreadSanitizer: " + str(e)[-300:])
        return

    def one(seed):
        r = random.Random(seed)
        sc = work.Sched(r)
        n = r.choice([1, 3, 8, 16, 30])
        lines, ids = ["all: " + " ".join("tt%d" % i for i in range(n))], []
        lines.append("\t@jt id=all")
        for i in range(n):
            lines.append("tt%d:%s" % (i, " tt%d" % r.randrange(i) if i and r.random() < .3 else ""))
            for k in range(r.choice([0, 1, 1, 2, 3])):
                cid = "c%d-%d" % (i, k)
                ids.append(cid)
                ops = ["id=" + cid] + list(sc.ops())
                for _ in range(r.choice([0, 1, 2, 4])):
                    ops.insert(r.randint(1, len(ops)), r.choice(["o:text", "on:text", "e:error", "P:%d:40:x" % r.choice([1, 20, 500]), "Q:30:60:y", "s:1", "closeout", "daemon:30", "G:abc:%d:20000:3000:0:1" % r.randrange(99)]))
                if r.random() < .08:
                    ops.append(r.choice(["x:1", "x:3", "crash", "x:259"]))
                pre = r.choice(["", "@", "-", "@-"])
                kind = r.random()
                if kind < .1:
                    lines.append("\t" + r.choice(["set A=%d" % i, "cd .", "rem x", "@echo hello", "-nosuch program"]))
                if kind > .93:
                    lines.append("\t-$(MAKE) /NOLOGO /F sub.mak")
                lines.append("\t%sjt %s" % (pre, " ".join(ops)))
        sub = "all: s1 s2 s3\n" + "".join("s%d:\n\t@jt o:sub s:%d P:5:20:s\n" % (i, r.choice([0, 1, 3])) for i in (1, 2, 3))
        files = {"Makefile": "\n".join(lines) + "\n", "sub.mak": sub}
        args = ["/J", str(work.jobs(r))] + r.choice([[], ["/K"], ["/I"], ["/A"]])
        kw = sc.kwargs(ids)
        res = ctx.run(J, files, args, timeout=60, what="build %s (%s)" % (seed, sc.name), **kw)
        ctx.count("builds")
        ctx.count("schedule " + sc.name.split("/")[0])
        ctx.distinct(("i", sc.name, work.interleaving(res)))
        ctx.count("processes", sum(e.kind == "SPAWN" for e in res.ev))

    ctx.pmap(one, ["%d/%d" % (ctx.seed, i) for i in range(ctx.n(260, 6000))])


check.main("P33", body)
