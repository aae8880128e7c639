#!/usr/bin/env python3
"""Ctrl-C and Ctrl-Break at every kind of moment of a build: nothing starts afterwards, nothing is left behind, jom ends at once."""
import os, random, re, shutil, signal, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, work


def makefile(r, long):
    n = r.choice([1, 2, 4, 8, 14])
    deep = r.random() < .4
    mk = "all: " + " ".join("tt%d" % i for i in range(n)) + "\n\t@jt id=all\n"
    keep, total = {}, 0
    for i in range(n):
        mk += "tt%d:%s\n" % (i, " tt%d" % r.randrange(i) if deep and i and r.random() < .4 else "")
        for k in range(r.choice([1, 2, 4])):
            cid = "c%d-%d" % (i, k)
            total += 1
            ops = r.choice(["", "s:%d" % r.choice([1, 5, 20]), "P:%d:50:x" % r.choice([3, 400]), "o:text e:text", "s:%d" % r.choice([2, 10])])
            if long and r.random() < .3:
                ops += " s:30000"
            if r.random() < .08:
                ops += " x:1"
            x = r.random()
            if x < .12:
                mk += "\t-$(MAKE) /NOLOGO /F sub.mak\n"
                total += 3
            elif x < .2:
                mk += "\t@" + r.choice(["set A=1", "cd .", "rem x", "echo hello", "jt id=%s %s > NUL" % (cid, ops)]) + "\n"
            else:
                f = r.random()
                name = "" if f < .7 else "named%s.rsp" % cid
                kp = r.choice(["", "", "NOKEEP", "KEEP"])
                two = r.random() < .2
                pre = r.choice(["@", "-@", "-"])
                mk += "\t%sjt id=%s need:<<%s %s%s\ntext %d\n<<%s\n" % (pre, cid, name, ops, " need:<<" if two else "", i, kp) + ("more\n<<\n" if two else "")
                keep[cid] = kp == "KEEP"
    return mk, keep, total


SUB = "all: s1 s2 s3\n" + "".join("s%d:\n\t@jt id=sub%d need:<< s:%d\nsub\n<<\n" % (i, i, 4 * i) for i in (1, 2, 3))


class Kick:
    """sends the interrupt when the history has reached a certain event"""
    def __init__(self, r, at, group, twice):
        self.at, self.group, self.twice = at, group, twice
        self.sig = r.choice([signal.SIGINT, signal.SIGINT, signal.SIGTERM])
        self.pause = r.choice([0, 0, 0, .0005, .002, .006]) * r.random()
        self.sent = None
        self.spawned = False

    def start(self, p, d):
        threading.Thread(target=self.main, args=(p, d), daemon=True).start()

    def main(self, p, d):
        n = 0
        with open(os.path.join(d, "log"), "rb") as f:
            buf = b""
            end = time.monotonic() + 12
            moved = time.monotonic()
            while n < self.at and p.returncode is None and time.monotonic() < end:
                x = f.read()
                if not x:
                    # nothing happens any more: interrupt it while all commands are running
                    if n and time.monotonic() - moved > .3:
                        break
                    time.sleep(.0002)
                    continue
                moved = time.monotonic()
                buf += x
                ls = buf.split(b"\n")
                buf = ls.pop()
                for l in ls:
                    k = l.split(b" ", 3)
                    if len(k) > 2 and k[2] in (b"SPAWN", b"S", b"E", b"DEATH", b"SEM-WAIT", b"SEM-ACQ", b"SEM-REL"):
                        n += 1
                        self.spawned |= k[2] == b"SPAWN" and int(k[1]) == p.pid
                        if n >= self.at:
                            break
        if self.pause:
            time.sleep(self.pause)
        for k in range(2 if self.twice else 1):
            try:
                if self.group:
                    os.killpg(p.pid, self.sig)
                else:
                    os.kill(p.pid, self.sig)
            except ProcessLookupError:
                return
            if self.sent is None:
                self.sent = time.monotonic()


def case(ctx, J, seed):
    r = random.Random(seed)
    long = r.random() < .4
    mk, keep, total = makefile(r, long)
    files = {"Makefile": mk, "sub.mak": SUB}
    args = ["/NOLOGO", "/J", str(work.jobs(r))] + r.choice([[], [], ["/K"], ["/I"]])
    kick = Kick(r, r.randint(2, max(3, total * 3)), r.random() < .4, r.random() < .15)
    d = J.newdir()
    chaos = (r.randint(1, 10**6), r.choice([1, 2, 8, 9, 11]), r.choice([500, 3000])) if r.random() < .4 else None
    try:
        x = ctx.run(J, files, args, d=d, on_start=kick.start, chaos=chaos, timeout=25, allow_timeout=True, what="interrupted build")
        left = [f for f in os.listdir(os.path.join(d, "w", "TMP")) if f.endswith(".jom")]
        named = [f for f in os.listdir(os.path.join(d, "w")) if f.startswith("named")]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    own = None
    for e in x.ev:
        if e.kind == "SEM-CREATE":
            own = e.pid
            break
    ctl = next((e for e in x.ev if e.kind == "CTRL-EVENT" and e.pid == own), None)
    errs = []
    said = b"terminated by user" in x.err
    if x.timed_out:
        if kick.sent is None:
            ctx.count("never interrupted")
            return
        errs.append("jom does not end after the interrupt")
    elif x.rc == -kick.sig and not kick.spawned:
        ctx.count("interrupted before the handler was installed")
        return
    elif not said and x.rc != -kick.sig:
        if kick.sent is not None and kick.spawned and any(e.kind == "S" and e.t > kick.sent * 1e9 + 1e9 for e in x.ev):
            errs.append("jom ignores the interrupt")
        else:
            ctx.count("ended before the interrupt")
            return
    else:
        if x.rc == -kick.sig:
            errs.append("jom is killed by the interrupt instead of handling it")
        done = any(e.kind == "DEATH" and (not ctl or e.i < ctl.i) and "all" in [s.a[0] for s in x.ev if s.kind == "S" and str(s.pid) == e.a[0]] for e in x.ev)
        if done:
            ctx.count("interrupted when everything was done")
        if x.rc == 0 and not done:
            errs.append("exit code 0 after an interrupt")
        after = [e for e in x.ev if ctl and e.i > ctl.i and e.kind == "SPAWN" and e.pid == own]
        if after:
            errs.append("%d commands started after the interrupt was handled: %s" % (len(after), after[0].raw.split(" cmd=", 1)[-1][:80]))
        mine = [f for f in left if ".%s." % own in f]
        firsts = {}
        for e in x.ev:
            if e.kind == "NEED" and e.a[0] in keep:
                firsts.setdefault(e.a[0], []).append(re.split(r"[\\/]", e.a[1])[-1])
        kept = {f for fs in firsts.values() for f in fs}
        keepers = {fs[0] for c, fs in firsts.items() if keep[c]}
        unknown_keep = any(keep.values())
        for f in mine:
            if f not in keepers and f in kept:
                errs.append("inline file %s left behind" % f)
            elif f not in kept and not unknown_keep:
                errs.append("inline file %s of a command that was not started left behind" % f)
        for f in named:
            c = f[5:-4]
            if c in keep and not keep[c]:
                errs.append("inline file %s left behind" % f)
        for f in keepers:
            if f not in left and f not in named:
                errs.append("inline file %s with KEEP removed" % f)
        ctx.count("inline files seen", len(kept))
        ctx.count("interrupts")
        ctx.count("interrupts by Ctrl-" + ("C" if kick.sig == signal.SIGINT else "Break"))
        ctx.count("interrupts of the whole group" if kick.group else "interrupts of jom alone")
        running = {e.a[0] for e in x.ev if e.kind == "S" and (not ctl or e.i < ctl.i)} - {e.a[0] for e in x.ev if e.kind == "E" and (not ctl or e.i < ctl.i)}
        ctx.maxi("commands running at the interrupt", len(running))
        last = next((e.kind for e in reversed(x.ev[:ctl.i]) if e.kind != "NEED"), "-") if ctl else "-"
        ctx.count("interrupt after " + last)
        ctx.distinct((work.interleaving(x), len(running), last))
        ctx.sample({"makefile": mk[:300], "args": args, "events": len(x.ev), "exit code": x.rc, "running": sorted(running)[:6]}, 3)
    if errs:
        ctx.violation("%s (%s)" % (errs[0], " ".join(args)), replay=ctx.replay_of(x, files, args, errors=errs[:8], seed=seed))


def body(ctx):
    ctx.rule = "an interrupted build with its own history up to the interrupt"
    ctx.assume("the interrupt, Ctrl-C or Ctrl-Break, is a signal that runs jom's console control handler on a thread of its own; commands get it as well when it goes to the whole group")
    ctx.assume("interrupts before jom has installed its handler end it like any program")
    J = ctx.jom()
    ctx.pmap(lambda s: case(ctx, J, s), ["%d/%d" % (ctx.seed, i) for i in range(ctx.n(700, 16000))])


check.main("P35", body)
