#!/usr/bin/env python3
import os, random, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work, simctl, bytestream


def blocks(runs, errs):
    """commands that appear in several pieces are the passed-through ones: no two of them may overlap"""
    span = {}
    for i, (o, n) in enumerate(runs):
        if o in span:
            span[o][1] = i
            span[o][2] += 1
        else:
            span[o] = [i, i, 1]
    multi = sorted((a, b, o) for o, (a, b, c) in span.items() if c > 1)
    for (a, b, o), (a2, b2, o2) in zip(multi, multi[1:]):
        if a2 < b:
            errs.append("the outputs of commands %d and %d are mixed: %s" % (o, o2, runs[a:b2 + 1][:12]))
    return len(multi), len(span)


def free(ctx, J, seed, pause=0):
    """any schedule: contiguity; order of standard output and error for writes with a pause between them"""
    rng = random.Random(seed)
    nt = rng.randint(2, 9)
    jn = rng.choice([1, 2, 2, 3, 4, 8])
    kind = rng.choice(["none", "sleep", "chaos", "chaos"])
    # the order of the two streams is only determined by time stamps of their arrival
    ordered = kind != "chaos" and rng.random() < .4
    pause = pause or 25
    k, mk = 0, "all: %s\n" % " ".join("t%d" % i for i in range(nt))
    want, seq = {}, []
    for i in range(nt):
        deps = " ".join("t%d" % d for d in range(i + 1, nt) if rng.random() < .1)
        mk += "t%d: %s\n" % (i, deps)
        for c in range(rng.choice([1, 1, 2, 3])):
            ops, exp = [], b""
            npieces = rng.choice([1, 2, 3, 5])
            for piece in range(npieces):
                fd = rng.choice([1, 1, 2]) if ordered else 1
                n = rng.choice([1, 5, 50, 3000, 4096, 9000])
                s = rng.randint(1, 2**31)
                ops.append("G:%d:%d:%d:%d:%d:%d" % (k, s, n, n, 0, fd))
                if ordered:
                    ops.append("s:%d" % pause)
                elif kind != "none" or rng.random() < .2:
                    ops.append("s:%d" % rng.choice([0, 0, 1, 3, 8]))
                exp += bytestream.gen(k, s, n)
            pre = ""
            if rng.random() < .15:
                pre = "-"
                ops.append(rng.choice(["x:1", "crash"]))
            mk += "\t%sjt id=c%d %s\n" % (pre, k, " ".join(ops))
            want[k] = exp
            k += 1
            if k >= 39:
                break
        if k >= 39:
            break
    args = ["-nologo", "-s", "-j", str(jn)]
    kw = {}
    if kind == "chaos":
        kw["chaos"] = (rng.randint(1, 10**6), rng.choice([31, 1, 8, 16, 9, 17, 24, 25]), rng.choice([300, 1500, 4000]))
    r = ctx.run(J, {"Makefile": mk}, args, "parallel output", timeout=60, merge=ordered, **kw)
    if r.bad:
        return
    errs = []
    data = r.out
    if not ordered and r.err:
        errs.append("unexpected text on standard error: %s" % r.text_err()[-200:])
    parts, runs = bytestream.demux(data)
    multi, ncmd = blocks(runs, errs)
    for o in sorted(set(parts) | set(want)):
        a, b = parts.get(o, b""), want.get(o, b"")
        if a != b:
            if sorted(a) == sorted(b) and ordered and pause < 400:
                return free(ctx, J, seed, 400)              # too little time between the writes?
            errs.append("output of command c%d is not in the order of its writes: first difference at byte %d of %d (%d written)" % (o, bytestream.first_diff(a, b), len(a), len(b)))
    if jn == 1:
        # the order in which the commands ran is the order of the blocks
        o1 = [o for o, n in runs]
        o2 = [int(x[1:]) for x in r.order() if want.get(int(x[1:]))]
        if o1 != o2:
            errs.append("with one job the blocks appear as %s, the commands ran as %s" % (o1, o2))
    ctx.count("interrupted_commands", multi)
    ctx.count("blocks", len(runs))
    ctx.count("free_ordered" if ordered else "free_" + kind)
    ctx.distinct(hash(tuple(runs)))
    if errs:
        rep = ctx.replay_of(r, {"Makefile": mk}, args, errors=errs, seed=seed, kw=kw)
        rep["out"] = rep["err"] = ""
        ctx.violation("%s (%s, %s)" % (errs[0], " ".join(args), kw), replay=rep)


class OutCtl(simctl.ModelCtl):
    """at every quiescent point all running commands have written something: exactly one of them is visible"""
    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.number, self.head = {}, {}
        self.looks = 0
        self.visible_log = []

    def release(self, cid):
        super().release(cid)

    def policy(self, waiting, ctl, idle):
        n, may = self.expect()
        if not self.giveup and waiting and len(waiting) == n and all(w in may for w in waiting):
            with open(os.path.join(os.path.dirname(ctl.path), "out"), "rb") as f:
                data = f.read()
            parts, _ = bytestream.demux(data)
            vis = [w for w in waiting if parts.get(self.number[w])]
            full = [w for w in vis if parts[self.number[w]] == self.head[w]]
            if len(vis) > 1:
                self.errs.append("output of %d running commands is visible at once: %s" % (len(vis), vis))
                self.giveup = True
            elif not full:
                if idle > self.patience:
                    self.errs.append("none of the running commands %s is passed through" % (waiting,))
                    self.giveup = True
                return None
            else:
                self.looks += 1
        return super().policy(waiting, ctl, idle)


def gated(ctx, J, seed, again=False):
    rng = random.Random(seed)
    while True:
        g = gen.gen_graph(rng, rng.randint(2, 14), ops=lambda _: [], maxcmds=3, forms=("plain", "plain", "call", "chain"))
        if len(work.all_ids(g)) < 39:
            break
    jn = rng.choice([1, 2, 2, 3, 4, 8])
    m = OutCtl(g, jn, rng, patience=20.0 if again else 4.0)
    want = {}
    k = 0
    for t in g.t.values():
        for c in t.cmds:
            n1, n2 = rng.choice([1, 7, 500, 4097, 20000]), rng.choice([0, 1, 300, 5000])
            s1, s2 = rng.randint(1, 2**31), rng.randint(1, 2**31)
            c.ops = ["G:%d:%d:%d:%d:0:1" % (k, s1, n1, n1), "wait"] + (["G:%d:%d:%d:%d:0:%d" % (k, s2, n2, n2, rng.choice([1, 2]))] if n2 else [])
            m.number[c.id] = k
            m.head[c.id] = bytestream.gen(k, s1, n1)
            want[k] = bytestream.gen(k, s1, n1) + bytestream.gen(k, s2, n2)
            k += 1
    mk = gen.render(g, rng, noise=False)
    args = ["-nologo", "-s", "-j", str(jn)]
    kw = {}
    if rng.random() < .3:
        kw["chaos"] = (rng.randint(1, 10**6), rng.choice([1, 8, 16, 31]), rng.choice([300, 1500]))
    r = ctx.run(J, {"Makefile": mk}, args, "gated output", control=m.policy, timeout=90, merge=True, **kw)
    if r.bad:
        return
    errs = list(m.errs)
    if errs and not again and ("none of" in errs[0] or "only" in errs[0]):
        return gated(ctx, J, seed, True)
    parts, runs = bytestream.demux(r.out)
    if not errs:
        blocks(runs, errs)
        for o in sorted(set(parts) | set(want)):
            a, b = parts.get(o, b""), want.get(o, b"")
            # both pieces may come in one burst only if the command was buffered: then the time stamps decide
            if a != b:
                errs.append("output of command %d: first difference at byte %d of %d (%d written)" % (o, bytestream.first_diff(a, b), len(a), len(b)))
        if jn == 1 and [o for o, n in runs] != [m.number[x] for x in r.order()]:
            errs.append("with one job the blocks appear as %s" % [o for o, n in runs])
    if errs and not again and "first difference" in errs[0]:
        return gated(ctx, J, seed, True)
    if r.rc != 0:
        errs.append("exit code %s" % r.rc)
    ctx.count("gated_builds")
    ctx.count("quiescent_points_with_visibility_check", m.looks)
    ctx.distinct(hash(tuple(runs)))
    ctx.sample({"makefile": mk[:1200], "args": args, "runs": runs[:20]}, 2)
    if errs:
        rep = ctx.replay_of(r, {"Makefile": mk}, args, errors=errs, seed=seed, kw=kw)
        rep["out"] = rep["err"] = ""
        ctx.violation("%s (%s, %s)" % (errs[0], " ".join(args), kw), replay=rep)


def exact(ctx, J, seed):
    """one job: after every single write of a command, exactly what has been written so far is visible"""
    rng = random.Random(seed)
    nt = rng.randint(1, 4)
    script, mk, k = [], "all: %s\n" % " ".join("t%d" % i for i in range(nt)), 0
    for i in range(nt):
        mk += "t%d:\n" % i
        for c in range(rng.choice([1, 2])):
            ops = []
            for w in range(rng.randint(1, 4)):
                n, s = rng.choice([1, 10, 1000, 4096, 12000]), rng.randint(1, 2**31)
                ops += ["G:%d:%d:%d:%d:0:%d" % (k, s, n, n, rng.choice([1, 2])), "wait"]
                script.append(bytestream.gen(k, s, n))
            mk += "\tjt id=c%d %s\n" % (k, " ".join(ops))
            k += 1
    st = {"n": 0, "err": None}

    def pol(waiting, ctl, idle):
        if st["err"]:
            return waiting[0]
        with open(os.path.join(os.path.dirname(ctl.path), "out"), "rb") as f:
            data = f.read()
        want = b"".join(script[:st["n"] + 1])
        if data == want:
            st["n"] += 1
            return waiting[0]
        if not want.startswith(data):
            st["err"] = "write %d: the output differs at byte %d" % (st["n"], bytestream.first_diff(data, want))
            return waiting[0]
        if idle > 15:
            st["err"] = "write %d does not appear while the command runs (%d of %d bytes)" % (st["n"], len(data), len(want))
            return waiting[0]
        return None
    args = ["-nologo", "-s", "-j", "1"]
    kw = {}
    if rng.random() < .4:
        kw["chaos"] = (rng.randint(1, 10**6), rng.choice([1, 8, 16, 31]), rng.choice([300, 1500]))
    r = ctx.run(J, {"Makefile": mk}, args, "stepwise output", control=pol, timeout=90, merge=True, **kw)
    if r.bad:
        return
    err = st["err"] or ("%d of %d writes seen" % (st["n"], len(script)) if st["n"] != len(script) else None) or \
        ("the final output differs" if r.out != b"".join(script) else None)
    ctx.count("stepwise_writes_checked", st["n"])
    ctx.distinct(hash(mk))
    if err:
        rep = ctx.replay_of(r, {"Makefile": mk}, args, errors=[err], seed=seed, kw=kw)
        rep["out"] = rep["err"] = ""
        ctx.violation("%s (%s, %s)" % (err, " ".join(args), kw), replay=rep)


def body(ctx):
    ctx.rule = ("builds whose commands write attributable bytes; free schedules: outputs of two commands may not be mixed; gated: at every quiescent point exactly one running command's output "
                "is visible; stepwise: with one job every single write appears before the next one is made; distinct by the sequence of runs in the output")
    ctx.assume("standard output and error of one command are two pipes: their relative order is only checked for writes that are 25 ms (second attempt 400 ms) apart or separated by a gate")
    J = ctx.jom()
    n = ctx.n(260, 4000)
    cs = [(free, ctx.rng.random()) for _ in range(n)] + [(gated, ctx.rng.random()) for _ in range(n // 2)] + [(exact, ctx.rng.random()) for _ in range(n // 3)]
    ctx.rng.shuffle(cs)
    ctx.pmap(lambda c: c[0](ctx, J, c[1]), cs)


check.main("P13", body)
