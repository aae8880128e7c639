#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import check, gen, work, bytestream

SIZES = [1, 2, 10, 100, 1000, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 40000, 65535, 65536, 65537, 100000, 300000]


def case(ctx, J, seed):
    rng = random.Random(seed)
    kind = rng.choice(["none", "chaos", "chaos", "chaos", "sleep"])
    nt = rng.randint(1, 7)
    jn = rng.choice([1, 2, 2, 3, 4, 8])
    k = 0
    mk = "all: %s\n" % " ".join("t%d" % i for i in range(nt))
    want = {1: {}, 2: {}}
    total = 0
    for i in range(nt):
        deps = " ".join("t%d" % d for d in range(i + 1, nt) if rng.random() < .1)
        mk += "t%d: %s\n" % (i, deps)
        for c in range(rng.choice([1, 1, 2, 3])):
            if k >= 40:
                break
            ops, exp = [], {1: b"", 2: b""}
            streams = []
            for piece in range(rng.choice([0, 1, 1, 2, 4])):
                fd = rng.choice([1, 1, 1, 2])
                n = rng.choice(SIZES) if rng.random() < .7 else rng.randint(1, 3000)
                if total > 600000:
                    n = min(n, 500)
                total += n
                chunk = rng.choice([n, n, 1 if n < 200 else 997, 4096, 300 if n < 9000 else 30000])
                us = 0 if n / max(1, chunk) > 60 else rng.choice([0, 0, 0, 200, 1500])
                s = rng.randint(1, 2**31)
                ops.append("G:%d:%d:%d:%d:%d:%d" % (k, s, n, chunk, us, fd))
                exp[fd] += bytestream.gen(k, s, n)
                if rng.random() < .2:
                    ops.append("s:%d" % rng.choice([1, 5]))
            if kind == "sleep" and rng.random() < .5:
                ops.insert(rng.randint(0, len(ops)), "s:%d" % rng.choice([1, 3, 10]))
            pre = ""
            end = rng.choice(["", "", "", "x:1", "crash", "x:259", "closeout"])
            if end:
                pre = "-"
                ops.append(end)
            for fd in (1, 2):
                if exp[fd]:
                    want[fd][k] = exp[fd]
            cmd = "jt id=c%d %s" % (k, " ".join(ops))
            cmd = rng.choice(["%s", "%s", "%s", "call %s", "if exist Makefile %s", "jt x:0 && %s"]) % cmd
            mk += "\t%s%s\n" % (pre, cmd)
            k += 1
    args = ["-nologo", "-s", "-j", str(jn)]
    kw = {}
    if kind == "chaos":
        kw["chaos"] = (rng.randint(1, 10**6), rng.choice([31, 1, 8, 16, 9, 17, 24, 25]), rng.choice([300, 1500, 4000]))
    r = ctx.run(J, {"Makefile": mk}, args, "output", timeout=60, **kw)
    if r.bad:
        return
    errs = []
    if r.rc != 0:
        errs.append("exit code %s: %s" % (r.rc, r.err[-200:]))
    for fd, data in ((1, r.out), (2, r.err)):
        name = "stdout" if fd == 1 else "stderr"
        parts, runs = bytestream.demux(data)
        for o in sorted(set(parts) | set(want[fd])):
            a, b = parts.get(o, b""), want[fd].get(o, b"")
            if a != b:
                i = bytestream.first_diff(a, b)
                errs.append("%s of command c%d: %d bytes arrived of %d written, first difference at byte %d" % (name, o, len(a), len(b), i))
        ctx.count("bytes_compared", len(data))
        ctx.distinct((hash(tuple(runs)), fd))
    ctx.count("commands_with_output", k)
    ctx.count("kind_" + kind)
    ctx.sample({"makefile": mk[:1500], "args": args, "kind": kind}, 2)
    if errs:
        rep = ctx.replay_of(r, {"Makefile": mk}, args, errors=errs, seed=seed, kw=kw)
        rep["out"] = rep["err"] = ""
        ctx.violation("%s (%s, %s)" % (errs[0], " ".join(args), kw), replay=rep)


def body(ctx):
    ctx.rule = ("commands that write generated bytes (every byte value, sizes around pipe and buffer limits, to both streams, in chunks with pauses, then exit, crash or close); "
                "each byte of jom's streams is attributed to its command and compared with what was written; distinct by the sequence of runs in the stream")
    J = ctx.jom()
    ctx.pmap(lambda s: case(ctx, J, s), [ctx.rng.random() for _ in range(ctx.n(400, 6000))])


check.main("P12", body)
