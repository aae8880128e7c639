#!/usr/bin/env python3
"""Hostile inputs: coverage-guided in-process fuzzing, mutated inputs for the whole program, deep and long structures."""
import os, random, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build, check, hostile

HARNESS = os.path.join(build.VERIF, "harness", "fuzz_make.cpp")
REFS = re.compile(rb"\$(\([^@*<?]|[^@*<?$\n(])")


def affordable(*texts):
    """values that refer to each other several times per line take exponential time by definition"""
    n = 1
    for t in texts:
        for l in t.replace(b"\\\n", b" ").split(b"\n"):
            n *= max(1, len(REFS.findall(l)))
    return n <= 200000


def split(b):
    p = b.split(b"\x1e", 4)
    return p + [b""] * (5 - len(p))


def args_of(b):
    """as the in-process target reads them"""
    out = []
    for a in b.decode("utf-8", "replace").replace("\0", "").split("\n"):
        if a and not (a[0] in "/-" and "x" in a.lower()):
            out.append(a)
    return out


def env_of(b):
    e = {}
    for l in b.decode("utf-8", "replace").replace("\0", "").split("\n"):
        k, eq, v = l.partition("=")
        if eq and k and not re.match(r"(?i)(vshim|ld_|asan|ubsan|qt_|path$|lc_|comspec|tz$|home$)", k):
            e[k] = v
    return e


def big_j(args):
    """job counts that mean hundreds of threads are left to P31's limits"""
    for i, a in enumerate(args):
        m = re.match(r"(?i)[/-][a-z]*j\s*\"?(\S*)", a)
        if m:
            v = m.group(1) or (args[i + 1] if i + 1 < len(args) else "")
            if re.match(r"\D*[1-9]\d\d", v) or re.search(r"(?i)0x", v):
                return True
    return False


def whole(ctx, J, mk, inc, args, env, rsp, what, rerun_slow=True):
    files = {"Makefile": mk, "inc.mak": inc, "cmd.rsp": rsp}
    files.update((f, f) for f in hostile.FILES)
    r = ctx.run(J, files, args, env=env, noexec=True, timeout=40, what=what)
    ctx.count("exit code %s" % r.rc)
    if r.bad:
        return r
    if r.rc not in (0, 1, 2, 128):
        ctx.violation("%s: exit code %s, which jom never uses" % (what, r.rc), replay=ctx.replay_of(r, files, args, env=env))
    elif r.rc and not r.out.strip() and not r.err.strip():
        ctx.violation("%s: jom gives up with exit code %d without saying anything" % (what, r.rc), replay=ctx.replay_of(r, files, args, env=env))
    ctx.distinct(("w", r.rc, re.sub(rb"[\d'\"].*", b"", (r.err.strip().splitlines() or [b""])[-1])[:40].decode("latin-1"), tuple(sorted({e.kind for e in r.ev}))))
    return r


def mutated(ctx, J, seed):
    r = random.Random(seed)
    enc = r.choice(["utf-8", "utf-8", "utf-8", "latin-1", "utf-16-le", "utf-16-be", "utf-8-sig"])
    mk = hostile.makefile(r)
    mk = hostile.mutate(r, mk.encode(enc, "replace"))
    if enc.startswith("utf-16") and r.random() < .8:
        mk = ("\ufeff".encode(enc)) + mk
    if r.random() < .2:
        mk = mk.replace(b"\n", b"\r\n")
    if r.random() < .15:
        mk = mk[:r.randrange(len(mk) + 1)]
    inc = hostile.mutate(r, hostile.makefile(r).encode()) if r.random() < .4 else b""
    args = [x for a in hostile.some(r, hostile.ARGS, .6) for x in a.split("\n")]
    env = env_of("\n".join(hostile.some(r, hostile.ENV, .5)).encode())
    rsp = hostile.mutate(r, " ".join(a.replace("\n", " ") for a in hostile.some(r, hostile.ARGS, .4)).encode())
    args = [a for a in args if "\0" not in a and not (a[:1] in ("/", "-") and "x" in a.lower())]
    if not affordable(mk, inc) or big_j(args) or re.search(rb"(?i)[/-]\w*[jx]", rsp):
        ctx.count("skipped")
        return
    ctx.count("mutated_inputs")
    if r.random() < .5:
        args.append(r.choice(["/A", "/N", "/NOLOGO", "/K", "/P"]))
    res = whole(ctx, J, mk, inc, args, env, rsp, "mutated input %s" % seed)
    ctx.sample({"makefile": mk[:300].decode("latin-1"), "args": args, "rc": res.rc, "last line": res.err[-150:].decode("latin-1")}, 3)


def deep(n):
    """structures with n levels or n elements"""
    a = range(n)
    yield "builtins", "all:\n" + "\t@set A=1\n" * n, [], {}, None
    yield "comments", "all:\n" + "\trem x\n" * n, [], {}, None
    yield "commands of a dry run", "all:\n" + "\tjt x\n" * n, ["/N"], {}, n
    yield "chain", "".join("tt%d: tt%d\n\t@rem x\n" % (i, i + 1) for i in a) + "tt%d:\n" % n, [], {}, None
    yield "chain in reverse", "all: tt0\n" + "".join("tt%d: tt%d\n\t@rem x\n" % (i, i + 1) for i in reversed(a)) + "tt%d:\n" % n, ["/N"], {}, None
    yield "graph dump", "".join("tt%d: tt%d\n" % (i, i + 1) for i in a) + "tt%d:\n" % n, ["/DUMPGRAPH"], {}, None
    yield "dot dump", "".join("tt%d: tt%d\n" % (i, i + 1) for i in a) + "tt%d:\n" % n, ["/DUMPGRAPHDOT"], {}, None
    yield "macro chain", "".join("A%d=$(A%d)\n" % (i, i + 1) for i in a) + "A%d=x\nall:\n\tjt $(A0)\n" % n, ["/N"], {}, 1
    yield "nested macro names", "all:\n\tjt " + "$(" * n + ")" * n + "\n", ["/N"], {}, None
    yield "nested !IF", "!IF 1\n" * n + "!ENDIF\n" * n + "all:\n\tjt\n", ["/N"], {}, 1
    yield "nested untaken !IF", "!IF 0\n" * n + "!ENDIF\n" * n + "all:\n\tjt\n", ["/N"], {}, 1
    yield "parentheses", "!IF " + "(" * n + "1" + ")" * n + "\n!ENDIF\nall:\n\tjt\n", ["/N"], {}, None
    yield "!!!!", "!IF " + "!" * n + "1\n!ENDIF\nall:\n\tjt\n", ["/N"], {}, None
    yield "----", "!IF " + "-" * n + "1\n!ENDIF\nall:\n\tjt\n", ["/N"], {}, None
    yield "|| chain", "!IF " + "0 || " * n + "1\n!ENDIF\nall:\n\tjt\n", ["/N"], {}, None
    yield "includes", "!INCLUDE i0\nall:\n\tjt\n", ["/N"], dict([("i%d" % i, "!INCLUDE i%d\n" % (i + 1)) for i in a] + [("i%d" % n, "")]), None
    yield "include of itself", "!INCLUDE i0\n", ["/N"], {"i0": "!INCLUDE i0\n"}, None
    yield "mutual includes", "!INCLUDE i0\n", ["/N"], {"i0": "!INCLUDE i1\n", "i1": "!INCLUDE i0\n"}, None
    yield "long line", "all:\n\tjt " + "x" * n * 100 + "\n", ["/N"], {}, 1
    yield "long target name", "x" * n * 50 + ":\n\tjt\n", ["/N"], {}, 1
    yield "long macro name", "x" * n * 50 + "=1\nall:\n\tjt $(" + "x" * n * 50 + ")\n", ["/N"], {}, 1
    yield "continued value", "A=" + "x\\\n" * n + "\n\nall:\n\tjt $(A)\n", ["/N"], {}, 1
    yield "continued command", "all:\n\tjt " + "x\\\n" * n + "\n", ["/N"], {}, None
    yield "continued without end", "all:\n\tjt " + "x\\\n" * n + "\\", ["/N"], {}, None
    yield "many dependents", "all: " + " ".join("ff%d" % i for i in a) + "\n\tjt $**\n" + " ".join("ff%d" % i for i in a) + ":\n", ["/N"], {}, 1
    yield "many targets", "all: " + " ".join("ff%d" % i for i in a) + "\n\tjt $**\n" + "".join("ff%d:\n\t@rem x\n" % i for i in a), ["/J", "4"], {}, None
    yield "many macros", "".join("A%d=%d\n" % (i, i) for i in a) + "all:\n\tjt\n", ["/N", "/P"], {}, None
    yield "many rules", ".SUFFIXES:\n.SUFFIXES: " + " ".join(".e%d" % i for i in a) + "\n" + "".join(".e%d.e%d:\n\tjt\n" % (i, i + 1) for i in range(n - 1)) + "x.e%d:\n" % (n - 1), ["/N"], {"x.e0": ""}, None
    yield "many inline files", "all:\n\tjt" + " <<" * n + "\n" + "x\n<<\n" * n, ["/N"], {}, None
    yield "macros in a circle", "".join("A%d=$(A%d)\n" % (i, (i + 1) % n) for i in a) + "all:\n\tjt $(A0)\n", ["/N"], {}, "fails"
    yield "cycle", "".join("tt%d: tt%d\n" % (i, (i + 1) % n) for i in a), ["/N"], {}, "fails"
    yield "diamonds", "".join("aa%d bb%d: aa%d bb%d\n" % (i, i, i + 1, i + 1) for i in range(min(n, 400))) + "aa%d bb%d:\n\tjt\n" % (min(n, 400), min(n, 400)), ["/N"], {}, None
    yield "long argument", "all:\n\tjt\n", ["/N", "X=" + "y" * min(n * 50, 100000)], {}, 1
    yield "many arguments", "all:\n\tjt\n", ["/N"] + ["X%d=%d" % (i, i) for i in range(min(n, 5000))], {}, 1
    yield "many goals", "all:\n\tjt\n", ["/N"] + ["all"] * min(n, 300), {}, None
    yield "command files", "all:\n\tjt\n", ["/N", "@c"], {"c": " ".join("X%d=%d" % (i, i) for i in a)}, 1
    yield "no newline at the end", "all:\n\tjt x", ["/N"], {}, 1
    yield "empty file", "", ["/N"], {}, None
    yield "empty lines", "\n" * n * 100 + "all:\n\tjt\n", ["/N"], {}, 1
    yield "zero bytes", "\0" * n + "\nall:\n\tjt\n", ["/N"], {}, None
    yield "comments only", "#x\n" * n, ["/N"], {}, None


def deep_case(ctx, J, case):
    n, (name, mk, args, files, expect) = case
    what = "%d * %s" % (n, name)
    files = dict(files, Makefile=mk)
    r = ctx.run(J, files, ["/NOLOGO"] + args, timeout=60, noexec=True, what=what)
    ctx.count("deep_structures")
    ctx.distinct(("d", name, r.rc))
    if r.bad:
        return
    fails = "fails" == expect
    if r.rc not in (0, 1, 2, 128) or (r.rc and not r.err.strip()):
        ctx.violation("%s: exit code %s without a message" % (what, r.rc), replay=ctx.replay_of(r, {}, args))
    elif fails != bool(r.rc) and expect is not None:
        ctx.violation("%s: exit code %s: %s" % (what, r.rc, r.text_err()[-200:]), replay=ctx.replay_of(r, {}, args))
    elif isinstance(expect, int) and expect > 0 and r.text_out().count("\tjt") != expect:
        ctx.violation("%s: %d instead of %d commands displayed" % (what, r.text_out().count("\tjt"), expect), replay=ctx.replay_of(r, {}, args))


class Fuzz:
    """workers of the in-process target with fixed seeds"""
    def __init__(self, ctx, workers, runs, seconds):
        self.ctx, self.p = ctx, []
        self.seconds = seconds
        try:
            self.bin = build.build("fuzz", "fuzz_make", HARNESS)
        except build.BuildError as e:
            # the target uses the library's interfaces; a tree with other interfaces is judged by the whole program alone
            ctx.inconclusive.append("the in-process target does not build: " + str(e)[-300:])
            ctx.count("in-process target unavailable")
            return
        self.d = tempfile.mkdtemp(prefix="jomfz-", dir="/tmp")
        with open(self.d + "/dict", "w") as f:
            f.write(hostile.dictionary())
        for w in range(workers):
            wd = os.path.join(self.d, "w%d" % w)
            os.makedirs(wd + "/run/src")
            os.makedirs(wd + "/corpus")
            os.makedirs(wd + "/art")
            for f in hostile.FILES:
                open(os.path.join(wd, "run", f), "w").close()
            r = random.Random("fuzz/%d/%d" % (ctx.seed, w))
            for i in range(300):
                with open(wd + "/corpus/s%03d" % i, "wb") as f:
                    f.write(hostile.packed(r))
            env = {"PATH": "/usr/bin:/bin", "VSHIM_ROOT": wd, "VSHIM_NOEXEC": "1", "VSHIM_BIN": self.bin, "FUZZ_DIR": wd + "/run", "QT_NO_GLIB": "1", "LC_ALL": "C.UTF-8", "HOME": wd, "TMP": wd,
                   "ASAN_OPTIONS": "detect_leaks=0:handle_abort=1:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}
            log = open(wd + "/log", "wb")
            self.p.append((wd, env, subprocess.Popen(
                [os.path.join(self.bin, "fuzz_make"), "-seed=%d" % (ctx.seed * 100 + w + 1), "-max_len=2500", "-dict=" + self.d + "/dict", "-timeout=40", "-rss_limit_mb=2500", "-runs=%d" % runs,
                 "-max_total_time=%d" % seconds, "-artifact_prefix=" + wd + "/art/", "-detect_leaks=0", "-close_fd_mask=1", "-print_final_stats=1", wd + "/corpus"],
                cwd=wd, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log, start_new_session=True)))

    def finish(self, J):
        try:
            for wd, env, p in self.p:
                try:
                    p.wait(self.seconds + 120)
                except subprocess.TimeoutExpired:
                    self.ctx.inconclusive.append("a fuzzing worker did not end in time")
                    os.killpg(p.pid, 9)
                    p.wait()
                with open(wd + "/log", "rb") as f:
                    log = f.read().decode("utf-8", "replace")
                m = re.search(r"stat::number_of_executed_units:\s*(\d+)", log)
                if not m:
                    m = re.findall(r"^#(\d+)\s", log, re.M)
                    n = int(m[-1]) if m else 0
                else:
                    n = int(m.group(1))
                self.ctx.count("in_process_inputs", n)
                self.ctx.count("executions", n)
                if p.returncode and not os.listdir(wd + "/art"):
                    self.ctx.inconclusive.append("a fuzzing worker ended with %s: %s" % (p.returncode, log[-300:]))
                c = re.findall(r"cov: (\d+) ft: (\d+)", log)
                if c:
                    self.ctx.maxi("in_process_edges_covered", int(c[-1][0]))
                    self.ctx.maxi("in_process_features", int(c[-1][1]))
                    for k in range(0, int(c[-1][0]), 1):
                        self.ctx.distinct("edge %d" % k)
                for a in sorted(os.listdir(wd + "/art")):
                    self.artifact(J, wd, env, os.path.join(wd, "art", a), log)
        finally:
            if self.p:
                shutil.rmtree(self.d, ignore_errors=True)

    def artifact(self, J, wd, env, path, log):
        """an input that the in-process target stumbled over is judged by the whole program"""
        ctx = self.ctx
        with open(path, "rb") as f:
            b = f.read()
        mk, inc, a, e, rsp = split(b)
        report = check.first_line("\n".join(l for l in log.splitlines() if re.search(r"ERROR: |runtime error:|ASSERT", l)) or log[-300:])
        before = len(ctx.viol)
        args, env2 = args_of(a), env_of(e)
        for extra in ([], ["/A"], ["/N"], ["/A", "/K"]):
            whole(ctx, J, mk, inc, [x for x in args if "\0" not in x] + extra, env2, rsp, "fuzzed input (in-process report: %s)" % report)
            if len(ctx.viol) > before:
                return
        keep = os.path.join(build.BUILD, "replay", "P32-fuzz-%d-%s" % (ctx.seed, os.path.basename(path)))
        shutil.copy(path, keep)
        ctx.inconclusive.append("in-process report which the whole program does not confirm: %s (%s)" % (report, keep))
        ctx.count("unconfirmed in-process reports")


def body(ctx):
    ctx.rule = "an input with its own exit code, kind of message and kinds of events, or a code edge reached by the in-process target"
    J = ctx.jom("asan")
    fz = Fuzz(ctx, 3 if ctx.tier == "quick" else 5, ctx.n(6000, 10**9), ctx.n(20, 560))
    workers = 5 if ctx.tier == "quick" else 3
    sizes = [40, 1000] if ctx.tier == "quick" else [3, 100, 1000, 2000]
    ctx.pmap(lambda c: deep_case(ctx, J, c), [(n, c) for n in sizes for c in deep(n)], workers)
    ctx.pmap(lambda s: mutated(ctx, J, s), ["%d/%d" % (ctx.seed, i) for i in range(ctx.n(900, 20000))], workers)
    fz.finish(J)
    ctx.assume("at most 2000 levels of nesting (includes, chains of targets, parentheses, macros) and 2000 commands per target: jom descends recursively; and macros whose expansion stays below 200000 references")
    ctx.assume("/X, which redirects the error stream, and job counts above 99 are left out here; commands are not executed, only recorded")


check.main("P32", body)
