"""Runs the real jom (linked against the stand-in) in a scratch directory and turns the run into an event history."""
import os, re, select, shutil, signal, socket, subprocess, sys, tempfile, threading, time
from urllib.parse import unquote

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

SAN_RE = re.compile(rb"ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|AddressSanitizer:DEADLYSIGNAL|"
                    rb"ERROR: LeakSanitizer|ASSERT(?: failure)?[: ]|UndefinedBehaviorSanitizer|ThreadSanitizer:DEADLYSIGNAL")


class Ev:
    __slots__ = ("i", "t", "pid", "kind", "a", "raw")

    def __init__(self, i, line):
        p = line.split(" ", 3)
        self.i, self.t, self.pid, self.kind = i, int(p[0]), int(p[1]), p[2]
        self.raw = p[3] if len(p) > 3 else ""
        self.a = [unquote(x) if x != "%" else "" for x in self.raw.split(" ")]

    def __repr__(self):
        return "%d.%06d %d %s %s" % (self.t // 10**9 % 1000, self.t // 1000 % 10**6, self.pid, self.kind, self.raw[:200])


class Run:
    """one finished execution"""
    def starts(self):
        return [e for e in self.ev if e.kind == "S"]

    def ends(self):
        return [e for e in self.ev if e.kind == "E"]

    def order(self):
        return [e.a[0] for e in self.ev if e.kind == "S"]

    def text_out(self):
        return self.out.decode("utf-8", "replace")

    def text_err(self):
        return self.err.decode("utf-8", "replace")

    def sanitizer(self):
        m = SAN_RE.search(self.err)
        if m:
            return self.err[max(0, m.start() - 200):m.start() + 4000].decode("utf-8", "replace")
        if self.rc is not None and (self.rc < 0 and not self.timed_out and not self.killed):
            return "jom died of signal %d" % -self.rc
        return None

    def cmds(self):
        """history per command execution: dict pid -> (id, start index, end index or None, code)"""
        r = {}
        for e in self.ev:
            if e.kind == "S":
                r[e.pid] = [e.a[0], e.i, None, None, e]
            elif e.kind == "E" and e.pid in r:
                r[e.pid][2] = e.i
                r[e.pid][3] = e.a[1]
        return r


SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99"}


class Jom:
    def __init__(self, variant="asan", scratch=None):
        self.variant = variant
        self.bin = B.build(variant)
        self.exe = os.path.join(self.bin, "jom")
        self.own = scratch is None
        self.base = os.path.realpath(scratch or tempfile.mkdtemp(prefix="jomv-", dir="/tmp"))
        self.n = 0
        self.lock = threading.Lock()
        self.total_runs = 0
        self.total_events = 0

    def close(self):
        if self.own:
            shutil.rmtree(self.base, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def newdir(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.base, "r%d" % self.n)
        os.makedirs(os.path.join(d, "w"))
        return d

    def run(self, files, args=(), env=None, timeout=25, chaos=None, keep=False, setup=None, control=None, noexec=False,
            cwd="", merge=False, on_start=None, hard_env=None, d=None, tty_in=False):
        """files: {relative name: bytes|str|(content, mtime)}; returns a Run"""
        reuse = d is not None
        d = d or self.newdir()
        w = os.path.join(d, "w")
        for name, c in (files or {}).items():
            p = os.path.join(w, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            mt = None
            if isinstance(c, tuple):
                c, mt = c
            with open(p, "wb") as f:
                f.write(c.encode("utf-8") if isinstance(c, str) else c)
            if mt is not None:
                os.utime(p, (mt, mt))
        if setup:
            setup(w)
        log = os.path.join(d, "log")
        open(log, "w").close()
        sem = os.path.join(d, "sem")
        os.makedirs(sem, exist_ok=True)
        tmp = os.path.join(w, "TMP")
        os.makedirs(tmp, exist_ok=True)
        e = {"VSHIM_LOG": log, "VSHIM_ROOT": w, "VSHIM_BIN": self.bin, "VSHIM_SEMDIR": sem, "PATH": self.bin,
             "ComSpec": "minicmd", "TMP": tmp, "TEMP": tmp, "LC_ALL": "C.UTF-8", "TZ": "UTC", "SystemRoot": "C:\\Windows",
             "HOME": w, "QT_NO_GLIB": "1"}   # Qt's own event dispatcher, which sends pending posted events in nested loops as the one for Windows does
        e.update(SAN_ENV)
        if self.variant == "tsan":
            e["TSAN_OPTIONS"] = "suppressions=%s:exitcode=66:halt_on_error=0:ignore_noninstrumented_modules=1:history_size=4" % \
                os.path.join(B.VERIF, "lib", "tsan.supp")
        if chaos:
            e["VSHIM_CHAOS"] = "%d,%d,%d" % chaos
        if noexec:
            e["VSHIM_NOEXEC"] = "1"
        if env:
            e.update(env)
        ctl = None
        if control:
            ctl = Controller(os.path.join(d, "ctl"), log, control)
            e["VSHIM_CTL"] = ctl.path
        if hard_env is not None:
            e = hard_env(e)
        r = Run()
        r.dir, r.w, r.args = d, w, list(args)
        r.killed = False
        fo = open(os.path.join(d, "out"), "wb")
        fe = fo if merge else open(os.path.join(d, "err"), "wb")
        t0 = time.monotonic()
        p = subprocess.Popen([self.exe] + list(args), cwd=os.path.join(w, cwd), env=e, stdin=subprocess.DEVNULL, stdout=fo,
                             stderr=fe, start_new_session=True)
        if ctl:
            ctl.begin(p)
        if on_start:
            on_start(p, d)
        try:
            p.wait(timeout)
            r.timed_out = False
        except subprocess.TimeoutExpired:
            r.timed_out = True
        r.wall = time.monotonic() - t0
        r.alive_after = []
        if not r.timed_out:
            # commands that jom started and that are still running although jom is gone
            r.alive_after = self._alive(log)
            with open(log, "a") as f:
                f.write("%d 0 JOM-EXIT\n" % time.monotonic_ns())
        else:
            r.stacks = ""
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        r.rc = p.wait()
        if ctl:
            ctl.stop()
            r.ctl = ctl
        fo.close()
        fe.close()
        with open(os.path.join(d, "out"), "rb") as f:
            r.out = f.read()
        if merge:
            r.err = b""
        else:
            with open(os.path.join(d, "err"), "rb") as f:
                r.err = f.read()
        with open(log, encoding="utf-8", errors="replace") as f:
            r.ev = []
            for l in f:
                l = l.rstrip("\n")
                try:
                    r.ev.append(Ev(len(r.ev), l))
                except (ValueError, IndexError):
                    pass
        with self.lock:
            self.total_runs += 1
            self.total_events += len(r.ev)
        if not keep and not reuse:
            shutil.rmtree(d, ignore_errors=True)
        return r

    @staticmethod
    def _alive(log):
        """commands (jt) without an end record whose process still exists"""
        open_ = {}
        with open(log, encoding="utf-8", errors="replace") as f:
            for l in f:
                p = l.split(" ", 4)
                if len(p) < 4:
                    continue
                if p[2] == "S":
                    open_[int(p[1])] = p[3].strip()
                elif p[2] == "E":
                    open_.pop(int(p[1]), None)
                elif p[2] == "SPAWN":
                    open_.setdefault(int(p[3].strip()), "spawned")
                elif p[2] == "DEATH":
                    open_.pop(int(p[3].strip()), None)
        r = []
        for pid, i in open_.items():
            try:
                with open("/proc/%d/stat" % pid) as f:
                    st = f.read().rsplit(")", 1)[1].split()
                if st[0] != "Z" and st[0] != "X":
                    r.append((pid, i))
            except (OSError, IndexError):
                pass
        return r


class Controller:
    """Holds every command at its 'wait' step and releases them as the policy says.

    policy(waiting: list of ids in order of arrival, ctl) -> id to release, or None to keep waiting for more arrivals."""
    def __init__(self, path, log, policy):
        self.path, self.policy = path, policy
        if len(path) > 100:
            raise RuntimeError("controller path too long")
        self.srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.srv.bind(path)
        self.srv.listen(64)
        self.trace = []          # ("arrive"|"release", id, time)
        self.snap = []           # waiting sets at release points
        self._stop = False

    def begin(self, proc):
        self.proc = proc
        self.th = threading.Thread(target=self._main, daemon=True)
        self.th.start()

    def _main(self):
        conns = {}               # sock -> id (None until read)
        waiting = []             # (id, sock)
        last_change = time.monotonic()
        while not self._stop:
            rl = [self.srv] + [c for c, i in conns.items() if i is None]
            try:
                ready, _, _ = select.select(rl, [], [], 0.002)
            except (OSError, ValueError):
                break
            for s in ready:
                if s is self.srv:
                    c, _ = self.srv.accept()
                    conns[c] = None
                else:
                    data = b""
                    while not data.endswith(b"\n"):
                        k = s.recv(256)
                        if not k:
                            break
                        data += k
                    conns[s] = data.decode().strip()
                    waiting.append((conns[s], s))
                    self.trace.append(("arrive", conns[s], time.monotonic()))
                    last_change = time.monotonic()
            if waiting:
                pick = self.policy([i for i, _ in waiting], self, time.monotonic() - last_change)
                if pick is not None:
                    for k, (i, s) in enumerate(waiting):
                        if i == pick:
                            self.snap.append(tuple(x for x, _ in waiting))
                            self.trace.append(("release", i, time.monotonic()))
                            try:
                                s.send(b"g")
                            except OSError:
                                pass
                            s.close()
                            del conns[s]
                            waiting.pop(k)
                            last_change = time.monotonic()
                            break
        for c in conns:
            c.close()

    def stop(self):
        self._stop = True
        self.th.join(5)
        self.srv.close()
