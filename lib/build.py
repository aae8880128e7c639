"""Builds jom from /repo's working tree with the native Win32 stand-in, under sanitizers.

Every object is keyed by the content of all sources, headers, shim files and flags, and cached in /verif/build
(git-ignored); nothing is ever written to /repo.
"""
import hashlib, os, re, subprocess, sys, fcntl, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
SHIM = os.path.join(VERIF, "shim")
QTINC = "/usr/include/x86_64-linux-gnu/qt5"

WIN_DEFS = """-D_GNU_SOURCE -DWINE_UNICODE_NATIVE -D_REENTRANT -DWIN64 -D_WIN64 -D__WIN64 -D__WIN64__ -DWIN32 -D_WIN32
-D__WIN32 -D__WIN32__ -D__WINNT -D__WINNT__ -D__stdcall=__attribute__((ms_abi)) -D__cdecl=__stdcall -D__fastcall=__stdcall
-D_stdcall=__stdcall -D_cdecl=__cdecl -D_fastcall=__fastcall -D__declspec(x)=__declspec_##x
-D__declspec_align(x)=__attribute__((aligned(x))) -D__declspec_allocate(x)=__attribute__((section(x)))
-D__declspec_deprecated=__attribute__((deprecated)) -D__declspec_dllimport= -D__declspec_dllexport=
-D__declspec_naked=__attribute__((naked)) -D__declspec_noinline=__attribute__((noinline))
-D__declspec_noreturn=__attribute__((noreturn)) -D__declspec_nothrow=__attribute__((nothrow)) -D__declspec_novtable=
-D__declspec_selectany=__attribute__((weak)) -D__declspec_thread=__thread -D__int8=char -D__int16=short -D__int32=int
-D__int64=long -D__WINE__ -isystem /usr/include/wine/wine/windows -idirafter /usr/include/wine -fshort-wchar""".split()
QT_FLAGS = ["-isystem", QTINC, "-isystem", QTINC + "/QtCore", "-isystem", "/usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++",
            "-DQT_CORE_LIB", "-DQT_NO_DEBUG", "-fPIC"]

VARIANTS = {
    "asan": dict(cxx="clang++", flags=["-DQT_FORCE_ASSERTS", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
                                        "-fno-sanitize=vptr,function,nonnull-attribute", "-fno-sanitize-recover=all"],
                 link=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="clang++", flags=["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-DVSHIM_TSAN"],
                 link=["-fsanitize=thread"]),
    "fuzz": dict(cxx="clang++", flags=["-DQT_FORCE_ASSERTS", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link,address,undefined",
                                        "-fno-sanitize=vptr,function,nonnull-attribute", "-fno-sanitize-recover=all"],
                 link=["-fsanitize=fuzzer,address,undefined", "-Wl,--wrap=exit"]),
    "plain": dict(cxx="g++", flags=["-O1", "-g1"], link=[]),
}


class BuildError(Exception):
    pass


def read(p):
    with open(p, "rb") as f:
        return f.read()


def jomlib_sources():
    """the library's sources, as the repository's own build lists them"""
    cm = read(os.path.join(REPO, "src/jomlib/CMakeLists.txt")).decode("utf-8", "replace")
    m = re.search(r"add_library\s*\(\s*jomlib\b(.*?)\)", cm, re.S)
    names = re.findall(r"[\w./-]+\.cpp\b", m.group(1)) if m else []
    return [os.path.join(REPO, "src/jomlib", n) for n in names if os.path.exists(os.path.join(REPO, "src/jomlib", n))]


def app_sources():
    cm = read(os.path.join(REPO, "src/app/CMakeLists.txt")).decode("utf-8", "replace")
    m = re.search(r"add_executable\s*\(\s*jom\b(.*?)\)", cm, re.S)
    names = re.findall(r"[\w./-]+\.cpp\b", m.group(1)) if m else ["application.cpp", "main.cpp"]
    return [os.path.join(REPO, "src/app", n) for n in names if os.path.exists(os.path.join(REPO, "src/app", n))]


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), SHIM):
        for root, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".inc", ".txt", ".qrc", ".conf", ".pri", ".l", ".g")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + read(p) + b"\0")
    h.update(read(os.path.abspath(__file__)))
    return h.hexdigest()


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout.decode("utf-8", "replace")[-6000:]))


def _compile(job):
    cxx, flags, src, obj = job
    if os.path.exists(obj):
        os.utime(obj)
        return
    tmp = obj + ".tmp%d.o" % os.getpid()
    run([cxx] + flags + ["-c", src, "-o", tmp], "compiling " + src)
    os.rename(tmp, obj)


def version_defs():
    v = read(os.path.join(REPO, "src/app/version.txt")).decode().strip().split(".") + ["0", "0", "0"]
    return ["-DJOM_VERSION_MAJOR=" + v[0], "-DJOM_VERSION_MINOR=" + v[1], "-DJOM_VERSION_PATCH=" + v[2]]


def moc_jobs(th, objdir):
    """(header, generated cpp) for every class with Q_OBJECT"""
    out = []
    for d in ("src/jomlib", "src/app"):
        full = os.path.join(REPO, d)
        for f in sorted(os.listdir(full)):
            if f.endswith(".h") and b"Q_OBJECT" in read(os.path.join(full, f)):
                out.append((os.path.join(full, f), d == "src/app"))
    return out


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()


def prune(keep_s=6 * 3600, limit=1500):
    d = os.path.join(BUILD, "obj")
    try:
        files = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
    except OSError:
        return
    for t, f in files[:max(0, len(files) - limit)]:
        os.unlink(os.path.join(d, f))
    d = os.path.join(BUILD, "bin")
    files = sorted((os.path.getmtime(os.path.join(d, f)), f) for f in os.listdir(d))
    for t, f in files[:max(0, len(files) - 24)]:
        shutil.rmtree(os.path.join(d, f), ignore_errors=True)


def objects(variant, include_app, th, extra=()):
    """compile jomlib (+ app) + shim + moc for a variant; returns the object list"""
    v = VARIANTS[variant]
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    base = v["flags"] + ["-w"] + WIN_DEFS + ["-I" + SHIM]
    qt = ["-std=c++14"] + QT_FLAGS
    jom = base + ["-include", "msvc_names.h", "-include", "winqt.h"] + qt + \
        ["-DQT_NO_CAST_FROM_ASCII", "-DQT_NO_CAST_TO_ASCII", "-DUNICODE", "-I" + os.path.join(REPO, "src/jomlib")]
    jobs, objs = [], []

    def add(src, flags, content=None):
        h = hashlib.sha256()
        h.update((th + "\0" + v["cxx"] + "\0" + "\0".join(flags) + "\0" + src + "\0").encode())
        h.update(read(src) if content is None else content)
        o = os.path.join(objdir, os.path.basename(src) + "-" + h.hexdigest()[:24] + ".o")
        jobs.append((v["cxx"], flags, src, o))
        objs.append(o)

    for s in jomlib_sources():
        add(s, jom)
    if include_app:
        for s in app_sources():
            add(s, jom + version_defs() + ["-I" + os.path.join(REPO, "src/app")])
    # moc
    gen = os.path.join(BUILD, "moc-" + th[:16])
    os.makedirs(gen, exist_ok=True)
    for hdr, is_app in moc_jobs(th, objdir):
        if is_app and not include_app:
            continue
        out = os.path.join(gen, "moc_" + os.path.basename(hdr)[:-2] + ".cpp")
        if not os.path.exists(out):
            run(["/usr/bin/moc", "-DQ_OS_WIN", "-D_WIN32", hdr, "-o", out + ".t"], "moc " + hdr)
            os.rename(out + ".t", out)
        add(out, jom + ["-I" + os.path.dirname(hdr)])
    wen = os.path.join(gen, "moc_qwineventnotifier.cpp")
    if not os.path.exists(wen):
        run(["/usr/bin/moc", "-DQ_OS_WIN", "-D_WIN32", "-DWIN32", "-I" + QTINC, "-I" + QTINC + "/QtCore", "-f<QtCore/qwineventnotifier.h>",
             QTINC + "/QtCore/qwineventnotifier.h", "-o", wen + ".t"], "moc qwineventnotifier")
        os.rename(wen + ".t", wen)
    add(wen, base + qt)
    add(os.path.join(SHIM, "qtshim.cpp"), base + qt)
    add(os.path.join(SHIM, "winshim.cpp"), base + ["-std=c++14", "-fPIC"])
    for s, fl in extra:
        add(s, (jom if fl is None else fl))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(_compile, jobs))
    return objs


def tools(bindir):
    for t in ("jt", "minicmd"):
        src = os.path.join(VERIF, "tools", t + ".cpp")
        h = hashlib.sha256(read(src) + read(os.path.join(VERIF, "tools/common.h"))).hexdigest()[:16]
        o = os.path.join(BUILD, "obj", t + "-" + h + ".exe")
        if not os.path.exists(o):
            tmp = o + ".tmp%d" % os.getpid()
            run(["g++", "-O1", "-w", src, "-o", tmp], "compiling " + t)
            os.rename(tmp, o)
        dst = os.path.join(bindir, t)
        if not os.path.exists(dst):
            shutil.copy(o, dst + ".t")
            os.rename(dst + ".t", dst)


def build(variant="asan", kind="jom", harness=None):
    """returns the path of a bin directory with <kind>, jt and minicmd in it"""
    with Lock():
        th = tree_hash()
        try:
            extra = [(harness, None)] if harness else []
            objs = objects(variant, kind == "jom", th, extra)
        finally:
            pass
        key = hashlib.sha256(("\0".join(objs) + kind + read(os.path.join(VERIF, "tools/jt.cpp")).decode() +
                              read(os.path.join(VERIF, "tools/minicmd.cpp")).decode() +
                              read(os.path.join(VERIF, "tools/common.h")).decode()).encode()).hexdigest()[:20]
        bindir = os.path.join(BUILD, "bin", variant + "-" + kind + "-" + key)
        exe = os.path.join(bindir, kind)
        if not os.path.exists(exe):
            os.makedirs(bindir, exist_ok=True)
            v = VARIANTS[variant]
            run([v["cxx"]] + v["link"] + ["-o", exe + ".t"] + objs +
                ["-Wl,--unresolved-symbols=ignore-all", "-L/usr/lib/x86_64-linux-gnu", "-lQt5Core", "-lpthread"], "linking " + kind)
            os.rename(exe + ".t", exe)
        tools(bindir)
        os.utime(bindir)
        prune()
        # remove stale moc directories
        for d in os.listdir(BUILD):
            if d.startswith("moc-") and d != "moc-" + th[:16] and time.time() - os.path.getmtime(os.path.join(BUILD, d)) > 3600:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        return bindir


if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:] or ["asan", "tsan"]:
        print(v, build(v), "%.1fs" % (time.time() - t))
