// POSIX implementation of the Win32 calls jom makes (and of plausible neighbours), so that the real jom sources can
// be executed natively under ASan/UBSan/TSan with observable and perturbable system behaviour.
#include <windows.h>
#include <tlhelp32.h>
#undef min
#undef max
#include "vshim.h"
#include <atomic>
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <strings.h>

extern char **environ;

// ---------------------------------------------------------------- process-wide state
namespace {
struct State {
    std::map<std::string, std::string> vars;  // captured VSHIM_*
    int logfd = -1;
    bool chaos = false;
    unsigned chaosMask = 0;
    unsigned chaosMaxUs = 0;
    std::atomic<unsigned> rng{1};
    std::string root, bin;
};
State *S;

void initState()
{
    if (S)
        return;
    S = new State;
    std::vector<std::string> drop;
    for (char **e = environ; *e; ++e) {
        if (strncmp(*e, "VSHIM_", 6) == 0) {
            const char *eq = strchr(*e, '=');
            if (!eq)
                continue;
            std::string k(*e, eq - *e);
            S->vars[k] = eq + 1;
            drop.push_back(k);
        }
    }
    for (auto &k : drop)
        unsetenv(k.c_str());
    S->vars.erase("VSHIM_CMDLINE");
    if (S->vars.count("VSHIM_LOG"))
        S->logfd = open(S->vars["VSHIM_LOG"].c_str(), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
    if (S->vars.count("VSHIM_ROOT"))
        S->root = S->vars["VSHIM_ROOT"];
    if (S->vars.count("VSHIM_BIN"))
        S->bin = S->vars["VSHIM_BIN"];
    if (S->vars.count("VSHIM_CHAOS")) {
        unsigned seed = 0, mask = 0, us = 0;
        sscanf(S->vars["VSHIM_CHAOS"].c_str(), "%u,%u,%u", &seed, &mask, &us);
        S->chaos = mask != 0;
        S->chaosMask = mask;
        S->chaosMaxUs = us ? us : 2000;
        S->rng = seed * 2654435761u + (unsigned)getpid() % 64;
    }
}
__attribute__((constructor(101))) void ctor() { initState(); }
} // namespace

std::string vshim_getvar(const char *name)
{
    initState();
    auto it = S->vars.find(name);
    return it == S->vars.end() ? std::string() : it->second;
}

unsigned vshim_rand()
{
    unsigned x = S->rng.fetch_add(0x9E3779B9u, std::memory_order_relaxed) + 0x9E3779B9u;
    x ^= x >> 16; x *= 0x85ebca6bu; x ^= x >> 13; x *= 0xc2b2ae35u; x ^= x >> 16;
    return x;
}

void vshim_chaos(int site)
{
    if (!S->chaos || !(S->chaosMask & site))
        return;
    unsigned r = vshim_rand();
    if (r % 3 == 0)
        return;
    usleep((r >> 8) % S->chaosMaxUs);
}

void vshim_log(const char *fmt, ...)
{
    if (!S || S->logfd < 0)
        return;
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    char head[64], shortText[2048];
    int hn = snprintf(head, sizeof head, "%lld %d ", (long long)ts.tv_sec * 1000000000LL + ts.tv_nsec, (int)getpid());
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(shortText, sizeof shortText, fmt, ap);
    va_end(ap);
    std::string line(head, hn);
    if (n < (int)sizeof shortText) {
        line.append(shortText, n);
    } else {
        std::string big(n + 1, '\0');
        va_start(ap, fmt);
        vsnprintf(&big[0], big.size(), fmt, ap);
        va_end(ap);
        line.append(big.c_str(), n);
    }
    for (char &c : line)
        if (c == '\n' || c == '\r')
            c = ' ';
    line += '\n';
    ssize_t w = write(S->logfd, line.data(), line.size());
    (void)w;
}

// ---------------------------------------------------------------- strings and paths
static std::string toUtf8(const WCHAR *s)
{
    std::string r;
    if (!s)
        return r;
    for (; *s; ++s) {
        unsigned long c = (unsigned short)*s;
        if (c >= 0xd800 && c < 0xdc00 && s[1])
            c = 0x10000 + ((c - 0xd800) << 10) + ((unsigned short)*++s - 0xdc00);
        if (c < 0x80) r += char(c);
        else if (c < 0x800) { r += char(0xc0 | c >> 6); r += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += char(0xe0 | c >> 12); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
        else { r += char(0xf0 | c >> 18); r += char(0x80 | (c >> 12 & 63)); r += char(0x80 | (c >> 6 & 63)); r += char(0x80 | (c & 63)); }
    }
    return r;
}

static std::u16string fromUtf8(const char *s)
{
    std::u16string r;
    const unsigned char *p = (const unsigned char *)s;
    while (*p) {
        unsigned long c = *p;
        int n = 0;
        if (c >= 0xf0 && p[1] && p[2] && p[3]) { c = (c & 7) << 18 | (p[1] & 63) << 12 | (p[2] & 63) << 6 | (p[3] & 63); n = 4; }
        else if (c >= 0xe0 && c < 0xf0 && p[1] && p[2]) { c = (c & 15) << 12 | (p[1] & 63) << 6 | (p[2] & 63); n = 3; }
        else if (c >= 0xc0 && c < 0xe0 && p[1]) { c = (c & 31) << 6 | (p[1] & 63); n = 2; }
        else n = 1;
        p += n;
        if (c >= 0x10000) { c -= 0x10000; r += char16_t(0xd800 + (c >> 10)); r += char16_t(0xdc00 + (c & 0x3ff)); }
        else r += char16_t(c);
    }
    return r;
}

static bool exists(const std::string &p)
{
    struct stat st;
    return lstat(p.c_str(), &st) == 0;
}

std::string vshim_resolve(std::string p)
{
    for (char &c : p)
        if (c == '\\')
            c = '/';
    if (p.compare(0, 4, "//?/") == 0)
        p.erase(0, 4);
    if (p.size() >= 2 && isalpha((unsigned char)p[0]) && p[1] == ':')
        p.erase(0, 2);
    if (p.empty() || exists(p))
        return p;
    // component-wise case-insensitive lookup
    std::string cur = p[0] == '/' ? "/" : "";
    size_t i = p[0] == '/' ? 1 : 0;
    while (i <= p.size()) {
        size_t j = p.find('/', i);
        if (j == std::string::npos)
            j = p.size();
        std::string comp = p.substr(i, j - i);
        if (!comp.empty()) {
            std::string cand = cur + comp;
            if (!exists(cand)) {
                bool found = false;
                if (DIR *d = opendir(cur.empty() ? "." : cur.c_str())) {
                    while (dirent *e = readdir(d)) {
                        if (strcasecmp(e->d_name, comp.c_str()) == 0) {
                            cand = cur + e->d_name;
                            found = true;
                            break;
                        }
                    }
                    closedir(d);
                }
                if (!found)
                    return j >= p.size() ? cand : cand + p.substr(j);
            }
            cur = cand;
        }
        if (j < p.size())
            cur += '/';
        i = j + 1;
    }
    return cur;
}

bool vshim_may_write(const std::string &path)
{
    if (S->root.empty())
        return false;
    std::string dir = path, full;
    size_t k = dir.rfind('/');
    dir = k == std::string::npos ? "." : k == 0 ? "/" : dir.substr(0, k);
    char buf[PATH_MAX];
    if (!realpath(dir.c_str(), buf))
        return false;
    full = std::string(buf) + "/";
    struct stat st;
    if (lstat(path.c_str(), &st) == 0 && S_ISLNK(st.st_mode))
        return false;
    return full.compare(0, S->root.size() + 1, S->root + "/") == 0;
}

// ---------------------------------------------------------------- last error
static thread_local DWORD tlsLastError;
extern "C" {
DWORD WINAPI GetLastError(void) { return tlsLastError; }
void WINAPI SetLastError(DWORD e) { tlsLastError = e; }
}

// ---------------------------------------------------------------- handles
namespace {
enum Kind { KFree, KPipeServer, KPipeClient, KPort, KProcess, KThread, KEvent, KFile, KSemaphore };
const char *kindName[] = {"free", "pipe-server", "pipe-client", "port", "process", "thread", "event", "file", "semaphore"};

struct Packet { DWORD bytes; ULONG_PTR key; OVERLAPPED *ov; DWORD error; bool real; };

struct Port {
    std::mutex m;
    std::deque<Packet> q;
    int ep = -1, ev = -1;
    void post(const Packet &p)
    {
        { std::lock_guard<std::mutex> l(m); q.push_back(p); }
        uint64_t one = 1;
        ssize_t w = write(ev, &one, sizeof one);
        (void)w;
    }
};

struct Obj {
    Kind kind = KFree;
    int fd = -1;             // pipe end / file / eventfd
    bool inheritable = false;
    std::string name;
    // server pipe
    std::shared_ptr<Port> port;
    ULONG_PTR key = 0;
    bool pending = false;
    char *buf = nullptr;
    DWORD want = 0;
    OVERLAPPED *ov = nullptr;
    bool connected = false;
    bool inEpoll = false;
    // process
    pid_t pid = -1;
    int pidfd = -1;
    int sidefd = -1;
    bool reaped = false;
    DWORD exitCode = STILL_ACTIVE;
    // event
    bool manual = false;
    bool signaled = false;
};

std::mutex &H = *new std::mutex;                // guards the handle table and object state (never destroyed)
std::map<uintptr_t, std::shared_ptr<Obj>> &table = *new std::map<uintptr_t, std::shared_ptr<Obj>>;
uintptr_t nextHandle = 0x1000;                  // never reused: a stale handle is always recognised
std::map<std::string, uintptr_t> &pipeNames = *new std::map<std::string, uintptr_t>;
int openCount;

HANDLE newHandle(std::shared_ptr<Obj> o)
{
    uintptr_t h = nextHandle;
    nextHandle += 4;
    table[h] = o;
    ++openCount;
    return (HANDLE)h;
}

std::shared_ptr<Obj> get(HANDLE h, const char *op)
{
    auto it = table.find((uintptr_t)h);
    if (it == table.end()) {
        if (h && h != INVALID_HANDLE_VALUE)
            vshim_log("BADHANDLE %s %llx", op, (unsigned long long)(uintptr_t)h);
        tlsLastError = ERROR_INVALID_HANDLE;
        return nullptr;
    }
    return it->second;
}

void countHandles(int out[9])
{
    memset(out, 0, 9 * sizeof(int));
    for (auto &kv : table)
        out[kv.second->kind]++;
}

// file descriptors of this process
int countFds()
{
    int n = 0;
    if (DIR *d = opendir("/proc/self/fd")) {
        while (readdir(d))
            ++n;
        closedir(d);
    }
    return n;
}

void setNonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }

// try to perform the pending read of o; returns true if a packet was produced. H is held.
bool performRead(Obj *o, Packet &out)
{
    DWORD want = o->want;
    if (S->chaos && (S->chaosMask & ChaosRead) && want > 1 && vshim_rand() % 2)
        want = 1 + vshim_rand() % want;
    ssize_t n = read(o->fd, o->buf, want);
    if (n < 0 && (errno == EAGAIN || errno == EINTR))
        return false;
    if (n == 0 && !o->connected)
        return false;
    o->pending = false;
    out.key = o->key;
    out.ov = o->ov;
    out.real = true;
    if (n <= 0) {
        out.bytes = 0;
        out.error = ERROR_BROKEN_PIPE;
        o->ov->Internal = 0xC000014B;
        o->ov->InternalHigh = 0;
    } else {
        out.bytes = n;
        out.error = ERROR_SUCCESS;
        o->ov->Internal = 0;
        o->ov->InternalHigh = n;
    }
    return true;
}

void armEpoll(uintptr_t h, Obj *o)
{
    epoll_event e;
    memset(&e, 0, sizeof e);
    e.events = EPOLLIN | EPOLLONESHOT;
    e.data.u64 = h;
    if (!o->inEpoll) {
        epoll_ctl(o->port->ep, EPOLL_CTL_ADD, o->fd, &e);
        o->inEpoll = true;
    } else {
        epoll_ctl(o->port->ep, EPOLL_CTL_MOD, o->fd, &e);
    }
}

DWORD pollProcess(Obj *o)
{
    if (o->reaped)
        return o->exitCode;
    siginfo_t si;
    memset(&si, 0, sizeof si);
    int r = waitid((idtype_t)3 /*P_PIDFD*/, o->pidfd, &si, WEXITED | WNOHANG);
    if (r != 0 || si.si_pid == 0)
        return STILL_ACTIVE;
    o->reaped = true;
    if (si.si_code == CLD_EXITED) {
        o->exitCode = (DWORD)si.si_status;
        DWORD c;
        if (o->sidefd >= 0 && read(o->sidefd, &c, 4) == 4)
            o->exitCode = c;
    } else {
        o->exitCode = 0xC0000005u;
    }
    vshim_log("DEATH %d %u", (int)o->pid, (unsigned)o->exitCode);
    return o->exitCode;
}

__attribute__((destructor)) void atEnd()
{
    std::lock_guard<std::mutex> l(H);
    int c[9];
    countHandles(c);
    vshim_log("HANDLES-AT-EXIT server=%d client=%d port=%d process=%d thread=%d", c[KPipeServer], c[KPipeClient], c[KPort],
              c[KProcess], c[KThread]);
}
} // namespace

int vshim_wait_fd(void *handle)
{
    std::lock_guard<std::mutex> l(H);
    auto it = table.find((uintptr_t)handle);
    return it == table.end() ? -1 : it->second->kind == KProcess ? it->second->pidfd : it->second->kind == KEvent ? it->second->fd : -1;
}

extern "C" {
BOOL WINAPI CloseHandle(HANDLE h)
{
    std::shared_ptr<Obj> o;
    Packet p;
    bool post = false;
    {
        std::lock_guard<std::mutex> l(H);
        o = get(h, "CloseHandle");
        if (!o)
            return FALSE;
        table.erase((uintptr_t)h);
        --openCount;
        if (o->pending) {
            o->pending = false;
            o->ov->Internal = 0xC0000120;
            p = Packet{0, o->key, o->ov, ERROR_OPERATION_ABORTED, true};
            post = true;
        }
        if (o->kind == KPipeServer) {
            pipeNames.erase(o->name);
            if (o->sidefd >= 0)
                close(o->sidefd);
        }
        if (o->inEpoll)
            epoll_ctl(o->port->ep, EPOLL_CTL_DEL, o->fd, nullptr);
        if (o->fd >= 0)
            close(o->fd);
        if (o->kind == KProcess) {
            pollProcess(o.get());
            if (!o->reaped)
                vshim_log("PROCESS-HANDLE-CLOSED-WHILE-RUNNING %d", (int)o->pid);
            close(o->pidfd);
            if (o->sidefd >= 0)
                close(o->sidefd);
        }
    }
    if (post)
        o->port->post(p);
    return TRUE;
}

BOOL WINAPI DuplicateHandle(HANDLE, HANDLE src, HANDLE, HANDLE *out, DWORD, BOOL, DWORD)
{
    std::lock_guard<std::mutex> l(H);
    auto o = get(src, "DuplicateHandle");
    if (!o)
        return FALSE;
    auto c = std::make_shared<Obj>(*o);
    c->pending = false;
    c->inEpoll = false;
    if (c->fd >= 0) c->fd = fcntl(c->fd, F_DUPFD_CLOEXEC, 3);
    if (c->pidfd >= 0) c->pidfd = fcntl(c->pidfd, F_DUPFD_CLOEXEC, 3);
    if (c->sidefd >= 0) c->sidefd = fcntl(c->sidefd, F_DUPFD_CLOEXEC, 3);
    *out = newHandle(c);
    return TRUE;
}

BOOL WINAPI SetHandleInformation(HANDLE h, DWORD mask, DWORD flags)
{
    std::lock_guard<std::mutex> l(H);
    auto o = get(h, "SetHandleInformation");
    if (!o)
        return FALSE;
    if (mask & HANDLE_FLAG_INHERIT)
        o->inheritable = flags & HANDLE_FLAG_INHERIT;
    return TRUE;
}

// ---------------------------------------------------------------- pipes
HANDLE WINAPI CreateNamedPipeW(LPCWSTR name, DWORD, DWORD, DWORD, DWORD, DWORD inSize, DWORD, LPSECURITY_ATTRIBUTES sa)
{
    std::lock_guard<std::mutex> l(H);
    std::string n = toUtf8(name);
    if (pipeNames.count(n)) {
        tlsLastError = ERROR_PIPE_BUSY;
        return INVALID_HANDLE_VALUE;
    }
    int fds[2];
    if (pipe2(fds, O_CLOEXEC) != 0) {
        tlsLastError = ERROR_TOO_MANY_OPEN_FILES;
        return INVALID_HANDLE_VALUE;
    }
    fcntl(fds[0], F_SETPIPE_SZ, (int)(inSize ? (inSize > 1048576 ? 1048576 : inSize) : 65536));
    auto o = std::make_shared<Obj>();
    o->kind = KPipeServer;
    o->fd = fds[0];
    setNonblock(o->fd);
    o->sidefd = fds[1];  // write end, handed out by CreateFile
    o->name = n;
    o->inheritable = sa && sa->bInheritHandle;
    HANDLE h = newHandle(o);
    pipeNames[n] = (uintptr_t)h;
    return h;
}

HANDLE WINAPI CreateFileW(LPCWSTR name, DWORD access, DWORD, LPSECURITY_ATTRIBUTES sa, DWORD disp, DWORD, HANDLE)
{
    std::lock_guard<std::mutex> l(H);
    std::string n = toUtf8(name);
    auto it = pipeNames.find(n);
    auto o = std::make_shared<Obj>();
    o->inheritable = sa && sa->bInheritHandle;
    if (it != pipeNames.end()) {
        auto s = table[it->second];
        if (s->connected) {
            tlsLastError = ERROR_PIPE_BUSY;
            return INVALID_HANDLE_VALUE;
        }
        o->kind = KPipeClient;
        o->fd = s->sidefd;
        s->sidefd = -1;
        s->connected = true;
        return newHandle(o);
    }
    std::string p = vshim_resolve(n);
    int flags = access & GENERIC_WRITE ? (access & GENERIC_READ ? O_RDWR : O_WRONLY) : O_RDONLY;
    if (flags != O_RDONLY && !vshim_may_write(p)) {
        tlsLastError = ERROR_ACCESS_DENIED;
        return INVALID_HANDLE_VALUE;
    }
    if (disp == CREATE_ALWAYS) flags |= O_CREAT | O_TRUNC;
    else if (disp == CREATE_NEW) flags |= O_CREAT | O_EXCL;
    else if (disp == OPEN_ALWAYS) flags |= O_CREAT;
    int fd = open(p.c_str(), flags | O_CLOEXEC, 0666);
    if (fd < 0) {
        tlsLastError = errno == ENOENT ? ERROR_FILE_NOT_FOUND : ERROR_ACCESS_DENIED;
        return INVALID_HANDLE_VALUE;
    }
    o->kind = KFile;
    o->fd = fd;
    return newHandle(o);
}

BOOL WINAPI ConnectNamedPipe(HANDLE h, LPOVERLAPPED)
{
    std::lock_guard<std::mutex> l(H);
    auto o = get(h, "ConnectNamedPipe");
    if (!o)
        return FALSE;
    tlsLastError = ERROR_PIPE_CONNECTED;
    return FALSE;
}

BOOL WINAPI PeekNamedPipe(HANDLE h, PVOID, DWORD, PDWORD, PDWORD avail, PDWORD left)
{
    std::lock_guard<std::mutex> l(H);
    auto o = get(h, "PeekNamedPipe");
    if (!o)
        return FALSE;
    int n = 0;
    ioctl(o->fd, FIONREAD, &n);
    if (n == 0) {
        pollfd p = {o->fd, POLLIN, 0};
        poll(&p, 1, 0);
        if ((p.revents & POLLHUP) && !(p.revents & POLLIN)) {
            tlsLastError = ERROR_BROKEN_PIPE;
            return FALSE;
        }
    }
    if (avail) *avail = n;
    if (left) *left = 0;
    return TRUE;
}

BOOL WINAPI ReadFile(HANDLE h, LPVOID buf, DWORD count, LPDWORD done, LPOVERLAPPED ov)
{
    std::shared_ptr<Obj> o;
    Packet p;
    {
        std::lock_guard<std::mutex> l(H);
        o = get(h, "ReadFile");
        if (!o)
            return FALSE;
        if (!ov || o->kind != KPipeServer) {
            ssize_t n = read(o->fd, buf, count);
            if (n < 0) { tlsLastError = ERROR_READ_FAULT; return FALSE; }
            if (done) *done = n;
            return TRUE;
        }
        if (o->pending)
            vshim_log("DOUBLE-PENDING-READ %llx", (unsigned long long)(uintptr_t)h);
        o->buf = (char *)buf;
        o->want = count;
        o->ov = ov;
        ov->Internal = 0x103;
        ov->InternalHigh = 0;
        o->pending = true;
        if (!performRead(o.get(), p)) {
            if (o->port)
                armEpoll((uintptr_t)h, o.get());
            tlsLastError = ERROR_IO_PENDING;
            return FALSE;
        }
        if (p.error != ERROR_SUCCESS) {     // broken pipe is reported synchronously, no packet
            tlsLastError = p.error;
            return FALSE;
        }
    }
    if (o->port)
        o->port->post(p);
    if (done)
        *done = p.bytes;
    return TRUE;
}

BOOL WINAPI WriteFile(HANDLE h, LPCVOID buf, DWORD count, LPDWORD done, LPOVERLAPPED)
{
    int fd;
    {
        std::lock_guard<std::mutex> l(H);
        auto o = get(h, "WriteFile");
        if (!o)
            return FALSE;
        fd = o->fd;
    }
    ssize_t n = write(fd, buf, count);
    if (n < 0) { tlsLastError = ERROR_WRITE_FAULT; return FALSE; }
    if (done) *done = n;
    return TRUE;
}

BOOL WINAPI CancelIoEx(HANDLE h, LPOVERLAPPED)
{
    std::shared_ptr<Obj> o;
    Packet p;
    {
        std::lock_guard<std::mutex> l(H);
        o = get(h, "CancelIo");
        if (!o)
            return FALSE;
        if (!o->pending) {
            tlsLastError = ERROR_NOT_FOUND;
            return FALSE;
        }
        o->pending = false;
        o->ov->Internal = 0xC0000120;
        p = Packet{0, o->key, o->ov, ERROR_OPERATION_ABORTED, true};
    }
    if (o->port)
        o->port->post(p);
    return TRUE;
}
BOOL WINAPI CancelIo(HANDLE h) { CancelIoEx(h, nullptr); return TRUE; }

BOOL WINAPI GetOverlappedResult(HANDLE h, LPOVERLAPPED ov, LPDWORD bytes, BOOL wait)
{
    for (;;) {
        std::shared_ptr<Obj> o;
        Packet p;
        bool produced = false;
        int fd;
        {
            std::lock_guard<std::mutex> l(H);
            o = get(h, "GetOverlappedResult");
            if (!o)
                return FALSE;
            fd = o->fd;
            if (o->pending && o->ov == ov)
                produced = performRead(o.get(), p);
            else
                break;
        }
        if (produced) {
            if (o->port)
                o->port->post(p);
            break;
        }
        if (!wait) {
            tlsLastError = ERROR_IO_INCOMPLETE;
            return FALSE;
        }
        pollfd pf = {fd, POLLIN, 0};
        poll(&pf, 1, 10);
    }
    if (bytes)
        *bytes = ov->InternalHigh;
    if (ov->Internal == 0)
        return TRUE;
    tlsLastError = ov->Internal == 0xC0000120 ? ERROR_OPERATION_ABORTED : ERROR_BROKEN_PIPE;
    return FALSE;
}

// ---------------------------------------------------------------- completion ports
HANDLE WINAPI CreateIoCompletionPort(HANDLE file, HANDLE port, ULONG_PTR key, DWORD)
{
    std::lock_guard<std::mutex> l(H);
    std::shared_ptr<Obj> po;
    HANDLE hp = port;
    if (!port || port == INVALID_HANDLE_VALUE) {
        po = std::make_shared<Obj>();
        po->kind = KPort;
        po->port = std::make_shared<Port>();
        po->port->ep = epoll_create1(EPOLL_CLOEXEC);
        po->port->ev = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
        epoll_event e;
        memset(&e, 0, sizeof e);
        e.events = EPOLLIN;
        e.data.u64 = 0;
        epoll_ctl(po->port->ep, EPOLL_CTL_ADD, po->port->ev, &e);
        hp = newHandle(po);
    } else {
        po = get(port, "CreateIoCompletionPort");
        if (!po)
            return NULL;
    }
    if (file != INVALID_HANDLE_VALUE) {
        auto o = get(file, "CreateIoCompletionPort(file)");
        if (!o)
            return NULL;
        o->port = po->port;
        o->key = key;
        if (o->pending)
            armEpoll((uintptr_t)file, o.get());
    }
    return hp;
}

BOOL WINAPI PostQueuedCompletionStatus(HANDLE port, DWORD bytes, ULONG_PTR key, LPOVERLAPPED ov)
{
    std::shared_ptr<Port> p;
    {
        std::lock_guard<std::mutex> l(H);
        auto o = get(port, "PostQueuedCompletionStatus");
        if (!o)
            return FALSE;
        p = o->port;
    }
    p->post(Packet{bytes, key, ov, ERROR_SUCCESS, false});
    return TRUE;
}

BOOL WINAPI GetQueuedCompletionStatus(HANDLE port, LPDWORD bytes, PULONG_PTR key, LPOVERLAPPED *ov, DWORD timeout)
{
    std::shared_ptr<Port> p;
    {
        std::lock_guard<std::mutex> l(H);
        auto o = get(port, "GetQueuedCompletionStatus");
        if (!o) {
            *ov = NULL;
            return FALSE;
        }
        p = o->port;
    }
    vshim_chaos(ChaosIocp);
    for (;;) {
        {
            std::unique_lock<std::mutex> l(p->m);
            if (!p->q.empty()) {
                Packet k = p->q.front();
                p->q.pop_front();
                l.unlock();
                vshim_chaos(ChaosIocp);
                *bytes = k.bytes;
                *key = k.key;
                *ov = k.ov;
                if (k.error == ERROR_SUCCESS)
                    return TRUE;
                tlsLastError = k.error;
                return FALSE;
            }
        }
        epoll_event evs[16];
        int n = epoll_wait(p->ep, evs, 16, timeout == INFINITE ? -1 : (int)timeout);
        if (n == 0) {
            *ov = NULL;
            tlsLastError = WAIT_TIMEOUT;
            return FALSE;
        }
        for (int i = 0; i < n; ++i) {
            if (evs[i].data.u64 == 0) {
                uint64_t v;
                ssize_t r = read(p->ev, &v, sizeof v);
                (void)r;
                continue;
            }
            std::lock_guard<std::mutex> l(H);
            auto it = table.find((uintptr_t)evs[i].data.u64);
            if (it == table.end() || !it->second->pending)
                continue;
            Packet k;
            if (performRead(it->second.get(), k)) {
                std::lock_guard<std::mutex> l2(p->m);
                p->q.push_back(k);
            } else {
                armEpoll(it->first, it->second.get());
            }
        }
    }
}

// ---------------------------------------------------------------- environment
static int envFind(const std::string &name)
{
    for (int i = 0; environ[i]; ++i) {
        const char *eq = strchr(environ[i], '=');
        if (eq && (size_t)(eq - environ[i]) == name.size() && strncasecmp(environ[i], name.c_str(), name.size()) == 0)
            return i;
    }
    return -1;
}

DWORD WINAPI GetEnvironmentVariableW(LPCWSTR name, LPWSTR buf, DWORD size)
{
    int i = envFind(toUtf8(name));
    if (i < 0) {
        tlsLastError = ERROR_ENVVAR_NOT_FOUND;
        return 0;
    }
    auto w = fromUtf8(strchr(environ[i], '=') + 1);
    if (w.size() + 1 > size)
        return w.size() + 1;
    memcpy(buf, w.c_str(), (w.size() + 1) * sizeof(WCHAR));
    tlsLastError = ERROR_SUCCESS;
    return w.size();
}

DWORD WINAPI GetEnvironmentVariableA(LPCSTR name, LPSTR buf, DWORD size)
{
    int i = envFind(name);
    if (i < 0) {
        tlsLastError = ERROR_ENVVAR_NOT_FOUND;
        return 0;
    }
    const char *v = strchr(environ[i], '=') + 1;
    if (strlen(v) + 1 > size)
        return strlen(v) + 1;
    strcpy(buf, v);
    return strlen(v);
}

BOOL WINAPI SetEnvironmentVariableW(LPCWSTR name, LPCWSTR value)
{
    std::string n = toUtf8(name);
    int i = envFind(n);
    if (i >= 0)
        n.assign(environ[i], strchr(environ[i], '=') - environ[i]);
    if (n.empty())
        return FALSE;
    if (value)
        setenv(n.c_str(), toUtf8(value).c_str(), 1);
    else
        unsetenv(n.c_str());
    return TRUE;
}
BOOL WINAPI SetEnvironmentVariableA(LPCSTR name, LPCSTR value)
{
    auto n = fromUtf8(name);
    if (!value)
        return SetEnvironmentVariableW((LPCWSTR)n.c_str(), nullptr);
    auto v = fromUtf8(value);
    return SetEnvironmentVariableW((LPCWSTR)n.c_str(), (LPCWSTR)v.c_str());
}

// ---------------------------------------------------------------- processes
static std::string getenvCI(const char *name)
{
    int i = envFind(name);
    return i < 0 ? std::string() : std::string(strchr(environ[i], '=') + 1);
}

static bool underBin(const std::string &p)
{
    char buf[PATH_MAX];
    if (!realpath(p.c_str(), buf))
        return false;
    struct stat st;
    if (stat(buf, &st) != 0 || !S_ISREG(st.st_mode) || access(buf, X_OK) != 0)
        return false;
    std::string r = buf;
    return !S->bin.empty() && r.compare(0, S->bin.size() + 1, S->bin + "/") == 0;
}

static std::string findProgram(const std::string &name)
{
    std::vector<std::string> dirs;
    if (name.find_first_of("\\/") != std::string::npos) {
        dirs.push_back("");
    } else {
        dirs.push_back("./");
        std::string path = getenvCI("PATH");
        size_t i = 0;
        while (i <= path.size()) {
            size_t j = path.find(';', i);
            if (j == std::string::npos)
                j = path.size();
            if (j > i)
                dirs.push_back(path.substr(i, j - i) + "/");
            i = j + 1;
        }
    }
    std::string base = name;
    if (base.size() > 4 && strcasecmp(base.c_str() + base.size() - 4, ".exe") == 0)
        base.resize(base.size() - 4);
    if (strcasecmp(base.c_str(), "cmd") == 0)
        base = "minicmd";
    for (auto &d : dirs) {
        std::string c = vshim_resolve(d + base);
        if (underBin(c))
            return c;
    }
    return std::string();
}

// The argument splitting of the Microsoft C runtime.
static std::vector<std::string> splitArgs(const std::string &s)
{
    std::vector<std::string> out;
    size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t'))
            ++i;
        if (i >= s.size())
            break;
        std::string a;
        bool q = false;
        while (i < s.size() && (q || (s[i] != ' ' && s[i] != '\t'))) {
            size_t bs = 0;
            while (i < s.size() && s[i] == '\\') { ++bs; ++i; }
            if (i < s.size() && s[i] == '"') {
                a.append(bs / 2, '\\');
                if (bs % 2) { a += '"'; ++i; }
                else { if (q && i + 1 < s.size() && s[i + 1] == '"') { a += '"'; i += 2; } else { q = !q; ++i; } }
            } else {
                a.append(bs, '\\');
                if (i < s.size() && (q || (s[i] != ' ' && s[i] != '\t')))
                    a += s[i++];
            }
        }
        out.push_back(a);
    }
    return out;
}

static std::vector<std::string> childVars(const std::string &cmdline)
{
    std::vector<std::string> env;
    for (auto &kv : S->vars)
        env.push_back(kv.first + "=" + kv.second);
    env.push_back("VSHIM_CMDLINE=" + cmdline);
    return env;
}

// Used by system(): run a command line through the shell stand-in, inheriting stdio.
int vshim_spawn(const std::string &prog, const std::string &cmdline, const std::vector<std::string> &env, const std::string &cwd,
                int in, int out, int err, const std::vector<int> &inherit, pid_t *pid, int *sidefd)
{
    std::vector<std::string> args = splitArgs(cmdline);
    if (args.empty())
        args.push_back(prog);
    std::vector<char *> av, ev;
    for (auto &a : args)
        av.push_back((char *)a.c_str());
    av.push_back(nullptr);
    for (auto &e : env)
        ev.push_back((char *)e.c_str());
    ev.push_back(nullptr);
    int side[2];
    if (pipe2(side, O_CLOEXEC | O_NONBLOCK) != 0)
        return errno;
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    // The std handles may themselves be 0..2 or collide; high duplicates keep the order irrelevant.
    int hi[3] = {in, out, err};
    for (int k = 0; k < 3; ++k)
        if (hi[k] >= 0)
            hi[k] = fcntl(hi[k], F_DUPFD_CLOEXEC, 200);
    for (int k = 0; k < 3; ++k)
        if (hi[k] >= 0)
            posix_spawn_file_actions_adddup2(&fa, hi[k], k);
    for (int fd : inherit)
        posix_spawn_file_actions_adddup2(&fa, fd, fd);
    posix_spawn_file_actions_adddup2(&fa, side[1], 198);
    if (!cwd.empty())
        posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
    posix_spawnattr_t at;
    posix_spawnattr_init(&at);
    sigset_t none;
    sigemptyset(&none);
    posix_spawnattr_setsigmask(&at, &none);
    posix_spawnattr_setflags(&at, POSIX_SPAWN_SETSIGMASK);
    int r = posix_spawn(pid, prog.c_str(), &fa, &at, av.data(), ev.data());
    posix_spawnattr_destroy(&at);
    posix_spawn_file_actions_destroy(&fa);
    for (int k = 0; k < 3; ++k)
        if (hi[k] >= 0)
            close(hi[k]);
    close(side[1]);
    if (r != 0)
        close(side[0]);
    else
        *sidefd = side[0];
    return r;
}

BOOL WINAPI CreateProcessW(LPCWSTR app, LPWSTR cmd, LPSECURITY_ATTRIBUTES, LPSECURITY_ATTRIBUTES, BOOL inherit, DWORD, LPVOID envBlock,
                           LPCWSTR cwd, LPSTARTUPINFOW si, LPPROCESS_INFORMATION pi)
{
    std::string cl = toUtf8(cmd);
    std::string prog;
    if (app) {
        prog = toUtf8(app);
    } else {
        size_t i = 0;
        while (i < cl.size() && (cl[i] == ' ' || cl[i] == '\t'))
            ++i;
        if (i < cl.size() && cl[i] == '"') {
            size_t j = cl.find('"', i + 1);
            prog = cl.substr(i + 1, (j == std::string::npos ? cl.size() : j) - i - 1);
        } else {
            size_t j = cl.find_first_of(" \t", i);
            prog = cl.substr(i, (j == std::string::npos ? cl.size() : j) - i);
        }
    }
    vshim_chaos(ChaosSpawn);
    std::string exe = prog.empty() ? std::string() : findProgram(prog);
    std::string dir = cwd ? vshim_resolve(toUtf8(cwd)) : std::string();
    struct stat st;
    if (!dir.empty() && (stat(dir.c_str(), &st) != 0 || !S_ISDIR(st.st_mode))) {
        vshim_log("SPAWN-FAILED baddir %s", cl.c_str());
        tlsLastError = ERROR_DIRECTORY;
        return FALSE;
    }
    if (exe.empty() || !S->vars["VSHIM_NOEXEC"].empty()) {
        if (exe.empty()) {
            vshim_log("SPAWN-FAILED notfound %s", cl.c_str());
            tlsLastError = ERROR_FILE_NOT_FOUND;
            return FALSE;
        }
        exe = S->bin + "/jt";
        cl = "jt exit 0";
    }
    std::vector<std::string> env;
    if (envBlock) {
        for (const WCHAR *p = (const WCHAR *)envBlock; *p;) {
            std::string e = toUtf8(p);
            env.push_back(e);
            while (*p)
                ++p;
            ++p;
        }
    } else {
        for (char **e = environ; *e; ++e)
            env.push_back(*e);
    }
    for (auto &e : childVars(cl))
        env.push_back(e);
    std::vector<int> inh;
    int io[3] = {-1, -1, -1};
    int counts[9];
    {
        std::lock_guard<std::mutex> l(H);
        countHandles(counts);
        if (inherit)
            for (auto &kv : table)
                if (kv.second->inheritable && kv.second->fd >= 0)
                    inh.push_back(kv.second->fd);
        if (si && (si->dwFlags & STARTF_USESTDHANDLES)) {
            HANDLE hs[3] = {si->hStdInput, si->hStdOutput, si->hStdError};
            for (int k = 0; k < 3; ++k) {
                auto o = get(hs[k], "CreateProcess(std)");
                if (o) {
                    io[k] = o->fd;
                    if (!o->inheritable)
                        vshim_log("STD-HANDLE-NOT-INHERITABLE %d", k);
                }
            }
        }
    }
    // injected failure of CreateProcess
    if (!S->vars["VSHIM_SPAWNFAIL"].empty()) {
        static std::atomic<unsigned long> calls(0);
        unsigned long seed = 0, permille = 0;
        sscanf(S->vars["VSHIM_SPAWNFAIL"].c_str(), "%lu,%lu", &seed, &permille);
        unsigned long x = (++calls * 2654435761ul + seed * 40503ul);
        x ^= x >> 15;
        x *= 2246822519ul;
        x ^= x >> 13;
        if (x % 1000 < permille) {
            vshim_log("SPAWN-FAILED errno=%d %s", ENOMEM, cl.c_str());
            tlsLastError = ERROR_NOT_ENOUGH_MEMORY;
            return FALSE;
        }
    }
    // stdin of a child: blocking read end
    if (io[0] >= 0)
        fcntl(io[0], F_SETFL, fcntl(io[0], F_GETFL) & ~O_NONBLOCK);
    pid_t pid = -1;
    int sidefd = -1;
    int r = vshim_spawn(exe, cl, env, dir, io[0], io[1], io[2], inh, &pid, &sidefd);
    if (r != 0) {
        vshim_log("SPAWN-FAILED errno=%d %s", r, cl.c_str());
        tlsLastError = ERROR_NOT_ENOUGH_MEMORY;
        return FALSE;
    }
    auto o = std::make_shared<Obj>();
    o->kind = KProcess;
    o->pid = pid;
    o->pidfd = syscall(SYS_pidfd_open, pid, 0);
    fcntl(o->pidfd, F_SETFD, FD_CLOEXEC);
    o->sidefd = sidefd;
    auto t = std::make_shared<Obj>();
    t->kind = KThread;
    vshim_log("SPAWN %d handles server=%d client=%d process=%d thread=%d inherit=%d fds=%d cmd=%s", (int)pid, counts[KPipeServer],
              counts[KPipeClient], counts[KProcess], counts[KThread], (int)inh.size(), countFds(), cl.c_str());
    std::lock_guard<std::mutex> l(H);
    pi->hProcess = newHandle(o);
    pi->hThread = newHandle(t);
    pi->dwProcessId = pid;
    pi->dwThreadId = pid;
    return TRUE;
}

BOOL WINAPI GetExitCodeProcess(HANDLE h, LPDWORD code)
{
    std::lock_guard<std::mutex> l(H);
    auto o = get(h, "GetExitCodeProcess");
    if (!o || o->kind != KProcess)
        return FALSE;
    *code = pollProcess(o.get());
    return TRUE;
}

BOOL WINAPI TerminateProcess(HANDLE h, UINT)
{
    std::lock_guard<std::mutex> l(H);
    auto o = get(h, "TerminateProcess");
    if (!o || o->kind != KProcess)
        return FALSE;
    if (!o->reaped)
        kill(o->pid, SIGKILL);
    return TRUE;
}

DWORD WINAPI WaitForSingleObject(HANDLE h, DWORD ms)
{
    int fd = -1;
    std::shared_ptr<Obj> o;
    {
        std::lock_guard<std::mutex> l(H);
        o = get(h, "WaitForSingleObject");
        if (!o)
            return WAIT_FAILED;
        if (o->kind == KProcess) {
            if (o->reaped)
                return WAIT_OBJECT_0;
            fd = o->pidfd;
        } else {
            fd = o->fd;
        }
    }
    if (fd < 0)
        return WAIT_FAILED;
    pollfd p = {fd, POLLIN, 0};
    int r;
    do {
        r = poll(&p, 1, ms == INFINITE ? -1 : (int)ms);
    } while (r < 0 && errno == EINTR);
    if (r == 0)
        return WAIT_TIMEOUT;
    if (o->kind == KEvent && !o->manual) {
        uint64_t v;
        ssize_t k = read(fd, &v, sizeof v);
        (void)k;
    }
    return WAIT_OBJECT_0;
}

DWORD WINAPI WaitForMultipleObjects(DWORD n, const HANDLE *hs, BOOL all, DWORD ms)
{
    if (all) {
        for (DWORD i = 0; i < n; ++i)
            if (WaitForSingleObject(hs[i], ms) != WAIT_OBJECT_0)
                return WAIT_TIMEOUT;
        return WAIT_OBJECT_0;
    }
    for (DWORD waited = 0;; waited += 2) {
        for (DWORD i = 0; i < n; ++i)
            if (WaitForSingleObject(hs[i], 0) == WAIT_OBJECT_0)
                return WAIT_OBJECT_0 + i;
        if (ms != INFINITE && waited >= ms)
            return WAIT_TIMEOUT;
        usleep(2000);
    }
}

HANDLE WINAPI CreateEventW(LPSECURITY_ATTRIBUTES, BOOL manual, BOOL initial, LPCWSTR)
{
    std::lock_guard<std::mutex> l(H);
    auto o = std::make_shared<Obj>();
    o->kind = KEvent;
    o->manual = manual;
    o->fd = eventfd(initial ? 1 : 0, EFD_CLOEXEC | EFD_NONBLOCK);
    return newHandle(o);
}
BOOL WINAPI SetEvent(HANDLE h)
{
    std::lock_guard<std::mutex> l(H);
    auto o = get(h, "SetEvent");
    if (!o)
        return FALSE;
    uint64_t one = 1;
    return write(o->fd, &one, sizeof one) == sizeof one;
}
BOOL WINAPI ResetEvent(HANDLE h)
{
    std::lock_guard<std::mutex> l(H);
    auto o = get(h, "ResetEvent");
    if (!o)
        return FALSE;
    uint64_t v;
    ssize_t k = read(o->fd, &v, sizeof v);
    (void)k;
    return TRUE;
}

HANDLE WINAPI GetCurrentProcess(void) { return INVALID_HANDLE_VALUE; }
DWORD WINAPI GetCurrentProcessId(void) { return getpid(); }
DWORD WINAPI GetCurrentThreadId(void) { return syscall(SYS_gettid); }
void WINAPI Sleep(DWORD ms) { usleep(ms * 1000); }
DWORD WINAPI SleepEx(DWORD ms, BOOL) { usleep(ms * 1000); return 0; }

// ---------------------------------------------------------------- console control
static std::atomic<PHANDLER_ROUTINE> ctrlHandler;
static int ctrlPipe[2] = {-1, -1};
static void onSignal(int sig)
{
    int e = errno;
    const char c = sig == SIGINT ? CTRL_C_EVENT : CTRL_BREAK_EVENT;
    ssize_t k = write(ctrlPipe[1], &c, 1);
    (void)k;
    errno = e;
}
// Windows runs the handler on a thread of its own.
static void *ctrlThread(void *)
{
    char c;
    while (read(ctrlPipe[0], &c, 1) == 1 || errno == EINTR)
        if (PHANDLER_ROUTINE f = ctrlHandler)
            f((DWORD)c);
    return nullptr;
}
BOOL WINAPI SetConsoleCtrlHandler(PHANDLER_ROUTINE f, BOOL add)
{
    ctrlHandler = add ? f : nullptr;
    if (add && ctrlPipe[0] < 0) {
        if (pipe2(ctrlPipe, O_CLOEXEC) != 0)
            return FALSE;
        sigset_t all, old;
        sigfillset(&all);
        pthread_sigmask(SIG_BLOCK, &all, &old);
        pthread_t t;
        if (pthread_create(&t, nullptr, ctrlThread, nullptr) == 0)
            pthread_detach(t);
        pthread_sigmask(SIG_SETMASK, &old, nullptr);
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = add ? onSignal : SIG_DFL;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGINT, &sa, nullptr);
    sigaction(SIGTERM, &sa, nullptr);   // Ctrl-Break
    return TRUE;
}
// Ends the other threads before anything else.
void WINAPI ExitProcess(DWORD code) { _exit((int)code); }
BOOL WINAPI GenerateConsoleCtrlEvent(DWORD ev, DWORD group)
{
    vshim_log("CTRL-EVENT %u %u", (unsigned)ev, (unsigned)group);
    return TRUE;
}

// ---------------------------------------------------------------- files and time
static void toFileTime(const timespec &ts, FILETIME *ft)
{
    unsigned long long v = ((unsigned long long)ts.tv_sec + 11644473600ULL) * 10000000ULL + ts.tv_nsec / 100;
    ft->dwLowDateTime = (DWORD)v;
    ft->dwHighDateTime = (DWORD)(v >> 32);
}

BOOL WINAPI GetFileAttributesExW(LPCWSTR name, GET_FILEEX_INFO_LEVELS, LPVOID out)
{
    std::string p = vshim_resolve(toUtf8(name));
    struct stat st;
    if (p.empty() || stat(p.c_str(), &st) != 0) {
        tlsLastError = ERROR_FILE_NOT_FOUND;
        return FALSE;
    }
    WIN32_FILE_ATTRIBUTE_DATA *d = (WIN32_FILE_ATTRIBUTE_DATA *)out;
    memset(d, 0, sizeof *d);
    d->dwFileAttributes = S_ISDIR(st.st_mode) ? FILE_ATTRIBUTE_DIRECTORY : FILE_ATTRIBUTE_ARCHIVE;
    toFileTime(st.st_mtim, &d->ftLastWriteTime);
    toFileTime(st.st_mtim, &d->ftCreationTime);
    toFileTime(st.st_atim, &d->ftLastAccessTime);
    d->nFileSizeLow = (DWORD)st.st_size;
    d->nFileSizeHigh = (DWORD)((unsigned long long)st.st_size >> 32);
    return TRUE;
}
DWORD WINAPI GetFileAttributesW(LPCWSTR name)
{
    WIN32_FILE_ATTRIBUTE_DATA d;
    return GetFileAttributesExW(name, GetFileExInfoStandard, &d) ? d.dwFileAttributes : INVALID_FILE_ATTRIBUTES;
}
BOOL WINAPI DeleteFileW(LPCWSTR name)
{
    std::string p = vshim_resolve(toUtf8(name));
    if (!vshim_may_write(p)) {
        tlsLastError = ERROR_ACCESS_DENIED;
        return FALSE;
    }
    return unlink(p.c_str()) == 0;
}

DWORD WINAPI GetTempPathW(DWORD n, LPWSTR buf)
{
    std::string t = getenvCI("TMP");
    if (t.empty())
        t = getenvCI("TEMP");
    if (t.empty())
        t = "\\tmp";
    if (t.back() != '\\')
        t += '\\';
    auto w = fromUtf8(t.c_str());
    if (w.size() + 1 > n)
        return w.size() + 1;
    memcpy(buf, w.c_str(), (w.size() + 1) * sizeof(WCHAR));
    return w.size();
}

ULONGLONG WINAPI GetTickCount64(void)
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    unsigned long long ms = ts.tv_sec * 1000ULL + ts.tv_nsec / 1000000;
    return ms / 16 * 16;    // the granularity of the Windows tick count
}
DWORD WINAPI GetTickCount(void) { return (DWORD)GetTickCount64(); }

LONG WINAPI CompareFileTime(const FILETIME *a, const FILETIME *b)
{
    unsigned long long x = (unsigned long long)a->dwHighDateTime << 32 | a->dwLowDateTime;
    unsigned long long y = (unsigned long long)b->dwHighDateTime << 32 | b->dwLowDateTime;
    return x < y ? -1 : x > y ? 1 : 0;
}

static long long daysFromCivil(long long y, int m, int d)
{
    y -= m <= 2;
    long long era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (long long)doe - 719468;
}
void WINAPI GetSystemTime(LPSYSTEMTIME st)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tm t;
    gmtime_r(&ts.tv_sec, &t);
    st->wYear = t.tm_year + 1900; st->wMonth = t.tm_mon + 1; st->wDay = t.tm_mday; st->wDayOfWeek = t.tm_wday;
    st->wHour = t.tm_hour; st->wMinute = t.tm_min; st->wSecond = t.tm_sec; st->wMilliseconds = ts.tv_nsec / 1000000;
}
BOOL WINAPI SystemTimeToFileTime(const SYSTEMTIME *st, LPFILETIME ft)
{
    timespec ts;
    ts.tv_sec = daysFromCivil(st->wYear, st->wMonth, st->wDay) * 86400 + st->wHour * 3600 + st->wMinute * 60 + st->wSecond;
    ts.tv_nsec = st->wMilliseconds * 1000000L;
    toFileTime(ts, ft);
    return TRUE;
}
BOOL WINAPI FileTimeToSystemTime(const FILETIME *ft, LPSYSTEMTIME st)
{
    unsigned long long v = (unsigned long long)ft->dwHighDateTime << 32 | ft->dwLowDateTime;
    time_t s = (time_t)((long long)(v / 10000000ULL) - 11644473600LL);
    tm t;
    gmtime_r(&s, &t);
    st->wYear = t.tm_year + 1900; st->wMonth = t.tm_mon + 1; st->wDay = t.tm_mday; st->wDayOfWeek = t.tm_wday;
    st->wHour = t.tm_hour; st->wMinute = t.tm_min; st->wSecond = t.tm_sec; st->wMilliseconds = (v % 10000000ULL) / 10000;
    return TRUE;
}
BOOL WINAPI SystemTimeToTzSpecificLocalTime(const TIME_ZONE_INFORMATION *, const SYSTEMTIME *in, LPSYSTEMTIME out)
{
    *out = *in;     // the checks run in UTC
    return TRUE;
}
void WINAPI GetSystemTimeAsFileTime(LPFILETIME ft)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    toFileTime(ts, ft);
}
} // extern "C"

// ---------------------------------------------------------------- formatted printing (varargs with the native ABI in Wine headers)
static int vformat(WCHAR *buf, size_t cap, const WCHAR *fmt, __builtin_ms_va_list ap)
{
    std::u16string r;
    for (; *fmt; ++fmt) {
        if (*fmt != '%') { r += *fmt; continue; }
        std::string spec = "%";
        ++fmt;
        while (*fmt && strchr("-+ #0123456789.", (char)*fmt))
            spec += (char)*fmt++;
        while (*fmt == 'l' || *fmt == 'h' || *fmt == 'I')
            ++fmt;
        char tmp[64];
        switch ((char)*fmt) {
        case 'd': case 'i': case 'u': case 'x': case 'X':
            spec += (char)*fmt;
            snprintf(tmp, sizeof tmp, spec.c_str(), __builtin_va_arg(ap, int));
            for (char *p = tmp; *p; ++p) r += (char16_t)*p;
            break;
        case 's': {
            const WCHAR *s = __builtin_va_arg(ap, const WCHAR *);
            while (s && *s) r += *s++;
            break;
        }
        case 'c': r += (char16_t)__builtin_va_arg(ap, int); break;
        case '%': r += '%'; break;
        default: break;
        }
        if (!*fmt) break;
    }
    if (r.size() + 1 > cap) r.resize(cap - 1);
    memcpy(buf, r.c_str(), (r.size() + 1) * sizeof(WCHAR));
    return (int)r.size();
}
extern "C" int WINAPIV wsprintfW(LPWSTR buf, LPCWSTR fmt, ...)
{
    __builtin_ms_va_list ap;
    __builtin_ms_va_start(ap, fmt);
    int n = vformat((WCHAR *)buf, 1024, (const WCHAR *)fmt, ap);
    __builtin_ms_va_end(ap);
    return n;
}

// ---------------------------------------------------------------- libc calls that must not reach the real system
#include <dlfcn.h>
static bool denied(const char *what, const char *path)
{
    initState();
    if (path && vshim_may_write(path))
        return false;
    vshim_log("WRITE-DENIED %s %s", what, path ? path : "");
    errno = EACCES;
    return true;
}
extern "C" int unlink(const char *p) noexcept
{
    if (denied("unlink", p))
        return -1;
    return syscall(SYS_unlink, p);
}
extern "C" int rmdir(const char *p) noexcept
{
    if (denied("rmdir", p))
        return -1;
    return syscall(SYS_rmdir, p);
}
extern "C" int remove(const char *p) noexcept
{
    if (denied("remove", p))
        return -1;
    return syscall(SYS_unlink, p);
}
extern "C" int rename(const char *a, const char *b) noexcept
{
    if (denied("rename", a) || denied("rename", b))
        return -1;
    return syscall(SYS_rename, a, b);
}
extern "C" int system(const char *cmd)
{
    if (!cmd)
        return 1;
    initState();
    vshim_log("SYSTEM %s", cmd);
    if (S->bin.empty() || !S->vars["VSHIM_NOEXEC"].empty())
        return 0;
    fflush(nullptr);
    std::string cl = std::string("minicmd /C ") + cmd;
    std::vector<std::string> env;
    for (char **e = environ; *e; ++e)
        env.push_back(*e);
    for (auto &e : childVars(cl))
        env.push_back(e);
    pid_t pid;
    int side = -1;
    if (vshim_spawn(S->bin + "/minicmd", cl, env, std::string(), -1, -1, -1, {}, &pid, &side) != 0)
        return -1;
    int status;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
        ;
    DWORD c = WIFEXITED(status) ? WEXITSTATUS(status) : 0xC0000005u, c2;
    if (read(side, &c2, 4) == 4)
        c = c2;
    close(side);
    return (int)c;
}
