// Shared by jt and minicmd: event log, path confinement, percent encoding, 32-bit exit codes.
#pragma once
#include <cerrno>
#include <algorithm>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <strings.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
extern char **environ;

static int logfd = -2;
static std::string ev(const char *n) { const char *v = getenv(n); return v ? v : ""; }

static void logev(const std::string &body)
{
    if (logfd == -2) {
        std::string p = ev("VSHIM_LOG");
        logfd = p.empty() ? -1 : open(p.c_str(), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
    }
    if (logfd < 0)
        return;
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    char head[64];
    snprintf(head, sizeof head, "%lld %d ", (long long)ts.tv_sec * 1000000000LL + ts.tv_nsec, (int)getpid());
    std::string line = head + body + "\n";
    ssize_t w = write(logfd, line.data(), line.size());
    (void)w;
}

static std::string pct(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (isalnum(c) || strchr("_-./:\\,=+@", c) && c) r += (char)c;
        else { char b[4]; snprintf(b, sizeof b, "%%%02x", c); r += b; }
    }
    return r.empty() ? "%" : r;
}

static std::string resolve(std::string p)
{
    for (char &c : p) if (c == '\\') c = '/';
    if (p.size() >= 2 && isalpha((unsigned char)p[0]) && p[1] == ':') p.erase(0, 2);
    struct stat st;
    if (p.empty() || lstat(p.c_str(), &st) == 0) return p;
    std::string cur = p[0] == '/' ? "/" : "";
    size_t i = cur.size();
    while (i <= p.size()) {
        size_t j = p.find('/', i);
        if (j == std::string::npos) j = p.size();
        std::string comp = p.substr(i, j - i);
        if (!comp.empty()) {
            std::string cand = cur + comp;
            if (lstat(cand.c_str(), &st) != 0) {
                bool found = false;
                if (DIR *d = opendir(cur.empty() ? "." : cur.c_str())) {
                    while (dirent *e = readdir(d))
                        if (strcasecmp(e->d_name, comp.c_str()) == 0) { cand = cur + e->d_name; found = true; break; }
                    closedir(d);
                }
                if (!found) return j >= p.size() ? cand : cand + p.substr(j);
            }
            cur = cand;
        }
        if (j < p.size()) cur += '/';
        i = j + 1;
    }
    return cur;
}

static bool mayWrite(const std::string &path)
{
    std::string root = ev("VSHIM_ROOT");
    if (root.empty()) return false;
    std::string dir = path;
    size_t k = dir.rfind('/');
    dir = k == std::string::npos ? "." : k == 0 ? "/" : dir.substr(0, k);
    char buf[PATH_MAX];
    if (!realpath(dir.c_str(), buf)) return false;
    struct stat st;
    if (lstat(path.c_str(), &st) == 0 && S_ISLNK(st.st_mode)) return false;
    return (std::string(buf) + "/").compare(0, root.size() + 1, root + "/") == 0;
}

static void exit32(uint32_t code)
{
    fflush(nullptr);
    ssize_t w = write(198, &code, 4);
    (void)w;
    _exit((int)(code & 255));
}

static std::string cwdName()
{
    char b[PATH_MAX];
    std::string c = getcwd(b, sizeof b) ? b : "?";
    std::string root = ev("VSHIM_ROOT");
    if (!root.empty() && c.compare(0, root.size(), root) == 0) c = c.substr(root.size());
    return c.empty() ? "/" : c;
}
