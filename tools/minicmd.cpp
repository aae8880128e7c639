// minicmd: the stand-in for cmd.exe (ComSpec). Runs "/C <command line>" with the subset of cmd's language that makefiles use.
#include "common.h"

static bool exitNow = false;
static int runLine(const std::string &line);

static std::string trim(const std::string &s)
{
    size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
static std::string lower(std::string s) { for (char &c : s) c = tolower((unsigned char)c); return s; }
static std::string unquote(const std::string &s) { std::string r; for (char c : s) if (c != '"') r += c; return r; }

static std::string expandVars(const std::string &s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == '%') {
            size_t j = s.find('%', i + 1);
            if (j != std::string::npos && j > i + 1) {
                std::string n = s.substr(i + 1, j - i - 1);
                bool found = false;
                for (char **e = environ; *e; ++e) {
                    const char *eq = strchr(*e, '=');
                    if (eq && (size_t)(eq - *e) == n.size() && strncasecmp(*e, n.c_str(), n.size()) == 0) { r += eq + 1; found = true; break; }
                }
                if (found) { i = j; continue; }
            }
        }
        r += s[i];
    }
    return r;
}

static std::vector<std::string> words(const std::string &s)
{
    std::vector<std::string> out;
    std::string cur;
    bool q = false, any = false;
    for (char c : s) {
        if (c == '"') { q = !q; any = true; }
        if (!q && (c == ' ' || c == '\t')) { if (any || !cur.empty()) out.push_back(cur); cur.clear(); any = false; }
        else { cur += c; any = true; }
    }
    if (any || !cur.empty()) out.push_back(cur);
    return out;
}

static std::vector<std::string> msvcArgs(const std::string &s)
{
    std::vector<std::string> out;
    size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i;
        if (i >= s.size()) break;
        std::string a;
        bool q = false;
        while (i < s.size() && (q || (s[i] != ' ' && s[i] != '\t'))) {
            size_t bs = 0;
            while (i < s.size() && s[i] == '\\') { ++bs; ++i; }
            if (i < s.size() && s[i] == '"') {
                a.append(bs / 2, '\\');
                if (bs % 2) { a += '"'; ++i; }
                else { q = !q; ++i; }
            } else {
                a.append(bs, '\\');
                if (i < s.size() && (q || (s[i] != ' ' && s[i] != '\t'))) a += s[i++];
            }
        }
        out.push_back(a);
    }
    return out;
}

static int external(const std::string &cmd)
{
    auto av = msvcArgs(cmd);
    if (av.empty()) return 0;
    std::string bin = ev("VSHIM_BIN"), n = av[0];
    size_t k = n.find_last_of("\\/");
    std::string base = k == std::string::npos ? n : n.substr(k + 1);
    if (base.size() > 4 && strcasecmp(base.c_str() + base.size() - 4, ".exe") == 0) base.resize(base.size() - 4);
    base = lower(base);
    if (base == "cmd") base = "minicmd";
    std::string prog = bin + "/" + base;
    if (bin.empty() || base.empty() || base.find('.') != std::string::npos || access(prog.c_str(), X_OK) != 0) {
        fflush(stdout);
        fprintf(stderr, "'%s' is not recognized as an internal or external command.\n", n.c_str());
        fflush(stderr);
        logev("NOTFOUND " + pct(cmd));
        return 9009;
    }
    setenv("VSHIM_CMDLINE", cmd.c_str(), 1);
    int side[2];
    if (pipe2(side, O_CLOEXEC) != 0) return 1;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        std::vector<char *> a;
        for (auto &x : av) a.push_back((char *)x.c_str());
        a.push_back(nullptr);
        dup2(side[1], 198);
        execv(prog.c_str(), a.data());
        _exit(127);
    }
    close(side[1]);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    uint32_t c = WIFEXITED(st) ? WEXITSTATUS(st) : 0xC0000005u, c2;
    fcntl(side[0], F_SETFL, O_NONBLOCK);
    if (WIFEXITED(st) && read(side[0], &c2, 4) == 4) c = c2;
    close(side[0]);
    return (int)c;
}

static int copyFile(const std::string &a, const std::string &b)
{
    std::string src = resolve(a), dst = resolve(b);
    struct stat st;
    if (stat(dst.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
        size_t k = src.rfind('/');
        dst += "/" + (k == std::string::npos ? src : src.substr(k + 1));
    }
    FILE *f = fopen(src.c_str(), "rb");
    if (!f) { fprintf(stderr, "The system cannot find the file specified.\n"); return 1; }
    if (!mayWrite(dst)) { fclose(f); fprintf(stderr, "Access is denied.\n"); return 1; }
    FILE *g = fopen(dst.c_str(), "wb");
    char buf[4096];
    size_t n;
    while (g && (n = fread(buf, 1, sizeof buf, f)) > 0) fwrite(buf, 1, n, g);
    fclose(f);
    if (!g) return 1;
    fclose(g);
    printf("        1 file(s) copied.\n");
    return 0;
}

// one simple command, redirections already removed
static int simple(const std::string &raw)
{
    std::string s = trim(raw);
    if (!s.empty() && s[0] == '@') s = trim(s.substr(1));
    if (s.empty()) return 0;
    size_t k = s.find_first_of(" \t");
    std::string w = lower(s.substr(0, k)), rest = k == std::string::npos ? "" : s.substr(k + 1);
    if (w == "echo") { printf("%s\n", rest.c_str()); return 0; }
    if (w.compare(0, 5, "echo.") == 0) { printf("%s%s%s\n", s.substr(5, k == std::string::npos ? k : k - 5).c_str(), k == std::string::npos ? "" : " ", rest.c_str()); return 0; }
    if (w == "rem" || w[0] == ':') return 0;
    if (w == "exit") {
        auto v = words(rest);
        int c = 0;
        for (auto &x : v) if (lower(x) != "/b") c = (int)strtoll(x.c_str(), nullptr, 10);
        exitNow = true;
        return c;
    }
    if (w == "set") {
        size_t e = rest.find('=');
        if (e == std::string::npos) {
            for (char **p = environ; *p; ++p)
                if (strncmp(*p, "VSHIM_", 6) && strncasecmp(*p, rest.c_str(), rest.size()) == 0) printf("%s\n", *p);
            return 0;
        }
        setenv(rest.substr(0, e).c_str(), rest.substr(e + 1).c_str(), 1);
        return 0;
    }
    if (w == "cd" || w == "chdir") {
        std::string d = trim(rest);
        if (lower(d.substr(0, 2)) == "/d") d = trim(d.substr(2));
        d = unquote(d);
        if (d.empty()) { printf("%s\n", cwdName().c_str()); return 0; }
        if (chdir(resolve(d).c_str()) != 0) { fprintf(stderr, "The system cannot find the path specified.\n"); return 1; }
        return 0;
    }
    if (w == "type") {
        int rc = 0;
        for (auto &x : words(rest)) {
            FILE *f = fopen(resolve(unquote(x)).c_str(), "rb");
            if (!f) { fprintf(stderr, "The system cannot find the file specified.\n"); rc = 1; continue; }
            char b[4096];
            size_t n;
            while ((n = fread(b, 1, sizeof b, f)) > 0) fwrite(b, 1, n, stdout);
            fclose(f);
        }
        return rc;
    }
    if (w == "del" || w == "erase") {
        for (auto &x : words(rest)) {
            if (x[0] == '/') continue;
            std::string p = resolve(unquote(x));
            if (mayWrite(p)) unlink(p.c_str());
        }
        return 0;
    }
    if (w == "md" || w == "mkdir") {
        std::string p = resolve(unquote(trim(rest)));
        return mayWrite(p) && mkdir(p.c_str(), 0777) == 0 ? 0 : 1;
    }
    if (w == "copy") {
        std::vector<std::string> v;
        for (auto &x : words(rest)) if (x[0] != '/') v.push_back(unquote(x));
        return v.size() == 2 ? copyFile(v[0], v[1]) : 1;
    }
    if (w == "ver") { printf("minicmd\n"); return 0; }
    if (w == "call") return simple(rest);
    if (w == "if") {
        std::string r = trim(rest);
        bool neg = false;
        if (lower(r.substr(0, 4)) == "not ") { neg = true; r = trim(r.substr(4)); }
        auto v = words(r);
        if (v.size() < 2) return 1;
        bool cond;
        std::string cmd;
        if (lower(v[0]) == "exist") {
            std::string p = resolve(unquote(v[1]));
            cond = access(p.c_str(), F_OK) == 0;
            size_t pos = r.find(v[1]) + v[1].size();
            cmd = r.substr(pos);
        } else {
            size_t e = v[0].find("==");
            std::string head = v[0];
            if (e == std::string::npos) return 1;
            cond = head.substr(0, e) == head.substr(e + 2);
            cmd = r.substr(r.find(head) + head.size());
        }
        return cond != neg ? runLine(cmd) : 0;
    }
    return external(s);
}

struct Redir { int fd; int save; };

static int withRedirs(const std::string &cmd)
{
    std::string out;
    std::vector<Redir> saved;
    bool q = false, bad = false;
    for (size_t i = 0; i < cmd.size(); ++i) {
        char c = cmd[i];
        if (c == '^' && !q && i + 1 < cmd.size()) { out += cmd[++i]; continue; }
        if (c == '"') q = !q;
        if (!q && (c == '>' || c == '<')) {
            int fd = c == '>' ? 1 : 0;
            if (!out.empty() && isdigit((unsigned char)out.back()) && (out.size() == 1 || isspace((unsigned char)out[out.size() - 2]))) {
                fd = out.back() - '0';
                out.pop_back();
            }
            bool app = false;
            if (c == '>' && i + 1 < cmd.size() && cmd[i + 1] == '>') { app = true; ++i; }
            size_t j = i + 1;
            while (j < cmd.size() && (cmd[j] == ' ' || cmd[j] == '\t')) ++j;
            std::string f;
            bool fq = false;
            while (j < cmd.size() && (fq || (cmd[j] != ' ' && cmd[j] != '\t' && cmd[j] != '>' && cmd[j] != '<'))) {
                if (cmd[j] == '"') fq = !fq; else f += cmd[j];
                ++j;
            }
            i = j - 1;
            fflush(nullptr);
            int nfd = -1;
            if (f.size() == 2 && f[0] == '&') nfd = dup(f[1] - '0');
            else if (lower(f) == "nul") nfd = open("/dev/null", O_RDWR);
            else {
                std::string p = resolve(f);
                if (c == '<') nfd = open(p.c_str(), O_RDONLY);
                else if (mayWrite(p)) nfd = open(p.c_str(), O_WRONLY | O_CREAT | (app ? O_APPEND : O_TRUNC), 0666);
            }
            if (nfd < 0) { bad = true; continue; }
            saved.push_back({fd, fcntl(fd, F_DUPFD_CLOEXEC, 100)});
            dup2(nfd, fd);
            close(nfd);
            continue;
        }
        out += c;
    }
    int rc = bad ? 1 : simple(out);
    fflush(nullptr);
    for (size_t i = saved.size(); i-- > 0;) { dup2(saved[i].save, saved[i].fd); close(saved[i].save); }
    if (bad) { fprintf(stderr, "The system cannot find the file specified.\n"); fflush(nullptr); }
    return rc;
}

static int runLine(const std::string &line)
{
    int rc = 0;
    std::string cur;
    char op = '&';          // operator in front of cur: & ; a = && ; o = ||
    bool q = false;
    auto flush = [&](char next) {
        if (!exitNow) {
            bool run = op == '&' || (op == 'a' && rc == 0) || (op == 'o' && rc != 0);
            if (run && !trim(cur).empty()) rc = withRedirs(cur);
        }
        cur.clear();
        op = next;
    };
    for (size_t i = 0; i < line.size(); ++i) {
        char c = line[i];
        if (c == '^' && !q && i + 1 < line.size()) { cur += c; cur += line[++i]; continue; }
        if (c == '"') q = !q;
        if (!q && c == '&' && !(cur.size() && cur.back() == '>')) {
            if (i + 1 < line.size() && line[i + 1] == '&') { ++i; flush('a'); }
            else flush('&');
            continue;
        }
        if (!q && c == '|') {
            if (i + 1 < line.size() && line[i + 1] == '|') { ++i; flush('o'); continue; }
            // pipe: left side in a child
            int p[2];
            if (pipe(p) != 0) return 1;
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0) { dup2(p[1], 1); close(p[0]); close(p[1]); int r = withRedirs(cur); fflush(nullptr); _exit(r & 255); }
            close(p[1]);
            int save = fcntl(0, F_DUPFD_CLOEXEC, 100);
            dup2(p[0], 0);
            close(p[0]);
            rc = runLine(line.substr(i + 1));
            dup2(save, 0);
            close(save);
            waitpid(pid, nullptr, 0);
            return rc;
        }
        cur += c;
    }
    flush('&');
    return rc;
}

int main(int, char **)
{
    signal(SIGPIPE, SIG_IGN);
    fcntl(198, F_SETFD, FD_CLOEXEC);
    std::string cl = ev("VSHIM_CMDLINE");
    size_t k = cl.find("/C ");
    if (k == std::string::npos) k = cl.find("/c ");
    std::string s = k == std::string::npos ? "" : cl.substr(k + 3);
    size_t a = s.find_first_not_of(" \t");
    s = a == std::string::npos ? "" : s.substr(a);
    if (!s.empty() && s[0] == '"') {
        size_t quotes = 0;
        bool special = false;
        for (char c : s) { if (c == '"') ++quotes; if (strchr("&<>()@^|", c)) special = true; }
        size_t close = s.find('"', 1);
        bool keep = quotes == 2 && !special && close != std::string::npos && s.substr(1, close - 1).find(' ') != std::string::npos;
        if (!keep) {
            size_t last = s.rfind('"');
            if (last != 0) s.erase(last, 1);
            s.erase(0, 1);
        }
    }
    logev("CMD " + pct(s));
    int rc = runLine(expandVars(s));
    exit32((uint32_t)rc);
}
