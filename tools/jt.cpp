// jt: the command the generated makefiles run. Logs its start and end, and does small scripted things in between.
#include "common.h"

static void writeAll(int fd, const std::string &s)
{
    size_t i = 0;
    while (i < s.size()) {
        ssize_t n = write(fd, s.data() + i, s.size() - i);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) return;
        i += n;
    }
}

static std::vector<std::string> fields(const std::string &s, char sep, size_t max)
{
    std::vector<std::string> r;
    size_t i = 0;
    while (r.size() + 1 < max) {
        size_t j = s.find(sep, i);
        if (j == std::string::npos) break;
        r.push_back(s.substr(i, j - i));
        i = j + 1;
    }
    r.push_back(s.substr(i));
    return r;
}

int main(int argc, char **argv)
{
    signal(SIGPIPE, SIG_IGN);
    fcntl(198, F_SETFD, FD_CLOEXEC);
    std::string id = "?";
    for (int i = 1; i < argc; ++i)
        if (strncmp(argv[i], "id=", 3) == 0) { id = argv[i] + 3; break; }
    logev("S " + pct(id) + " " + pct(cwdName()) + " " + pct(ev("VSHIM_CMDLINE")));
    uint32_t code = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto starts = [&](const char *p) { return a.compare(0, strlen(p), p) == 0; };
        auto rest = [&](const char *p) { return a.substr(strlen(p)); };
        if (starts("id=")) {
        } else if (starts("o:")) writeAll(1, rest("o:") + "\n");
        else if (starts("on:")) writeAll(1, rest("on:"));
        else if (starts("e:")) writeAll(2, rest("e:") + "\n");
        else if (starts("P:") || starts("Q:")) {      // P:lines:width:tag  patterned output (Q: to stderr)
            auto f = fields(rest("P:"), ':', 3);
            int lines = atoi(f[0].c_str()), width = atoi(f[1].c_str());
            std::string all;
            for (int k = 0; k < lines; ++k) {
                char h[64];
                snprintf(h, sizeof h, "<%s:%d:", f[2].c_str(), k);
                std::string l = h;
                while ((int)l.size() < width) l += (char)('a' + (k + l.size()) % 26);
                all += l + ">\n";
            }
            writeAll(starts("P:") ? 1 : 2, all);
        } else if (starts("G:")) {                     // G:alphabet:seed:length:chunk:pause_us:fd  generated bytes
            auto f = fields(rest("G:"), ':', 6);
            unsigned k = atoi(f[0].c_str());
            uint32_t x = (uint32_t)strtoul(f[1].c_str(), nullptr, 10);
            long len = atol(f[2].c_str()), chunk = std::max(1L, atol(f[3].c_str()));
            int us = atoi(f[4].c_str()), fd = atoi(f[5].c_str());
            static char table[65521];                   // fixed pseudo-random table, read from position seed
            if (!table[0]) {
                uint32_t t = 1;
                for (char &c : table) {
                    t = t * 1103515245u + 12345u;
                    c = (char)(1 + (t >> 16) % 6);
                }
            }
            std::string all(len, 0);
            for (long i = 0; i < len; ++i)
                all[i] = (char)(k + 40 * (table[(x + (unsigned long)i) % sizeof table] - 1));
            for (long i = 0; i < len; i += chunk) {
                writeAll(fd, all.substr(i, chunk));
                if (us) usleep(us);
            }
        } else if (starts("s:")) usleep(atoi(rest("s:").c_str()) * 1000);
        else if (starts("t:") || starts("w:")) {       // t:file touch now, w:file:content
            auto f = fields(rest("t:"), ':', 2);
            std::string p = resolve(f[0]);
            if (mayWrite(p)) {
                int fd = open(p.c_str(), O_WRONLY | O_CREAT | (starts("w:") ? O_TRUNC : 0), 0666);
                if (fd >= 0) {
                    if (f.size() > 1) writeAll(fd, f[1]);
                    futimens(fd, nullptr);
                    close(fd);
                }
            }
        } else if (starts("B:")) {                     // B:dir:ext  touch dir/base.ext for each argument behind "stop"
            auto f = fields(rest("B:"), ':', 2);
            int k = i;
            while (k < argc && strcmp(argv[k], "stop") != 0) ++k;
            for (++k; k < argc; ++k) {
                std::string n = argv[k];
                size_t b = n.find_last_of("/\\");
                if (b != std::string::npos) n = n.substr(b + 1);
                n = n.substr(0, n.rfind('.'));
                std::string p = resolve(f[0] + "\\" + n + f[1]);
                int fd = mayWrite(p) ? open(p.c_str(), O_WRONLY | O_CREAT, 0666) : -1;
                if (fd >= 0) {
                    futimens(fd, nullptr);
                    close(fd);
                }
            }
        } else if (starts("T:")) {                     // T:file:epochseconds
            auto f = fields(rest("T:"), ':', 2);
            std::string p = resolve(f[0]);
            if (mayWrite(p)) {
                int fd = open(p.c_str(), O_WRONLY | O_CREAT, 0666);
                if (fd >= 0) {
                    timespec ts[2] = {{atoll(f[1].c_str()), 0}, {atoll(f[1].c_str()), 0}};
                    futimens(fd, ts);
                    close(fd);
                }
            }
        } else if (starts("d:")) {
            std::string p = resolve(rest("d:"));
            if (mayWrite(p)) unlink(p.c_str());
        } else if (starts("need:")) {                  // log whether a file exists now
            std::string p = resolve(rest("need:"));
            logev("NEED " + pct(id) + " " + pct(rest("need:")) + " " + (access(p.c_str(), F_OK) == 0 ? "1" : "0"));
        } else if (starts("cat:")) {
            std::string p = resolve(rest("cat:")), c;
            FILE *f = fopen(p.c_str(), "rb");
            if (f) {
                char b[4096];
                size_t n;
                while ((n = fread(b, 1, sizeof b, f)) > 0) c.append(b, n);
                fclose(f);
            }
            logev("CAT " + pct(id) + " " + pct(rest("cat:")) + " " + (f ? pct(c) : "MISSING"));
        } else if (starts("env:")) {
            std::string n = rest("env:");
            std::string v = "UNSET";
            for (char **e = environ; *e; ++e) {
                const char *eq = strchr(*e, '=');
                if (eq && (size_t)(eq - *e) == n.size() && strncasecmp(*e, n.c_str(), n.size()) == 0) { v = pct(eq + 1); break; }
            }
            logev("ENV " + pct(id) + " " + pct(n) + " " + v);
        } else if (a == "envall") {
            for (char **e = environ; *e; ++e)
                if (strncmp(*e, "VSHIM_", 6) != 0) logev("ENVALL " + pct(id) + " " + pct(*e));
        } else if (a == "args") {
            std::string s;
            for (int k = 1; k < argc; ++k) s += " " + pct(argv[k]);
            logev("ARGS " + pct(id) + s);
        } else if (starts("x:")) code = (uint32_t)strtoll(rest("x:").c_str(), nullptr, 10);
        else if (a == "stop") break;                   // ignore the rest of the arguments
        else if (a == "crash") { logev("E " + pct(id) + " crash"); kill(getpid(), SIGKILL); }
        else if (a == "closeout") { close(1); close(2); }
        else if (starts("daemon:")) {                  // a grandchild keeps the output pipes open
            if (fork() == 0) {
                usleep(atoi(rest("daemon:").c_str()) * 1000);
                _exit(0);
            }
        } else if (a == "wait") {                      // block until the controller says go
            sockaddr_un sa;
            memset(&sa, 0, sizeof sa);
            sa.sun_family = AF_UNIX;
            strncpy(sa.sun_path, ev("VSHIM_CTL").c_str(), sizeof sa.sun_path - 1);
            int s = socket(AF_UNIX, SOCK_STREAM, 0);
            if (s >= 0 && connect(s, (sockaddr *)&sa, sizeof sa) == 0) {
                writeAll(s, id + "\n");
                char c;
                while (read(s, &c, 1) < 0 && errno == EINTR) {}
                close(s);
            }
        }
    }
    logev("E " + pct(id) + " " + std::to_string(code));
    exit32(code);
}
