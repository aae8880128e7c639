// In-process fuzz target: makefile, include file, arguments, environment and command file in one input, separated by 0x1e.
// Everything that jom does up to (and without) the execution of commands.
#include "makefilefactory.h"
#include "makefile.h"
#include "options.h"
#include "exception.h"
#include "dependencygraph.h"
#include "fastfileinfo.h"
#include "macrotable.h"
#include <QCoreApplication>
#include <QTextCodec>
#include <QStringList>
#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <unistd.h>
#include <vector>

using namespace NMakeFile;

static jmp_buf out;
static bool inside;

extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int code)
{
    if (inside)
        longjmp(out, 1);
    __real_exit(code);
}

extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
    static int argc = 1;
    static char name[] = "jom";
    static char *argv[] = { name, nullptr };
    new QCoreApplication(argc, argv);
    QTextCodec::setCodecForLocale(QTextCodec::codecForName("IBM 850"));
    if (const char *d = getenv("FUZZ_DIR"))
        if (chdir(d) != 0)
            _exit(3);
    return 0;
}

static void put(const char *name, const std::string &s)
{
    FILE *f = ::fopen(name, "wb");
    if (!f)
        _exit(3);
    ::fwrite(s.data(), 1, s.size(), f);
    ::fclose(f);
}

static void build(Makefile *mk, Options *options, const QStringList &goals)
{
    if (options->displayMakeInformation) {
        mk->macroTable()->dump();
        mk->dumpInferenceRules();
        mk->dumpTargets();
    }
    QList<DescriptionBlock *> targets;
    if (goals.isEmpty()) {
        if (mk->targets().isEmpty())
            return;
        targets << mk->firstTarget();
    }
    foreach (const QString &g, goals) {
        DescriptionBlock *t = mk->target(g);
        if (!t)
            return;
        targets << t;
    }
    int steps = 0;
    foreach (DescriptionBlock *t, targets) {
        DependencyGraph graph;
        graph.build(t);
        if (options->dumpDependencyGraph) {
            if (options->dumpDependencyGraphDot)
                graph.dotDump();
            else
                graph.dump();
            graph.clear();
            continue;
        }
        while (DescriptionBlock *n = graph.findAvailableTarget(options->buildAllTargets)) {
            if (++steps > 500)
                break;
            if (!n->m_commands.isEmpty()) {
                n->expandFileNameMacros();
                n->assumeMade();
                FastFileInfo::clearCacheForFile(n->targetName());
                n->m_batchTargets.clear();
            }
            graph.removeLeaf(n);
        }
        graph.clear();
        mk->invalidateTimeStamps();
    }
}

static void one(const std::vector<std::string> &part)
{
    QStringList args, env;
    for (size_t i = 2; i < 4 && i < part.size(); ++i) {
        size_t a = 0;
        while (a <= part[i].size()) {
            size_t b = part[i].find('\n', a);
            if (b == std::string::npos)
                b = part[i].size();
            if (b > a)
                (i == 2 ? args : env) << QString::fromUtf8(part[i].data() + a, int(b - a)).remove(QChar(0));
            a = b + 1;
        }
    }
    QStringList safe;
    foreach (const QString &a, args) {
        // stderr isn't redirected, and job counts stay affordable (executors aren't created here anyway)
        if (!(a.startsWith(QLatin1Char('/')) || a.startsWith(QLatin1Char('-'))) || !a.contains(QLatin1Char('x'), Qt::CaseInsensitive))
            safe << a;
    }
    g_options = GlobalOptions();
    MakefileFactory mf;
    mf.setEnvironment(env);
    Options *options = nullptr;
    Makefile *mk = nullptr;
    try {
        // Exceptions thrown here are caught by main().
        const bool ok = mf.apply(safe, &options);
        mk = mf.makefile();
        if (ok && mk)
            build(mk, options, mf.activeTargets());
    } catch (const Exception &) {
    }
    if (mk) {
        mk->clear();
        delete mk;
    }
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    std::vector<std::string> part(1);
    for (size_t i = 0; i < size; ++i) {
        if (data[i] == 0x1e && part.size() < 5)
            part.push_back(std::string());
        else
            part.back() += char(data[i]);
    }
    // Values that refer to each other several times per line take exponential time by definition.
    double expansions = 1;
    for (int p = 0; p < 2 && p < int(part.size()); ++p) {
        int refs = 0;
        for (size_t i = 0; i <= part[p].size(); ++i) {
            if (i == part[p].size() || (part[p][i] == '\n' && (i == 0 || part[p][i - 1] != '\\'))) {
                if (refs > 1)
                    expansions *= refs;
                refs = 0;
            } else if (part[p][i] == '$' && i + 1 < part[p].size()) {
                const char c = part[p][i + 1];
                refs += c == '(' ? (i + 2 >= part[p].size() || !strchr("@*<?", part[p][i + 2])) : !strchr("@*<?$\n", c);
            }
        }
    }
    if (expansions > 200000)
        return -1;
    put("Makefile", part[0]);
    put("inc.mak", part.size() > 1 ? part[1] : std::string());
    put("cmd.rsp", part.size() > 4 ? part[4] : std::string());
    FastFileInfo::clearCache();
    inside = true;
    if (setjmp(out) == 0)
        one(part);
    inside = false;
    return 0;
}
