// The two Qt classes of Qt-for-Windows that jom's process machinery uses.
#include <QtCore>
#include <QWinEventNotifier>
#include <QSystemSemaphore>
#include "vshim.h"
#include <fcntl.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <atomic>

// ------------------------------------------------------------------------------------------------ QWinEventNotifier
namespace {
struct NState { Qt::HANDLE h = nullptr; bool enabled = false; QSocketNotifier *sn = nullptr; };
QHash<const QWinEventNotifier *, NState> &states()
{
    static auto *s = new QHash<const QWinEventNotifier *, NState>;
    return *s;
}
}

QWinEventNotifier::QWinEventNotifier(QObject *parent) : QObject(parent) { states()[this]; }
QWinEventNotifier::QWinEventNotifier(HANDLE h, QObject *parent) : QObject(parent)
{
    states()[this];
    setHandle(h);
    setEnabled(true);
}
QWinEventNotifier::~QWinEventNotifier()
{
    setEnabled(false);
    states().remove(this);
}
void QWinEventNotifier::setHandle(HANDLE h)
{
    setEnabled(false);
    states()[this].h = h;
}
QWinEventNotifier::HANDLE QWinEventNotifier::handle() const { return states().value(this).h; }
bool QWinEventNotifier::isEnabled() const { return states().value(this).enabled; }
void QWinEventNotifier::setEnabled(bool on)
{
    NState &s = states()[this];
    if (s.enabled == on)
        return;
    s.enabled = on;
    if (!on) {
        if (s.sn) {
            s.sn->setEnabled(false);
            s.sn->deleteLater();
            s.sn = nullptr;
        }
        return;
    }
    int fd = vshim_wait_fd(s.h);
    if (fd < 0)
        return;
    s.sn = new QSocketNotifier(fd, QSocketNotifier::Read);
    QSocketNotifier *mine = s.sn;
    QObject::connect(s.sn, &QSocketNotifier::activated, this, [this, mine] {
        NState &st = states()[this];
        if (!st.enabled || st.sn != mine)
            return;
        vshim_chaos(ChaosDeath);
        emit activated(st.h, QPrivateSignal());
    });
}
bool QWinEventNotifier::event(QEvent *e) { return QObject::event(e); }

// ------------------------------------------------------------------------------------------------ QSystemSemaphore
// Windows semantics: a named kernel semaphore that is created by whoever comes first.
class QSystemSemaphorePrivate
{
public:
    QString key;
    std::string name, path;
    sem_t *sem = nullptr;
    std::atomic<int> err{0};
    QString errorString;
};

static void openSem(QSystemSemaphorePrivate *d, int initial)
{
    const std::string dir = vshim_getvar("VSHIM_SEMDIR");
    d->name = d->key.toStdString();
    for (char &c : d->name)
        if (c == '/' || c == '\\')
            c = '_';
    if (dir.empty() || d->name.empty()) {
        d->err = QSystemSemaphore::KeyError;
        return;
    }
    d->path = dir + "/sem-" + d->name;
    int fd = open((d->path + ".lock").c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);
    if (fd < 0 || lockf(fd, F_LOCK, 0) != 0) {
        d->err = QSystemSemaphore::UnknownError;
        return;
    }
    int f = open(d->path.c_str(), O_RDWR | O_CLOEXEC);
    bool created = false;
    if (f < 0) {
        f = open(d->path.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);
        created = true;
        if (ftruncate(f, 4096) != 0) { }
    }
    d->sem = (sem_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0);
    close(f);
    if (created) {
        sem_init(d->sem, 1, initial);
        vshim_log("SEM-CREATE %s %d", d->name.c_str(), initial);
    } else {
        vshim_log("SEM-OPEN %s", d->name.c_str());
    }
    close(fd);
}

QSystemSemaphore::QSystemSemaphore(const QString &key, int initial, AccessMode) : d(new QSystemSemaphorePrivate)
{
    d->key = key;
    openSem(d.data(), initial);
}
QSystemSemaphore::~QSystemSemaphore() {}   // the mapping stays: a helper thread may still be blocked on it
void QSystemSemaphore::setKey(const QString &key, int initial, AccessMode)
{
    d->key = key;
    openSem(d.data(), initial);
}
QString QSystemSemaphore::key() const { return d->key; }
bool QSystemSemaphore::acquire()
{
    if (!d->sem)
        return false;
    vshim_chaos(ChaosSem);
    vshim_log("SEM-WAIT %s", d->name.c_str());
    while (sem_wait(d->sem) != 0)
        if (errno != EINTR)
            return false;
    vshim_log("SEM-ACQ %s", d->name.c_str());
    vshim_chaos(ChaosSem);
    return true;
}
bool QSystemSemaphore::release(int n)
{
    if (!d->sem)
        return false;
    if (n <= 0)
        return n == 0;
    vshim_log("SEM-REL %s %d", d->name.c_str(), n);
    while (n-- > 0)
        sem_post(d->sem);
    return true;
}
QSystemSemaphore::SystemSemaphoreError QSystemSemaphore::error() const { return (SystemSemaphoreError)(int)d->err; }
QString QSystemSemaphore::errorString() const { return d->errorString; }
