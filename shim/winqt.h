// Force-included: gives the file/path classes of Qt the behaviour they have on Windows (native separator '\',
// case-insensitive names), and confines every write of jom to the scratch root of the run.
#ifndef WINQT_H
#define WINQT_H
#ifdef __cplusplus
#include <QtCore>
#include "vshim.h"

inline QString vq_fwd(QString s) { return s.replace(QLatin1Char('\\'), QLatin1Char('/')); }
inline QString vq_native(const QString &s)
{
    return QString::fromStdString(vshim_resolve(s.toStdString()));
}
inline bool vq_isAbs(const QString &s)
{
    return s.startsWith(QLatin1Char('/')) || s.startsWith(QLatin1Char('\\'))
        || (s.size() >= 2 && s.at(0).isLetter() && s.at(1) == QLatin1Char(':'));
}

class WinQFile : public QFile
{
public:
    WinQFile() {}
    explicit WinQFile(const QString &n) : QFile(vq_native(n)), m_win(n) {}
    explicit WinQFile(QObject *p) : QFile(p) {}
    WinQFile(const QString &n, QObject *p) : QFile(vq_native(n), p), m_win(n) {}
    QString fileName() const override { return m_win; }
    void setFileName(const QString &n) { m_win = n; QFile::setFileName(vq_native(n)); }
    using QFile::open;
    bool open(QIODevice::OpenMode m) override
    {
        if ((m & QIODevice::WriteOnly) && !vshim_may_write(QFile::fileName().isEmpty() ? std::string() : vq_native(m_win).toStdString())) {
            vshim_log("WRITE-DENIED %s", m_win.toStdString().c_str());
            return false;
        }
        return QFile::open(m);
    }
    bool remove()
    {
        if (!vshim_may_write(vq_native(m_win).toStdString()))
            return false;
        QFile::setFileName(vq_native(m_win));
        return QFile::remove();
    }
    static bool remove(const QString &n) { WinQFile f(n); return f.remove(); }
    bool exists() const { return QFile::exists(vq_native(m_win)); }
    static bool exists(const QString &n) { return !n.isEmpty() && QFile::exists(vq_native(n)); }
    static bool rename(const QString &, const QString &) { return false; }
    static bool copy(const QString &, const QString &) { return false; }
private:
    QString m_win;
};

class WinQFileInfo : public QFileInfo
{
public:
    WinQFileInfo() {}
    WinQFileInfo(const QString &n) : QFileInfo(vq_fwd(n)) {}
    WinQFileInfo(const WinQFile &f) : QFileInfo(vq_fwd(f.fileName())) {}
    WinQFileInfo(const QFileInfo &f) : QFileInfo(f) {}
    void setFile(const QString &n) { QFileInfo::setFile(vq_fwd(n)); }
    bool exists() const { return !filePath().isEmpty() && QFileInfo(vq_native(filePath())).exists(); }
    static bool exists(const QString &n) { return WinQFileInfo(n).exists(); }
    bool isFile() const { return QFileInfo(vq_native(filePath())).isFile(); }
    bool isDir() const { return QFileInfo(vq_native(filePath())).isDir(); }
    bool isReadable() const { return QFileInfo(vq_native(filePath())).isReadable(); }
    bool isWritable() const { return QFileInfo(vq_native(filePath())).isWritable(); }
    bool isExecutable() const { return QFileInfo(vq_native(filePath())).isExecutable(); }
    qint64 size() const { return QFileInfo(vq_native(filePath())).size(); }
    QDateTime lastModified() const { return QFileInfo(vq_native(filePath())).lastModified(); }
    bool isAbsolute() const { return vq_isAbs(filePath()); }
    bool isRelative() const { return !vq_isAbs(filePath()); }
    QString absoluteFilePath() const
    {
        return drive() ? QDir::cleanPath(filePath()) : QFileInfo::absoluteFilePath();
    }
    QString absolutePath() const
    {
        return drive() ? QDir::cleanPath(path()) : QFileInfo::absolutePath();
    }
private:
    bool drive() const { const QString p = filePath(); return p.size() >= 2 && p.at(0).isLetter() && p.at(1) == QLatin1Char(':'); }
};

class WinQDir : public QDir
{
public:
    WinQDir(const QString &p = QString()) : QDir(vq_fwd(p)) {}
    WinQDir(const QDir &d) : QDir(d) {}
    static QChar separator() { return QLatin1Char('\\'); }
    static QChar listSeparator() { return QLatin1Char(';'); }
    static QString toNativeSeparators(const QString &s) { QString r = s; return r.replace(QLatin1Char('/'), QLatin1Char('\\')); }
    static QString fromNativeSeparators(const QString &s) { return vq_fwd(s); }
    static WinQDir current() { return WinQDir(QDir::currentPath()); }
    QString absoluteFilePath(const QString &n) const { return vq_isAbs(n) ? vq_fwd(n) : QDir::absoluteFilePath(vq_fwd(n)); }
    QString filePath(const QString &n) const { return vq_isAbs(n) ? vq_fwd(n) : QDir::filePath(vq_fwd(n)); }
    bool exists() const { return QDir(vq_native(path())).exists(); }
    bool exists(const QString &n) const { return WinQFileInfo(filePath(n)).exists(); }
    bool remove(const QString &n) { return WinQFile::remove(filePath(n)); }
    bool mkdir(const QString &) const { return false; }
    bool rmdir(const QString &) const { return false; }
    bool mkpath(const QString &) const { return false; }
    bool rmpath(const QString &) const { return false; }
    bool removeRecursively() { return false; }
    static bool isAbsolutePath(const QString &p) { return vq_isAbs(p); }
    static bool isRelativePath(const QString &p) { return !vq_isAbs(p); }
    static bool setCurrent(const QString &p) { return QDir::setCurrent(vq_native(p)); }
};

class WinQDirIterator : public QDirIterator
{
public:
    WinQDirIterator(const QString &p, IteratorFlags f = NoIteratorFlags) : QDirIterator(vq_native(p), f) {}
    WinQDirIterator(const QString &p, QDir::Filters fl, IteratorFlags f = NoIteratorFlags) : QDirIterator(vq_native(p), fl, f) {}
    WinQDirIterator(const QString &p, const QStringList &n, QDir::Filters fl = QDir::NoFilter, IteratorFlags f = NoIteratorFlags)
        : QDirIterator(vq_native(p), n, fl, f) {}
};

#define QFile WinQFile
#define QFileInfo WinQFileInfo
#define QDir WinQDir
#define QDirIterator WinQDirIterator

// freopen/fopen of files for writing (option /X) stay below the scratch root as well.
#include <cstdio>
inline FILE *vq_fopen(const std::string &n, const std::string &mode)
{
    std::string p = vshim_resolve(n);
    if (mode[0] != 'r' && !vshim_may_write(p))
        return nullptr;
    return fopen(p.c_str(), mode.c_str());
}
inline FILE *vq_freopen(const std::string &n, const std::string &mode, FILE *f)
{
    std::string p = vshim_resolve(n);
    if (mode[0] != 'r' && !vshim_may_write(p))
        return nullptr;
    return freopen(p.c_str(), mode.c_str(), f);
}
#define _wfopen(n, m) vq_fopen(vp_utf8(n), vp_utf8(m))
#define _wfreopen(n, m, f) vq_freopen(vp_utf8(n), vp_utf8(m), f)

#ifdef VSHIM_TSAN
// Qt itself is not instrumented: give ThreadSanitizer locks it understands.
#include <mutex>
class VMutex
{
public:
    enum RecursionMode { NonRecursive, Recursive };
    VMutex(RecursionMode = NonRecursive) {}
    void lock() { m.lock(); }
    void unlock() { m.unlock(); }
    bool tryLock(int = 0) { return m.try_lock(); }
    bool try_lock() { return m.try_lock(); }
private:
    std::mutex m;
};
class VMutexLocker
{
public:
    explicit VMutexLocker(VMutex *m) : m(m) { if (m) m->lock(); }
    ~VMutexLocker() { unlock(); }
    void unlock() { if (m && held) m->unlock(); held = false; }
    void relock() { if (m && !held) m->lock(); held = true; }
    VMutex *mutex() const { return m; }
private:
    VMutex *m;
    bool held = true;
};
#define QMutex VMutex
#define QMutexLocker VMutexLocker
#endif
#endif
#endif
