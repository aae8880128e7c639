// Shared interface of the native Win32/Qt-for-Windows stand-in that jom is linked against.
#ifndef VSHIM_H
#define VSHIM_H
#include <string>
#include <vector>
// Windows path -> existing native path (case-insensitive), or best-effort native path if it does not exist.
std::string vshim_resolve(std::string utf8path);
// True if writing/removing this (native) path is allowed, i.e. lies below the scratch root of this run.
bool vshim_may_write(const std::string &nativePath);
void vshim_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int vshim_wait_fd(void *handle);        // pidfd behind a process handle, -1 otherwise
void vshim_chaos(int site);             // maybe sleep a little; legal scheduling noise
unsigned vshim_rand();
std::string vshim_getvar(const char *name);   // captured VSHIM_* variable
enum ChaosSite { ChaosIocp = 1, ChaosSpawn = 2, ChaosSem = 4, ChaosDeath = 8, ChaosRead = 16 };
#endif
