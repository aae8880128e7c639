From 02f53598f2417de0a4eba98d425daebde56c0ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 01/73] fix: don't bind a misaligned reference when reading a
 file's time stamp

---
 src/jomlib/fastfileinfo.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/fastfileinfo.cpp b/src/jomlib/fastfileinfo.cpp
index 6926a34..960ae2a 100644
--- a/src/jomlib/fastfileinfo.cpp
+++ b/src/jomlib/fastfileinfo.cpp
@@ -87,7 +87,10 @@ FileTime FastFileInfo::lastModified() const
     if (fattr->dwFileAttributes == INVALID_FILE_ATTRIBUTES) {
         return FileTime();
     } else {
-        return FileTime(reinterpret_cast<const FileTime::InternalType&>(fattr->ftLastWriteTime));
+        // ftLastWriteTime isn't suitably aligned for FileTime::InternalType.
+        FileTime::InternalType lastWriteTime;
+        memcpy(&lastWriteTime, &fattr->ftLastWriteTime, sizeof(lastWriteTime));
+        return FileTime(lastWriteTime);
     }
 }
 
-- 
2.43.0


From 2a3ab5af1527fb68f358d23845c94794791ef6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 02/73] fix: hand over unbuffered output to exactly one command

When the command with unbuffered output finished, every other running
command was switched to unbuffered output, and their lines got mixed up.
---
 src/jomlib/targetexecutor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index a6eb9d9..2ca88cd 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -247,6 +247,7 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
             if (cmdex->isActive()) {
                 cmdex->setBufferedOutput(false);
                 found = true;
+                break;
             }
         }
         if (!found)
-- 
2.43.0


From c5e340e6d534722c0ab00f97357cb51e3de60bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 03/73] fix: don't release more job tokens than acquired when
 aborting

---
 src/jomlib/targetexecutor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 2ca88cd..f82b9a3 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -185,7 +185,9 @@ void TargetExecutor::waitForJobClient()
     QEventLoop loop;
     connect(m_jobClient, &JobClient::acquired, &loop, &QEventLoop::quit);
     loop.exec();
-    m_jobClient->release();
+
+    // The token that corresponds to this acquisition has already been released in
+    // onChildFinished, because m_jobAcquisitionCount included the pending acquisition.
 }
 
 void TargetExecutor::finishBuild(int exitCode)
-- 
2.43.0


From 73c574bed8482e44d17598508377f9b490b04bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 04/73] fix: don't build anything after dumping the dependency
 graph

The request to exit was lost, because the event loop wasn't running yet,
and main() unconditionally starts the build.
---
 src/jomlib/targetexecutor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index f82b9a3..70e4a6d 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -109,6 +109,8 @@ void TargetExecutor::apply(Makefile* mkfile, const QStringList& targets)
             m_depgraph->dotDump();
         else
             m_depgraph->dump();
+        m_depgraph->clear();
+        m_pendingTargets.clear();
         finishBuild(0);
         return;
     }
-- 
2.43.0


From 3d27f4482fa16e8339c67d07db2ce17cd7104039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:36 +0000
Subject: [PATCH 05/73] fix: avoid exponential run time when marking
 unbuildable targets

---
 src/jomlib/dependencygraph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index bf8cfbc..f0a0916 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -95,6 +95,8 @@ bool DependencyGraph::isUnbuildable(DescriptionBlock *target) const
 void DependencyGraph::markParentsRecursivlyUnbuildable(Node *node)
 {
     foreach (Node *parent, node->parents) {
+        if (parent->state == Node::Unbuildable)
+            continue;   // the parents of this node have already been marked
         parent->state = Node::Unbuildable;
         markParentsRecursivlyUnbuildable(parent);
     }
-- 
2.43.0


From 6d7c25c1fb2a77bca12c6504adf748587f0b13fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:05 +0000
Subject: [PATCH 06/73] fix: wait for all commands of a running target when
 aborting

When the build is aborted, jom waited for the currently running command of
every other target only and left the command that's started next behind.
---
 src/jomlib/commandexecutor.cpp | 4 +++-
 src/jomlib/jomprocess.cpp      | 2 --
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index bd10324..f87535b 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -132,7 +132,9 @@ void CommandExecutor::finishExecution(bool commandFailed)
 
 void CommandExecutor::waitForFinished()
 {
-    m_process.waitForFinished();
+    // Successfully finishing a command starts the next command of the target.
+    while (m_active && m_process.isRunning())
+        m_process.waitForFinished();
 }
 
 inline bool commandLineStartsWithCommand(const QString &str, const QString &searchString)
diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 1e3335d..eba65c2 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -453,8 +453,6 @@ bool Process::waitForFinished()
     QEventLoop eventLoop;
     connect(this, SIGNAL(finished(int, Process::ExitStatus)), &eventLoop, SLOT(quit()));
     eventLoop.exec();
-
-    m_state = NotRunning;
     return true;
 }
 
-- 
2.43.0


From c21724eb582d56fdb78dac32e1a5a9d9b9f08cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:05 +0000
Subject: [PATCH 07/73] fix: wait for running commands if a target cannot be
 started

If an inline file couldn't be created or a macro in an inference rule
couldn't be expanded, then jom exited and left running commands and their
job tokens behind.
---
 src/jomlib/targetexecutor.cpp | 29 +++++++++++++++++------------
 src/jomlib/targetexecutor.h   |  1 +
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 70e4a6d..79f53a7 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -149,9 +149,8 @@ void TargetExecutor::startProcesses()
             }
         }
     } catch (Exception &e) {
-        m_bAborted = true;
         fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
-        finishBuild(1);
+        abortBuild(1);
     }
 }
 
@@ -168,9 +167,8 @@ void TargetExecutor::buildNextTarget()
         m_nextTarget = 0;
         QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
     } catch (const Exception &e) {
-        m_bAborted = true;
         fprintf(stderr, "Error: %s\n", qPrintable(e.message()));
-        finishBuild(1);
+        abortBuild(1);
     }
 }
 
@@ -204,6 +202,19 @@ void TargetExecutor::finishBuild(int exitCode)
     emit finished(exitCode);
 }
 
+/**
+ * Doesn't start any further targets, waits for the running ones and finishes the build.
+ */
+void TargetExecutor::abortBuild(int exitCode)
+{
+    m_bAborted = true;
+    m_depgraph->clear();
+    m_pendingTargets.clear();
+    waitForProcesses();
+    waitForJobClient();
+    finishBuild(exitCode);
+}
+
 void TargetExecutor::findNextTarget()
 {
     forever {
@@ -259,14 +270,8 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
     }
 
     bool abortMakeProcess = commandFailed && !m_makefile->options()->buildUnrelatedTargetsOnError;
-    if (abortMakeProcess) {
-        m_bAborted = true;
-        m_depgraph->clear();
-        m_pendingTargets.clear();
-        waitForProcesses();
-        waitForJobClient();
-        finishBuild(2);
-    }
+    if (abortMakeProcess)
+        abortBuild(2);
 
     QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
 }
diff --git a/src/jomlib/targetexecutor.h b/src/jomlib/targetexecutor.h
index 3379251..2500c2e 100644
--- a/src/jomlib/targetexecutor.h
+++ b/src/jomlib/targetexecutor.h
@@ -63,6 +63,7 @@ private:
     void waitForProcesses();
     void waitForJobClient();
     void finishBuild(int exitCode);
+    void abortBuild(int exitCode);
     void findNextTarget();
 
 private:
-- 
2.43.0


From 75df337d899ba515f3b18035717a6e785347cc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 08/73] fix: don't wait forever for a process that exits with
 code 259

---
 src/jomlib/jomprocess.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index eba65c2..010844b 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -118,7 +118,7 @@ public:
         : q(process),
           hProcess(INVALID_HANDLE_VALUE),
           hProcessThread(INVALID_HANDLE_VALUE),
-          exitCode(STILL_ACTIVE)
+          exitCode(0)
     {
         stdoutChannel.d = this;
         stdoutChannel.pipe = &stdoutPipe;
@@ -410,14 +410,17 @@ void Process::start(const QString &commandLine)
 
 void Process::tryToRetrieveExitCode()
 {
-    if (d->exitCode == STILL_ACTIVE)
-        if (!GetExitCodeProcess(d->hProcess, &d->exitCode))
-            d->exitCode = STILL_ACTIVE;
+    if (m_state != Running)
+        return;
 
-    if (d->exitCode == STILL_ACTIVE)
+    // Don't compare the exit code with STILL_ACTIVE, because 259 is a valid exit code.
+    if (WaitForSingleObject(d->hProcess, 0) != WAIT_OBJECT_0
+            || !GetExitCodeProcess(d->hProcess, &d->exitCode)) {
         QTimer::singleShot(250, this, SLOT(tryToRetrieveExitCode()));
-    else
-        onProcessFinished();
+        return;
+    }
+
+    onProcessFinished();
 }
 
 void Process::onProcessFinished()
@@ -435,7 +438,6 @@ void Process::onProcessFinished()
     printBufferedOutput();
     m_state = NotRunning;
     m_exitCode = d->exitCode;
-    d->exitCode = STILL_ACTIVE;
 
     //### for now we assume a crash if exit code is less than -1 or the magic number
     const bool crashed = (m_exitCode == 0xf291 || m_exitCode < 0);
-- 
2.43.0


From e1d9829a7fb8691e9c7aa110696450aa2305b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:23 +0000
Subject: [PATCH 09/73] fix: don't leak pipe handles and pending reads if
 CreateProcess fails

The command is usually started again via the shell, using the same pipe
objects and OVERLAPPED structures.
---
 src/jomlib/jomprocess.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 010844b..0c508f9 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -359,15 +359,6 @@ void Process::start(const QString &commandLine)
     if (!setupPipe(d->stderrPipe, &sa, OutputPipe))
         qFatal("Cannot setup pipe for stderr.");
 
-    IoCompletionPort::instance()->registerObserver(&d->stdoutChannel, d->stdoutPipe.hRead);
-    IoCompletionPort::instance()->registerObserver(&d->stderrChannel, d->stderrPipe.hRead);
-    if (!d->startRead()) {
-        m_state = NotRunning;
-        emit error(FailedToStart);
-        qWarning("Can't read output channels.");
-        return;
-    }
-
     STARTUPINFO si = {0};
     si.cb = sizeof(si);
     si.hStdInput = d->stdinPipe.hRead;
@@ -390,11 +381,23 @@ void Process::start(const QString &commandLine)
     free(strCommandLine);
     strCommandLine = 0;
     if (!bResult) {
+        safelyCloseHandle(d->stdinPipe.hRead);
+        safelyCloseHandle(d->stdinPipe.hWrite);
+        safelyCloseHandle(d->stdoutPipe.hRead);
+        safelyCloseHandle(d->stdoutPipe.hWrite);
+        safelyCloseHandle(d->stderrPipe.hRead);
+        safelyCloseHandle(d->stderrPipe.hWrite);
         m_state = NotRunning;
         emit error(FailedToStart);
         return;
     }
 
+    // Start reading while we're still holding the write ends of the pipes.
+    IoCompletionPort::instance()->registerObserver(&d->stdoutChannel, d->stdoutPipe.hRead);
+    IoCompletionPort::instance()->registerObserver(&d->stderrChannel, d->stderrPipe.hRead);
+    if (!d->startRead())
+        qWarning("Can't read output channels.");
+
     // Close the pipe handles. This process doesn't need them anymore.
     safelyCloseHandle(d->stdinPipe.hRead);
     safelyCloseHandle(d->stdinPipe.hWrite);
-- 
2.43.0


From 9975e219f08ad724bde7a6ee722e57315f5b1750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:05 +0000
Subject: [PATCH 10/73] fix: don't lose output of a process that's read after
 the process died

The pipes were closed as soon as the death of the process had been noticed,
regardless of the data that was still in there. Pending read operations
also survived the pipe and were mixed up with those of the next process.
---
 src/jomlib/jomprocess.cpp | 68 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 63 insertions(+), 5 deletions(-)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 0c508f9..e117b09 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -100,7 +100,10 @@ class ProcessPrivate;
 class OutputChannel : public IoCompletionPortObserver
 {
 public:
+    OutputChannel() : reading(false), draining(false), bytesToDrain(0) {}
+
     bool startRead();
+    bool drain();
     void completionPortNotified(DWORD numberOfBytes, DWORD errorCode);
 
     ProcessPrivate *d;
@@ -109,6 +112,15 @@ public:
     QByteArray intermediateOutputBuffer;
     QList<TimeStampedBuffer> buffers;
     QMutex outputBufferLock;
+
+    // The following members are protected by readLock.
+    QMutex readLock;
+    bool reading;           // there's a pending read operation or one that's not yet processed
+    bool draining;          // the process is dead
+    DWORD bytesToDrain;     // upper bound of what the dead process left in the pipe
+
+private:
+    bool startReadOperation();
 };
 
 class ProcessPrivate
@@ -423,7 +435,14 @@ void Process::tryToRetrieveExitCode()
         return;
     }
 
-    onProcessFinished();
+    d->deathNotifier.setEnabled(false);
+
+    // There may be output of the process left that we haven't read yet. The channels will call
+    // this function again, when they're done.
+    const bool stdoutDone = d->stdoutChannel.drain();
+    const bool stderrDone = d->stderrChannel.drain();
+    if (stdoutDone && stderrDone)
+        onProcessFinished();
 }
 
 void Process::onProcessFinished()
@@ -471,14 +490,49 @@ bool ProcessPrivate::startRead()
  * Returns true, if initiating the read operation was successful.
  */
 bool OutputChannel::startRead()
+{
+    QMutexLocker locker(&readLock);
+    draining = false;
+    reading = startReadOperation();
+    return reading;
+}
+
+/**
+ * Is called when the process is dead. From now on, only the data that's still in the pipe is read.
+ * We must not wait for the pipe to be closed, because other processes may have inherited it.
+ *
+ * Returns true, if everything has been read.
+ */
+bool OutputChannel::drain()
+{
+    QMutexLocker locker(&readLock);
+    if (reading && !draining) {
+        draining = true;
+        bytesToDrain = 0;
+        if (!PeekNamedPipe(pipe->hRead, NULL, 0, NULL, &bytesToDrain, NULL))
+            bytesToDrain = 0;
+        CancelIoEx(pipe->hRead, &pipe->overlapped);
+    }
+    return !reading;
+}
+
+bool OutputChannel::startReadOperation()
 {
     DWORD dwRead;
     BOOL bSuccess;
 
     const DWORD minReadBufferSize = 4096;
     bSuccess = PeekNamedPipe(pipe->hRead, NULL, 0, NULL, &dwRead, NULL);
-    if (!bSuccess || dwRead < minReadBufferSize)
+    if (draining) {
+        if (!bSuccess)
+            return false;
+        dwRead = qMin(dwRead, bytesToDrain);
+        if (dwRead == 0)
+            return false;
+        bytesToDrain -= dwRead;
+    } else if (!bSuccess || dwRead < minReadBufferSize) {
         dwRead = minReadBufferSize;
+    }
 
     intermediateOutputBuffer.resize(dwRead);
     bSuccess = ReadFile(pipe->hRead,
@@ -539,9 +593,13 @@ void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
         d->bufferedOutputModeSwitchMutex.unlock();
     }
 
-    if (errorCode == ERROR_SUCCESS)
-        if (startRead())
-            return;
+    {
+        QMutexLocker locker(&readLock);
+        if (errorCode == ERROR_SUCCESS || (draining && errorCode == ERROR_OPERATION_ABORTED))
+            if (startReadOperation())
+                return;
+        reading = false;
+    }
 
     QMetaObject::invokeMethod(d->q, "tryToRetrieveExitCode", Qt::QueuedConnection);
 }
-- 
2.43.0


From 985b4cd34cd1a0edea40bc379d689df4ea319764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:00 +0000
Subject: [PATCH 11/73] fix: finish a batch of targets before anything that
 depends on one of them

All targets of a batch are built by the commands of the first one, but the
others were considered to be done before these commands had been executed.
---
 src/jomlib/dependencygraph.cpp | 17 +++++++++++++++++
 src/jomlib/dependencygraph.h   |  1 +
 src/jomlib/makefile.cpp        |  3 +++
 src/jomlib/makefile.h          |  1 +
 src/jomlib/targetexecutor.cpp  |  3 +++
 5 files changed, 25 insertions(+)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index f0a0916..9d9cc79 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -329,6 +329,7 @@ DescriptionBlock *DependencyGraph::findAvailableTarget(bool ignoreTimeStamps)
     }
     foreach (Makefile *mf, makefileSet)
         mf->applyInferenceRules(multiHash.values(mf));
+    linkBatchTargets();
 
     // return the first leaf that is not currently executed
     foreach (Node *leaf, m_leaves) {
@@ -343,6 +344,22 @@ DescriptionBlock *DependencyGraph::findAvailableTarget(bool ignoreTimeStamps)
     return 0;
 }
 
+/**
+ * The targets of a batch-mode inference rule are built by the commands of one of them.
+ * The others aren't finished before this one is.
+ */
+void DependencyGraph::linkBatchTargets()
+{
+    const QList<Node *> leaves = m_leaves;
+    foreach (Node *leaf, leaves) {
+        foreach (DescriptionBlock *batchTarget, leaf->target->m_batchTargets) {
+            Node *node = m_nodeContainer.value(batchTarget);
+            if (node && m_leaves.removeOne(node))
+                addEdge(node, leaf);
+        }
+    }
+}
+
 void DependencyGraph::displayNodeBuildInfo(Node* node, bool isUpToDate)
 {
     if (node->target->makefile()->options()->displayBuildInfo) {
diff --git a/src/jomlib/dependencygraph.h b/src/jomlib/dependencygraph.h
index 2ed92fc..1bc9f6d 100644
--- a/src/jomlib/dependencygraph.h
+++ b/src/jomlib/dependencygraph.h
@@ -63,6 +63,7 @@ private:
     };
 
     Node* createNode(DescriptionBlock* target, Node* parent);
+    void linkBatchTargets();
     void deleteNode(Node* node);
     void removeLeaf(Node* node);
     void internalBuild(Node *node, QSet<Node *> &seen);
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index c06cb7c..d5b337e 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -650,6 +650,9 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
 
         inferredDependents.append(inferredDependent);
         inferredDependents.append(QLatin1Char(' '));
+
+        if (target != executingTarget)
+            executingTarget->m_batchTargets.append(target);
     }
 
     executingTarget->m_commands = rule->m_commands;
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 28e0632..88eaaf0 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -106,6 +106,7 @@ public:
     bool m_bNoCyclesRootedHere;
     bool m_bInferenceRulesPreselected;
     QVector<InferenceRule*> m_inferenceRules;
+    QList<DescriptionBlock*> m_batchTargets;    // other targets that are built by our commands
 
     enum AddCommandsState { ACSUnknown, ACSEnabled, ACSDisabled };
     AddCommandsState m_canAddCommands;
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 79f53a7..d9c4e6e 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -249,6 +249,9 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
         }
     }
     FastFileInfo::clearCacheForFile(executor->target()->targetName());
+    foreach (const DescriptionBlock *batchTarget, executor->target()->m_batchTargets)
+        FastFileInfo::clearCacheForFile(batchTarget->targetName());
+    executor->target()->m_batchTargets.clear();
     m_depgraph->removeLeaf(executor->target());
     if (m_jobAcquisitionCount > 0) {
         m_jobClient->release();
-- 
2.43.0


From 918cc8bfe2dc669962d9ac09d131ec7f0db422a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 12/73] fix: no crash or overflow in the arithmetic of
 preprocessor expressions

A remainder with a zero divisor, INT_MIN / -1 and INT_MIN % -1 crashed jom.
The other operators had undefined behaviour on overflow or for shift counts
that are too large.
---
 src/jomlib/ppexpr.g         | 31 ++++++++++++++++++++++---------
 src/jomlib/ppexprparser.cpp | 31 ++++++++++++++++++++++---------
 2 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/src/jomlib/ppexpr.g b/src/jomlib/ppexpr.g
index f826008..9c989f4 100644
--- a/src/jomlib/ppexpr.g
+++ b/src/jomlib/ppexpr.g
@@ -330,14 +330,14 @@ term3       ::= term4;
 term3       ::= term3 SHIFT_LEFT term4;
 /.
     case $rule_number: // $rule
-        sym(1).num <<= sym(3).num;
+        sym(1).num = int(unsigned(sym(1).num) << (unsigned(sym(3).num) & 31));
         break;
 ./
 
 term3       ::= term3 SHIFT_RIGHT term4;
 /.
     case $rule_number: // $rule
-        sym(1).num >>= sym(3).num;
+        sym(1).num >>= unsigned(sym(3).num) & 31;
         break;
 ./
 
@@ -345,14 +345,14 @@ term4       ::= term5;
 term4       ::= term4 PLUS term5;
 /.
     case $rule_number: // $rule
-        sym(1).num += sym(3).num;
+        sym(1).num = int(unsigned(sym(1).num) + unsigned(sym(3).num));
         break;
 ./
 
 term4       ::= term4 MINUS term5;
 /.
     case $rule_number: // $rule
-        sym(1).num -= sym(3).num;
+        sym(1).num = int(unsigned(sym(1).num) - unsigned(sym(3).num));
         break;
 ./
 
@@ -360,7 +360,7 @@ term5       ::= term6;
 term5       ::= term5 MULT term6;
 /.
     case $rule_number: // $rule
-        sym(1).num *= sym(3).num;
+        sym(1).num = int(unsigned(sym(1).num) * unsigned(sym(3).num));
         break;
 ./
 
@@ -373,23 +373,36 @@ term5       ::= term5 DIV term6;
             yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
             return false;
         }
-        sym(1).num /= rhs;
+        if (rhs == -1)  // avoid the overflow of INT_MIN / -1
+            sym(1).num = int(0u - unsigned(sym(1).num));
+        else
+            sym(1).num /= rhs;
         break;
     }
 ./
 
 term5       ::= term5 MOD term6;
 /.
-    case $rule_number: // $rule
-        sym(1).num %= sym(3).num;
+    case $rule_number: { // $rule
+        const int rhs = sym(3).num;
+        if (rhs == 0) {
+            m_errorMessage = "division by zero";
+            yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
+            return false;
+        }
+        if (rhs == -1)  // avoid the overflow of INT_MIN % -1
+            sym(1).num = 0;
+        else
+            sym(1).num %= rhs;
         break;
+    }
 ./
 
 term6 ::= primary;
 term6 ::= MINUS primary;
 /.
     case $rule_number: // $rule
-        sym(1).num = -sym(2).num;
+        sym(1).num = int(0u - unsigned(sym(2).num));
         break;
 ./
 
diff --git a/src/jomlib/ppexprparser.cpp b/src/jomlib/ppexprparser.cpp
index 7af643b..d32e784 100644
--- a/src/jomlib/ppexprparser.cpp
+++ b/src/jomlib/ppexprparser.cpp
@@ -185,23 +185,23 @@ bool PPExprParser::parse(const char* str)
         break;
 
     case 18: // term3
-        sym(1).num <<= sym(3).num;
+        sym(1).num = int(unsigned(sym(1).num) << (unsigned(sym(3).num) & 31));
         break;
 
     case 19: // term3
-        sym(1).num >>= sym(3).num;
+        sym(1).num >>= unsigned(sym(3).num) & 31;
         break;
 
     case 21: // term4
-        sym(1).num += sym(3).num;
+        sym(1).num = int(unsigned(sym(1).num) + unsigned(sym(3).num));
         break;
 
     case 22: // term4
-        sym(1).num -= sym(3).num;
+        sym(1).num = int(unsigned(sym(1).num) - unsigned(sym(3).num));
         break;
 
     case 24: // term5
-        sym(1).num *= sym(3).num;
+        sym(1).num = int(unsigned(sym(1).num) * unsigned(sym(3).num));
         break;
 
     case 25: { // term5
@@ -211,16 +211,29 @@ bool PPExprParser::parse(const char* str)
             yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
             return false;
         }
-        sym(1).num /= rhs;
+        if (rhs == -1)  // avoid the overflow of INT_MIN / -1
+            sym(1).num = int(0u - unsigned(sym(1).num));
+        else
+            sym(1).num /= rhs;
         break;
     }
 
-    case 26: // term5
-        sym(1).num %= sym(3).num;
+    case 26: { // term5
+        const int rhs = sym(3).num;
+        if (rhs == 0) {
+            m_errorMessage = "division by zero";
+            yy_delete_buffer((YY_BUFFER_STATE)yyInputBuffer);
+            return false;
+        }
+        if (rhs == -1)  // avoid the overflow of INT_MIN % -1
+            sym(1).num = 0;
+        else
+            sym(1).num %= rhs;
         break;
+    }
 
     case 28: // term6
-        sym(1).num = -sym(2).num;
+        sym(1).num = int(0u - unsigned(sym(2).num));
         break;
 
     case 29: // term6
-- 
2.43.0


From 76273217363246b014c58fe5eb673fa6b5143d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:35 +0000
Subject: [PATCH 13/73] fix: let EXIST(...) end at its closing parenthesis

The argument was matched up to the last closing parenthesis of the expression,
swallowing everything that followed.
---
 src/jomlib/ppexpr-lex.inc | 24 ++++++++++++++++++++++++
 src/jomlib/ppexpr.l       | 24 ++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/src/jomlib/ppexpr-lex.inc b/src/jomlib/ppexpr-lex.inc
index 5ee300d..9572b5b 100644
--- a/src/jomlib/ppexpr-lex.inc
+++ b/src/jomlib/ppexpr-lex.inc
@@ -553,6 +553,28 @@ static int yywrap()
     return 1;
 }
 
+/**
+ * Returns the length of the text up to and including the parenthesis
+ * that closes the first opening one. Parentheses in double quotes don't count.
+ */
+static int lengthOfParenthesized(const char *text, int length)
+{
+    int depth = 0;
+    bool inDoubleQuotes = false;
+    for (int i = 0; i < length; ++i) {
+        const char ch = text[i];
+        if (ch == '"')
+            inDoubleQuotes = !inDoubleQuotes;
+        else if (inDoubleQuotes)
+            continue;
+        else if (ch == '(')
+            ++depth;
+        else if (ch == ')' && --depth == 0)
+            return i + 1;
+    }
+    return length;
+}
+
 #define INITIAL 0
 #define STATE_STRING 1
 #define STATE_DEFINED 2
@@ -979,6 +1001,7 @@ case 32:
 YY_RULE_SETUP
 {
         BEGIN(INITIAL);
+        yyless(lengthOfParenthesized(yytext, static_cast<int>(yyleng)));
         QByteArray fileName(yytext);
         int idx = fileName.indexOf('(');
         fileName.remove(0, idx + 1);
@@ -997,6 +1020,7 @@ YY_RULE_SETUP
 case 33:
 YY_RULE_SETUP
 {
+    yyless(lengthOfParenthesized(yytext, static_cast<int>(yyleng)));
     QByteArray fileName(yytext);
     int idx = fileName.indexOf('(');
     fileName.remove(0, idx + 1);
diff --git a/src/jomlib/ppexpr.l b/src/jomlib/ppexpr.l
index 670c683..4accbd2 100644
--- a/src/jomlib/ppexpr.l
+++ b/src/jomlib/ppexpr.l
@@ -44,6 +44,28 @@ static int yywrap()
 {
     return 1;
 }
+
+/**
+ * Returns the length of the text up to and including the parenthesis
+ * that closes the first opening one. Parentheses in double quotes don't count.
+ */
+static int lengthOfParenthesized(const char *text, int length)
+{
+    int depth = 0;
+    bool inDoubleQuotes = false;
+    for (int i = 0; i < length; ++i) {
+        const char ch = text[i];
+        if (ch == '"')
+            inDoubleQuotes = !inDoubleQuotes;
+        else if (inDoubleQuotes)
+            continue;
+        else if (ch == '(')
+            ++depth;
+        else if (ch == ')' && --depth == 0)
+            return i + 1;
+    }
+    return length;
+}
 %}
 
 %x STATE_STRING
@@ -117,6 +139,7 @@ static int yywrap()
     [:blank:]+     /* eat whitespace */
     "(".+")" {
         BEGIN(INITIAL);
+        yyless(lengthOfParenthesized(yytext, static_cast<int>(yyleng)));
         QByteArray fileName(yytext);
         int idx = fileName.indexOf('(');
         fileName.remove(0, idx + 1);
@@ -133,6 +156,7 @@ static int yywrap()
 }
 
 "EXIST"[:blank:]*"(".*")" {
+    yyless(lengthOfParenthesized(yytext, static_cast<int>(yyleng)));
     QByteArray fileName(yytext);
     int idx = fileName.indexOf('(');
     fileName.remove(0, idx + 1);
-- 
2.43.0


From 7ab21d7c0ca91eb7e3cf3fc3c067ffd4a1932ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 14/73] fix: don't lose inline files of Unicode makefiles

The content of an inline file was read directly from a file that's already
buffered by the text stream. Therefore the inline file was empty and the rest
of the makefile was lost.
---
 src/jomlib/makefilelinereader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index ee20d86..7ff9938 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -92,6 +92,9 @@ MakefileLine MakefileLineReader::readLine(bool bInlineFileMode)
 {
     if (bInlineFileMode) {
         m_nLineNumber++;
+        // Unicode files are buffered by the text stream.
+        if (m_textStream.device())
+            return MakefileLine{ m_textStream.readLine() };
         return MakefileLine{ QString::fromLatin1(m_file.readLine()) };
     }
 
-- 
2.43.0


From b2bae9833c7732d50ebf8e8f2851762fb647f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 15/73] fix: replace inline file specification at start of a
 command line

---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index f87535b..ad1c7eb 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -305,7 +305,7 @@ void CommandExecutor::createTempFiles()
             }
 
             int idx = cmd.m_commandLine.indexOf(QLatin1String("<<"));
-            if (idx > 0)
+            if (idx >= 0)
                 cmd.m_commandLine.replace(idx, 2, replacement);
 
             m_tempFiles.append(tempFile);
-- 
2.43.0


From 5c668f024169588dc3ea75ca65b33f2d15435a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 16/73] fix: resolve argument of cd relative to the current
 directory of the command

The argument was always resolved relative to jom's working directory. That's
wrong after the first successful cd of a target.
---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index ad1c7eb..42cbbed 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -377,7 +377,7 @@ bool CommandExecutor::exec_cd(const QString &commandLine)
     }
 
     removeDoubleQuotes(args);
-    QFileInfo fi(args);
+    QFileInfo fi(QDir(m_process.workingDirectory()).absoluteFilePath(args));
     if (!fi.exists()) {
         QString msg = QLatin1String("Couldn't change working directory to %0.\n");
         writeToStandardError(msg.arg(args).toLocal8Bit());
-- 
2.43.0


From 00ed36ff1b405e36b5c1c4335f7a9ca254d7d9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 17/73] fix: honor .SYNC for dependents without description
 block

A plain file on the right side of .SYNC dropped the sync points of an arbitrary
set of other targets, the order of dependents was lost across a sync point that
is followed by plain files only, and targets created by an inference rule were
never synchronized.
---
 src/jomlib/parser.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 8862405..1fdcdaa 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -126,23 +126,28 @@ void Parser::apply(Preprocessor* pp,
 
     m_makefile->calculateInferenceRulePriorities(m_suffixes);
 
+    // build rule suffix cache
+    for (int i = m_makefile->inferenceRules().count(); --i >= 0;) {
+        InferenceRule *ir = m_makefile->inferenceRules().at(i);
+        m_ruleIdxByToExtension[ir->m_toExtension].prepend(ir);
+    }
+
     // translate sync points from .SYNC targets into real dependencies
     for (QHash<QString, QStringList>::const_iterator it = m_syncPoints.constBegin();
         it != m_syncPoints.constEnd(); ++it)
     {
         DescriptionBlock *target = m_makefile->target(it.key());
-        if (!target)
-            break;
+        if (!target) {
+            // Either a plain file or a target that's created by an inference rule.
+            const QVector<InferenceRule *> rules = findRulesByTargetName(it.key());
+            if (rules.isEmpty())
+                continue;
+            target = createTarget(it.key());
+        }
         target->m_dependents += it.value();
         target->m_dependents.removeDuplicates();
     }
 
-    // build rule suffix cache
-    for (int i = m_makefile->inferenceRules().count(); --i >= 0;) {
-        InferenceRule *ir = m_makefile->inferenceRules().at(i);
-        m_ruleIdxByToExtension[ir->m_toExtension].prepend(ir);
-    }
-
     // check for cycles in active targets
     foreach (const QString& targetName, m_activeTargets) {
         DescriptionBlock *target = m_makefile->target(targetName);
@@ -425,14 +430,12 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
     // handle the special .SYNC dependents
     {
         QStringList syncDeps;
-        int k = 0;
         for (int i=0; i < dependents.count();) {
             if (dependents.at(i) == QLatin1String(".SYNC")) {
                 dependents.removeAt(i);
                 if (dependents.count() == i)
                     break;
-                syncDeps = dependents.mid(k, i - k);
-                k = i;
+                syncDeps = dependents.mid(0, i);
             } else {
                 m_syncPoints[dependents.at(i)] += syncDeps;
                 ++i;
-- 
2.43.0


From cd42862923caeb366f062be5e720c3e7f3a7bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:46 +0000
Subject: [PATCH 18/73] fix: don't read past the end of empty command line
 arguments

---
 src/jomlib/options.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/options.cpp b/src/jomlib/options.cpp
index 01ce796..cd69b50 100644
--- a/src/jomlib/options.cpp
+++ b/src/jomlib/options.cpp
@@ -91,8 +91,8 @@ bool Options::readCommandLineArguments(QStringList arguments, QString& makefile,
     const QStringList originalArguments = arguments;
     while (!arguments.isEmpty()) {
         QString arg = arguments.takeFirst();
-        if (arg.at(0) == QLatin1Char('-') ||
-            arg.at(0) == QLatin1Char('/'))
+        if (arg.startsWith(QLatin1Char('-')) ||
+            arg.startsWith(QLatin1Char('/')))
         {
             // handle option
             arg.remove(0, 1);
@@ -143,7 +143,7 @@ bool Options::expandCommandFiles(QStringList& arguments)
         if (it->startsWith(QLatin1Char('@'))) {
             QString fileName = *it;
             int frontRemoveCount = 1;
-            if (fileName.at(1) == QLatin1Char('"') && fileName.endsWith(QLatin1Char('"'))) {
+            if (fileName.startsWith(QLatin1String("@\"")) && fileName.endsWith(QLatin1Char('"'))) {
                 frontRemoveCount = 2;
                 fileName.chop(1);
             }
-- 
2.43.0


From 97171d2d82a12d712ae9dcb389320d36a8ffbd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 19/73] fix: don't lose output if reads of a dead process' pipe
 are short

---
 src/jomlib/jomprocess.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index e117b09..3894127 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -100,7 +100,7 @@ class ProcessPrivate;
 class OutputChannel : public IoCompletionPortObserver
 {
 public:
-    OutputChannel() : reading(false), draining(false), bytesToDrain(0) {}
+    OutputChannel() : reading(false), draining(false), bytesToDrain(0), bytesRequested(0) {}
 
     bool startRead();
     bool drain();
@@ -118,6 +118,7 @@ public:
     bool reading;           // there's a pending read operation or one that's not yet processed
     bool draining;          // the process is dead
     DWORD bytesToDrain;     // upper bound of what the dead process left in the pipe
+    DWORD bytesRequested;   // size of the pending read operation, if it's one that drains the pipe
 
 private:
     bool startReadOperation();
@@ -493,6 +494,7 @@ bool OutputChannel::startRead()
 {
     QMutexLocker locker(&readLock);
     draining = false;
+    bytesRequested = 0;
     reading = startReadOperation();
     return reading;
 }
@@ -530,6 +532,7 @@ bool OutputChannel::startReadOperation()
         if (dwRead == 0)
             return false;
         bytesToDrain -= dwRead;
+        bytesRequested = dwRead;
     } else if (!bSuccess || dwRead < minReadBufferSize) {
         dwRead = minReadBufferSize;
     }
@@ -595,6 +598,9 @@ void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
 
     {
         QMutexLocker locker(&readLock);
+        if (bytesRequested > numberOfBytes)
+            bytesToDrain += bytesRequested - numberOfBytes;
+        bytesRequested = 0;
         if (errorCode == ERROR_SUCCESS || (draining && errorCode == ERROR_OPERATION_ABORTED))
             if (startReadOperation())
                 return;
-- 
2.43.0


From 5706de5c00f5f196c87197a6773bdff6f41d8569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:01 +0000
Subject: [PATCH 20/73] fix: don't hold back job tokens that are acquired after
 the build was aborted

---
 src/jomlib/targetexecutor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index d9c4e6e..f8eac6b 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -158,8 +158,15 @@ void TargetExecutor::buildNextTarget()
 {
     Q_ASSERT(m_nextTarget);
 
-    if (m_bAborted)
+    if (m_bAborted) {
+        // Nothing is going to be started with the acquired token. Don't keep it from the
+        // jom instances we're possibly waiting for.
+        if (m_jobAcquisitionCount > 0) {
+            m_jobClient->release();
+            m_jobAcquisitionCount--;
+        }
         return;
+    }
 
     try {
         CommandExecutor *executor = m_availableProcesses.takeFirst();
-- 
2.43.0


From 91757e28b6545176c736716d773ffdfde2d4c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:58 +0000
Subject: [PATCH 21/73] fix: don't mix buffered output with directly written
 output

---
 src/jomlib/jomprocess.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 3894127..7bc0d39 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -575,6 +575,12 @@ static void fwrite_binary(FILE *stream, const char *str, size_t count)
         _setmode(fd, origMode);
 }
 
+/**
+ * Protects the output streams, such that the buffered output of one process and the directly
+ * written output of another one don't get mixed up.
+ */
+Q_GLOBAL_STATIC(QMutex, streamLock)
+
 /**
  * Is called whenever we receive the result of an asynchronous I/O operation.
  * Note: This function is running in the IOCP thread!
@@ -590,6 +596,7 @@ void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
             buffers.append(TimeStampedBuffer(runtime()->elapsed(), data));
             outputBufferLock.unlock();
         } else {
+            QMutexLocker locker(streamLock());
             fwrite_binary(stream, intermediateOutputBuffer.data(), numberOfBytes);
         }
 
@@ -612,6 +619,7 @@ void OutputChannel::completionPortNotified(DWORD numberOfBytes, DWORD errorCode)
 
 void Process::printBufferedOutput()
 {
+    QMutexLocker streamLocker(streamLock());
     while (!d->stdoutChannel.buffers.isEmpty()
         || !d->stderrChannel.buffers.isEmpty())
     {
-- 
2.43.0


From 9d2f67b6cc53ed95d1b71934b3122352a5dff672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:40 +0000
Subject: [PATCH 22/73] fix: let cd into something that's not a directory fail

---
 src/jomlib/commandexecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 42cbbed..a381555 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -378,7 +378,7 @@ bool CommandExecutor::exec_cd(const QString &commandLine)
 
     removeDoubleQuotes(args);
     QFileInfo fi(QDir(m_process.workingDirectory()).absoluteFilePath(args));
-    if (!fi.exists()) {
+    if (!fi.isDir()) {
         QString msg = QLatin1String("Couldn't change working directory to %0.\n");
         writeToStandardError(msg.arg(args).toLocal8Bit());
         return false;
-- 
2.43.0


From 08cbe644e344ee5a9e50b24e36e20b25c0063399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:05 +0000
Subject: [PATCH 23/73] fix: don't abort if neither the command nor the shell
 can be started

---
 src/jomlib/commandexecutor.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index a381555..2fa1ab3 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -92,8 +92,14 @@ void CommandExecutor::start(DescriptionBlock* target)
 void CommandExecutor::onProcessError(Process::ProcessError error)
 {
     //qDebug() << "onProcessError" << error;
-    if (!m_ignoreProcessErrors)
-        onProcessFinished(2, (error == Process::Crashed) ? Process::CrashExit : Process::NormalExit);
+    if (m_ignoreProcessErrors)
+        return;
+    if (error == Process::FailedToStart) {
+        const Command &currentCommand = m_pTarget->m_commands.at(m_currentCommandIdx);
+        writeToStandardError("jom: Can't start command: "
+                             + currentCommand.m_commandLine.toLocal8Bit() + "\n");
+    }
+    onProcessFinished(2, (error == Process::Crashed) ? Process::CrashExit : Process::NormalExit);
 }
 
 void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitStatus)
@@ -247,13 +253,10 @@ void CommandExecutor::executeCurrentCommandLine()
         if (shellCmd.isEmpty())
             shellCmd = QLatin1String("cmd.exe");
 
+        // If the shell cannot be started, onProcessError lets the command fail.
         commandLine = shellCmd + QLatin1Literal(" /C ") + commandLine;
         m_process.start(commandLine);
-        executionSucceeded = m_process.isRunning();
     }
-
-    if (!executionSucceeded)
-        qFatal("Can't start command: %s", qPrintable(commandLine));
 }
 
 void CommandExecutor::createTempFiles()
-- 
2.43.0


From 59d3ff51cf16fffa0038b2a1d1a4629b46785a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:55 +0000
Subject: [PATCH 24/73] fix: redefining an environment variable's macro must
 change the environment variable

---
 src/jomlib/macrotable.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index ff4d3f6..2f80694 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -136,9 +136,19 @@ void MacroTable::setMacroValueImpl(const QString &name, const QString &value, Ma
         throw Exception(msg.arg(name));
     }
 
-    macroData->source = source;
-    if (macroData->source == MacroSource::Environment)
-        setEnvironmentVariable(name, expandMacros(macroData->value));
+    if (macroData->source != MacroSource::Environment) {
+        macroData->source = source;
+        return;
+    }
+
+    QString expandedValue;
+    try {
+        expandedValue = expandMacros(macroData->value);
+    } catch (const Exception &) {
+        // The value cannot be expanded (yet). Don't touch the environment variable.
+        return;
+    }
+    setEnvironmentVariable(expandMacros(name), expandedValue);
 }
 
 void MacroTable::predefineValue(const QString &name, const QString &value)
-- 
2.43.0


From 46c58062b4c8ede2589a37f4466d86d8a3387408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:14 +0000
Subject: [PATCH 25/73] fix: let environment variables override predefined
 macros

---
 src/jomlib/macrotable.cpp      | 6 ++++++
 src/jomlib/makefilefactory.cpp | 6 +++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index 2f80694..f429ae4 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -151,8 +151,14 @@ void MacroTable::setMacroValueImpl(const QString &name, const QString &value, Ma
     setEnvironmentVariable(expandMacros(name), expandedValue);
 }
 
+/**
+ * Predefines the value of a macro. Has no effect on macros that have been defined on the command
+ * line or that are inherited from the environment.
+ */
 void MacroTable::predefineValue(const QString &name, const QString &value)
 {
+    if (m_macros.contains(name))
+        return;
     setMacroValueImpl(name, value, MacroSource::Predefinition);
 }
 
diff --git a/src/jomlib/makefilefactory.cpp b/src/jomlib/makefilefactory.cpp
index 6cc05bb..ef15725 100644
--- a/src/jomlib/makefilefactory.cpp
+++ b/src/jomlib/makefilefactory.cpp
@@ -131,11 +131,15 @@ bool MakefileFactory::apply(const QStringList& commandLineArguments, Options **o
 
     options->fullAppPath = QDir::toNativeSeparators(QCoreApplication::applicationFilePath());
 
-    readEnvironment(m_environment, macroTable, options->overrideEnvVarMacros);
     if (!options->ignorePredefinedRulesAndMacros) {
+        // These must not be overridden by environment variables.
         macroTable->predefineValue("MAKE", encloseInDoubleQuotesIfNeeded(options->fullAppPath));
         macroTable->predefineValue("MAKEDIR", encloseInDoubleQuotesIfNeeded(
                                        QDir::toNativeSeparators(QDir::currentPath())));
+    }
+
+    readEnvironment(m_environment, macroTable, options->overrideEnvVarMacros);
+    if (!options->ignorePredefinedRulesAndMacros) {
         macroTable->predefineValue("AS", "ml");       // Macro Assembler
         macroTable->predefineValue("ASFLAGS", QString());
         macroTable->predefineValue("BC", "bc");       // Basic Compiler
-- 
2.43.0


From 8bca6cd82b09f306dea8849f222bed1f18961ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 26/73] fix: apply .SYNC to dependents that are given with file
 name macros

---
 src/jomlib/parser.cpp | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 1fdcdaa..8eef83c 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -427,22 +427,6 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
     QStringList dependents = splitTargetNames(value);
     dependents = expandWildcards(m_makefile->dirPath(), dependents);
 
-    // handle the special .SYNC dependents
-    {
-        QStringList syncDeps;
-        for (int i=0; i < dependents.count();) {
-            if (dependents.at(i) == QLatin1String(".SYNC")) {
-                dependents.removeAt(i);
-                if (dependents.count() == i)
-                    break;
-                syncDeps = dependents.mid(0, i);
-            } else {
-                m_syncPoints[dependents.at(i)] += syncDeps;
-                ++i;
-            }
-        }
-    }
-
     foreach (const QString& t, targets) {
         if (t == QStringLiteral(".NOTPARALLEL")) {
             m_makefile->setParallelExecutionDisabled(true);
@@ -464,9 +448,24 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
             descblock->m_canAddCommands = canAddCommands;
             canAddCommands = DescriptionBlock::ACSEnabled;
         }
+        const int firstNewDependent = descblock->m_dependents.count();
         descblock->m_dependents.append(dependents);
         descblock->expandFileNameMacrosForDependents();
 
+        // handle the special .SYNC dependents
+        {
+            QStringList syncDeps;
+            for (int i = firstNewDependent; i < descblock->m_dependents.count();) {
+                if (descblock->m_dependents.at(i) == QLatin1String(".SYNC")) {
+                    descblock->m_dependents.removeAt(i);
+                    syncDeps = descblock->m_dependents.mid(firstNewDependent, i - firstNewDependent);
+                } else {
+                    m_syncPoints[descblock->m_dependents.at(i)] += syncDeps;
+                    ++i;
+                }
+            }
+        }
+
         if (!commands.isEmpty()) {
             if (canAddCommands == DescriptionBlock::ACSEnabled || descblock->m_commands.isEmpty())
                 descblock->m_commands.append(commands);
-- 
2.43.0


From 394cf1d1dcab55bc66bd64e942f0bdcdc410d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:52 +0000
Subject: [PATCH 27/73] fix: report unknown characters and unterminated parts
 of preprocessor expressions

---
 src/jomlib/ppexpr-lex.inc | 181 +++++++++++++++++++++-----------------
 src/jomlib/ppexpr.l       |  21 ++++-
 2 files changed, 118 insertions(+), 84 deletions(-)

diff --git a/src/jomlib/ppexpr-lex.inc b/src/jomlib/ppexpr-lex.inc
index 9572b5b..284c3f0 100644
--- a/src/jomlib/ppexpr-lex.inc
+++ b/src/jomlib/ppexpr-lex.inc
@@ -349,8 +349,8 @@ static void yynoreturn yy_fatal_error ( const char* msg  );
 	(yy_hold_char) = *yy_cp; \
 	*yy_cp = '\0'; \
 	(yy_c_buf_p) = yy_cp;
-#define YY_NUM_RULES 41
-#define YY_END_OF_BUFFER 42
+#define YY_NUM_RULES 42
+#define YY_END_OF_BUFFER 43
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -358,17 +358,17 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[86] =
+static const flex_int16_t yy_accept[87] =
     {   0,
         0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
-       42,   41,    1,    3,   41,   22,   25,   20,    6,   23,
+       43,   41,    1,    3,   41,   22,   25,   20,    6,   23,
        24,   18,   16,   17,   19,    2,   10,   41,   11,   41,
-       41,   26,   41,    7,   21,   34,   36,   41,   29,   41,
-       31,   37,   40,   41,    1,    3,    8,    4,    2,   14,
-       12,    9,   13,   15,    0,    0,    0,    5,   34,   35,
-        0,   29,    0,   31,   37,   38,   39,    0,    0,    0,
-       30,   32,    0,    0,    0,    0,   28,   28,    0,    0,
-        0,   27,    0,   33,    0
+       41,   26,   41,    7,   21,   34,   42,   36,   29,   41,
+       31,   41,   37,   40,   42,    1,    3,    8,    4,    2,
+       14,   12,    9,   13,   15,    0,    0,    0,    5,   34,
+       35,   29,    0,   31,    0,   37,   38,   39,    0,    0,
+        0,   30,   32,    0,    0,    0,    0,   28,   28,    0,
+        0,    0,   27,    0,   33,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -411,90 +411,88 @@ static const YY_CHAR yy_meta[41] =
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1
     } ;
 
-static const flex_int16_t yy_base[94] =
+static const flex_int16_t yy_base[95] =
     {   0,
-        0,    0,   38,   39,   34,   37,   38,   39,   48,   53,
-      128,  175,  124,  175,  122,  106,  175,  175,  115,  175,
-      175,  175,  175,  175,  175,  107,   40,  103,   41,   31,
-       37,  175,   41,   81,  175,    0,  113,    0,   45,    0,
-       49,    0,  175,   38,  115,  175,  175,  175,  100,  175,
-      175,  175,  175,  175,   63,   63,   64,  175,    0,  175,
-      104,   54,  103,   55,    0,  175,  175,   65,   66,   67,
-      175,  102,   69,   68,   69,   79,   92,  175,   87,  100,
-      100,  175,   52,   39,  175,  135,  140,  145,  150,  155,
-      160,  165,  169
+        0,    0,   38,   39,   44,   46,   48,   56,   40,   49,
+      141,  164,  121,  164,  118,  102,  164,  164,  111,  164,
+      164,  164,  164,  164,  164,  103,   43,   99,   44,   35,
+       37,  164,   44,   77,  164,    0,  164,  109,  112,    0,
+      111,    0,    0,  164,   44,  110,  164,  164,  164,   96,
+      164,  164,  164,  164,  164,   52,   53,   57,  164,    0,
+      164,  108,   99,  106,   97,    0,  164,  164,   58,   58,
+       59,  164,   96,   62,   62,   63,   69,   87,  164,   73,
+       92,   89,  164,   56,   44,  164,  124,  129,  134,  139,
+      144,  149,  154,  158
 
     } ;
 
-static const flex_int16_t yy_def[94] =
+static const flex_int16_t yy_def[95] =
     {   0,
-       85,    1,   86,   86,   87,   87,   87,   87,   88,   88,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   89,   85,   90,   85,   91,
-       85,   92,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   89,   85,
-       90,   85,   91,   85,   92,   85,   85,   85,   85,   85,
-       85,   91,   85,   85,   85,   85,   85,   85,   85,   93,
-       85,   85,   93,   93,    0,   85,   85,   85,   85,   85,
-       85,   85,   85
+       86,    1,   87,   87,   88,   88,   88,   88,   89,   89,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   90,   86,   86,   86,   91,
+       86,   92,   93,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   90,
+       86,   86,   91,   86,   92,   93,   86,   86,   86,   86,
+       86,   86,   92,   86,   86,   86,   86,   86,   86,   86,
+       94,   86,   86,   94,   94,    0,   86,   86,   86,   86,
+       86,   86,   86,   86
 
     } ;
 
-static const flex_int16_t yy_nxt[216] =
+static const flex_int16_t yy_nxt[205] =
     {   0,
        12,   13,   14,   15,   16,   17,   18,   19,   20,   21,
        22,   23,   24,   25,   26,   12,   27,   28,   29,   30,
        31,   12,   12,   12,   12,   12,   12,   32,   12,   12,
        30,   33,   12,   12,   12,   12,   12,   12,   34,   35,
-       12,   12,   38,   37,   37,   38,   40,   40,   84,   39,
-       12,   55,   39,   41,   41,   12,   50,   51,   53,   54,
-       62,   84,   55,   56,   64,   66,   67,   57,   39,   62,
-       64,   39,   41,   41,   57,   12,   43,   44,   57,   62,
-       12,   43,   44,   64,   68,   69,   70,   73,   62,   64,
-       74,   75,   76,   77,   78,   68,   70,   70,   73,   79,
-
-       80,   75,   75,   76,   78,   78,   82,   81,   80,   84,
-       79,   72,   72,   71,   49,   81,   45,   82,   60,   58,
-       52,   49,   48,   47,   46,   45,   81,   85,   85,   85,
-       85,   85,   85,   85,   81,   36,   36,   36,   36,   36,
-       12,   12,   12,   12,   12,   42,   42,   42,   42,   42,
-       59,   85,   85,   59,   59,   61,   61,   61,   85,   61,
-       63,   85,   63,   63,   63,   65,   85,   65,   65,   83,
-       85,   83,   83,   83,   11,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85
+       37,   37,   37,   38,   38,   39,   37,   39,   37,   41,
+       37,   37,   40,   85,   40,   56,   42,   41,   37,   51,
+       52,   54,   55,   57,   42,   85,   56,   37,   44,   45,
+       58,   67,   68,   69,   58,   70,   37,   44,   45,   71,
+       74,   58,   75,   76,   69,   77,   71,   78,   79,   80,
+       71,   74,   83,   76,   76,   81,   77,   81,   79,   79,
+
+       80,   85,   82,   83,   82,   73,   73,   64,   72,   62,
+       50,   46,   64,   62,   61,   59,   53,   50,   49,   48,
+       47,   82,   46,   82,   36,   36,   36,   36,   36,   12,
+       12,   12,   12,   12,   43,   43,   43,   43,   43,   60,
+       86,   86,   60,   60,   63,   63,   63,   86,   63,   65,
+       86,   65,   65,   65,   66,   86,   66,   66,   84,   86,
+       84,   84,   84,   11,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86
     } ;
 
-static const flex_int16_t yy_chk[216] =
+static const flex_int16_t yy_chk[205] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
-        3,    4,    5,    3,    4,    6,    7,    8,   84,    5,
-        9,   30,    6,    7,    8,   10,   27,   27,   29,   29,
-       39,   83,   30,   31,   41,   44,   44,   33,    5,   62,
-       64,    6,    7,    8,   31,    9,    9,    9,   33,   39,
-       10,   10,   10,   41,   55,   56,   57,   68,   62,   64,
-       69,   70,   73,   74,   75,   55,   56,   57,   68,   76,
-
-       77,   69,   70,   73,   74,   75,   79,   77,   81,   80,
-       76,   72,   63,   61,   49,   81,   45,   79,   37,   34,
-       28,   26,   19,   16,   15,   13,   77,   11,    0,    0,
-        0,    0,    0,    0,   81,   86,   86,   86,   86,   86,
-       87,   87,   87,   87,   87,   88,   88,   88,   88,   88,
-       89,    0,    0,   89,   89,   90,   90,   90,    0,   90,
-       91,    0,   91,   91,   91,   92,    0,   92,   92,   93,
-        0,   93,   93,   93,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-
-       85,   85,   85,   85,   85,   85,   85,   85,   85,   85,
-       85,   85,   85,   85,   85
+        3,    4,    9,    3,    4,    5,    5,    6,    6,    7,
+        7,   10,    5,   85,    6,   30,    7,    8,    8,   27,
+       27,   29,   29,   31,    8,   84,   30,    9,    9,    9,
+       33,   45,   45,   56,   31,   57,   10,   10,   10,   58,
+       69,   33,   70,   71,   56,   74,   57,   75,   76,   77,
+       58,   69,   80,   70,   71,   78,   74,   82,   75,   76,
+
+       77,   81,   78,   80,   82,   73,   65,   64,   63,   62,
+       50,   46,   41,   39,   38,   34,   28,   26,   19,   16,
+       15,   78,   13,   82,   87,   87,   87,   87,   87,   88,
+       88,   88,   88,   88,   89,   89,   89,   89,   89,   90,
+       11,    0,   90,   90,   91,   91,   91,    0,   91,   92,
+        0,   92,   92,   92,   93,    0,   93,   93,   94,    0,
+       94,   94,   94,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86
     } ;
 
 static yy_state_type yy_last_accepting_state;
@@ -820,13 +818,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 86 )
+				if ( yy_current_state >= 87 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_current_state != 85 );
+		while ( yy_current_state != 86 );
 		yy_cp = (yy_last_accepting_cpos);
 		yy_current_state = (yy_last_accepting_state);
 
@@ -1077,13 +1075,32 @@ YY_RULE_SETUP
 
 case 41:
 YY_RULE_SETUP
-ECHO;
+{
+                /* T_LINEFEED is no part of any expression. This yields a syntax error. */
+                BEGIN(INITIAL);
+                return T_LINEFEED;
+            }
 	YY_BREAK
-case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(STATE_STRING):
+case YY_STATE_EOF(STATE_SHELLCOMMAND):
+{
+                BEGIN(INITIAL);
+                delete yylval.str;
+                return T_LINEFEED;
+            }
+	YY_BREAK
 case YY_STATE_EOF(STATE_DEFINED):
 case YY_STATE_EOF(STATE_EXIST):
-case YY_STATE_EOF(STATE_SHELLCOMMAND):
+{
+                BEGIN(INITIAL);
+                return T_LINEFEED;
+            }
+	YY_BREAK
+case 42:
+YY_RULE_SETUP
+ECHO;
+	YY_BREAK
+case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
 	case YY_END_OF_BUFFER:
@@ -1380,7 +1397,7 @@ static int yy_get_next_buffer (void)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 86 )
+			if ( yy_current_state >= 87 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1408,11 +1425,11 @@ static int yy_get_next_buffer (void)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 86 )
+		if ( yy_current_state >= 87 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 85);
+	yy_is_jam = (yy_current_state == 86);
 
 		return yy_is_jam ? 0 : yy_current_state;
 }
diff --git a/src/jomlib/ppexpr.l b/src/jomlib/ppexpr.l
index 4accbd2..d9480ae 100644
--- a/src/jomlib/ppexpr.l
+++ b/src/jomlib/ppexpr.l
@@ -117,7 +117,7 @@ static int lengthOfParenthesized(const char *text, int length)
 (?i:EXIST)      BEGIN(STATE_EXIST);
 
 <STATE_DEFINED>{
-    [:blank:]+     /* eat whitespace */
+    [ \t]+     /* eat whitespace */
     "("[^\)]+")" {
         BEGIN(INITIAL);
         QByteArray macroName(yytext);
@@ -136,7 +136,7 @@ static int lengthOfParenthesized(const char *text, int length)
 }
 
 <STATE_EXIST>{
-    [:blank:]+     /* eat whitespace */
+    [ \t]+     /* eat whitespace */
     "(".+")" {
         BEGIN(INITIAL);
         yyless(lengthOfParenthesized(yytext, static_cast<int>(yyleng)));
@@ -193,5 +193,22 @@ static int lengthOfParenthesized(const char *text, int length)
                 }
 }
 
+<INITIAL,STATE_DEFINED,STATE_EXIST>.    {
+                /* T_LINEFEED is no part of any expression. This yields a syntax error. */
+                BEGIN(INITIAL);
+                return T_LINEFEED;
+            }
+
+<STATE_STRING,STATE_SHELLCOMMAND><<EOF>>    {
+                BEGIN(INITIAL);
+                delete yylval.str;
+                return T_LINEFEED;
+            }
+
+<STATE_DEFINED,STATE_EXIST><<EOF>>    {
+                BEGIN(INITIAL);
+                return T_LINEFEED;
+            }
+
 %%
 
-- 
2.43.0


From 1fd792aed182167d447e14a472ca5ddadc8b1efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 28/73] fix: treat !ELSE IF with an empty expression as error

---
 src/jomlib/preprocessor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index b0e001c..e6e7e4d 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -395,11 +395,11 @@ bool Preprocessor::isPreprocessingDirective(const QString& line, QString& direct
 
             // Handle "!else if", "!else ifdef", "!else ifndef" as "!ELSEIF" etc.
             if (directive == QLatin1String("ELSE")) {
-                static const QRegExp rex(QLatin1String("^(ifn?def|if)\\s+(.*)$"),
+                static const QRegExp rex(QLatin1String("^(ifn?def|if)(\\s.*)?$"),
                                          Qt::CaseInsensitive);
                 if (rex.exactMatch(value)) {
                     directive.append(rex.cap(1).toUpper());
-                    value = rex.cap(2);
+                    value = rex.cap(2).trimmed();
                 }
             }
         }
-- 
2.43.0


From 14e06f81894509abbb2455a21abf022c749fe3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:37 +0000
Subject: [PATCH 29/73] fix: don't expand macros in skipped lines

---
 src/jomlib/preprocessor.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index e6e7e4d..213d962 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -405,7 +405,6 @@ bool Preprocessor::isPreprocessingDirective(const QString& line, QString& direct
         }
     }
 
-    value = m_macroTable->expandMacros(value);
     removeInlineComments(value);
     return result;
 }
@@ -426,8 +425,8 @@ void Preprocessor::skipUntilNextMatchingConditional()
         if (line.content.startsWith(QLatin1Char('!')))
             completePreprocessingDirectiveLine(line);
 
-        QString expandedLine = m_macroTable->expandMacros(line.content);
-        if (!isPreprocessingDirective(expandedLine, directive, value))
+        // Macros are not expanded here. They must not cause errors in skipped lines.
+        if (!isPreprocessingDirective(line.content, directive, value))
             continue;
 
         if (directive == QLatin1String("ENDIF"))
@@ -444,7 +443,7 @@ void Preprocessor::skipUntilNextMatchingConditional()
 
         if (depth == 0) {
             if (token == TOK_ELSE) {
-                m_linesPutBack.append(expandedLine);
+                m_linesPutBack.append(line.content);
                 return;  // found the next matching ELSE
             }
             if (token == TOK_ENDIF) {
-- 
2.43.0


From 9f89fba9c02ced4e89105432190a6955dd1fe524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:21 +0000
Subject: [PATCH 30/73] fix: expand macros in directives exactly once

---
 src/jomlib/preprocessor.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 213d962..96f5ce3 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -248,9 +248,15 @@ bool Preprocessor::parseMacro(const QString& line)
 bool Preprocessor::parsePreprocessingDirective(const QString& line)
 {
     QString directive, value;
-    QString expandedLine = m_macroTable->expandMacros(line);
-    if (!isPreprocessingDirective(expandedLine, directive, value))
-        return false;
+    if (isPreprocessingDirective(line, directive, value)) {
+        // Expressions and the values of !ELSE... are expanded not before they're evaluated.
+        if (directive != QLatin1String("IF") && !directive.startsWith(QLatin1String("ELSE")))
+            value = m_macroTable->expandMacros(value);
+    } else {
+        const QString expandedLine = m_macroTable->expandMacros(line);
+        if (!isPreprocessingDirective(expandedLine, directive, value))
+            return false;
+    }
 
     if (directive == QLatin1String("CMDSWITCHES")) {
     } else if (directive == QLatin1String("ERROR")) {
@@ -295,7 +301,8 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
     } else if (directive == QLatin1String("ELSEIFDEF")) {
         if (conditionalDepth() == 0)
             error(QLatin1String("unexpected ELSE"));
-        if (!m_conditionalStack.top() || !m_macroTable->isMacroDefined(value)) {
+        if (!m_conditionalStack.top()
+                || !m_macroTable->isMacroDefined(m_macroTable->expandMacros(value))) {
             skipUntilNextMatchingConditional();
         } else {
             m_conditionalStack.pop();
@@ -304,7 +311,8 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
     } else if (directive == QLatin1String("ELSEIFNDEF")) {
         if (conditionalDepth() == 0)
             error(QLatin1String("unexpected ELSE"));
-        if (!m_conditionalStack.top() || m_macroTable->isMacroDefined(value)) {
+        if (!m_conditionalStack.top()
+                || m_macroTable->isMacroDefined(m_macroTable->expandMacros(value))) {
             skipUntilNextMatchingConditional();
         } else {
             m_conditionalStack.pop();
-- 
2.43.0


From 59f40628d69541972a828c73ef0df9c4e3850ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:42 +0000
Subject: [PATCH 31/73] fix: don't replace escaped invocations of a macro in
 its own definition

---
 src/jomlib/macrotable.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index f429ae4..66206f9 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -172,19 +172,28 @@ void MacroTable::setEnvironmentVariable(const QString& name, const QString& valu
 }
 
 /**
- * String replace with lazy replacement evaluation.
- * getValue is only called if the search string is present.
+ * Replaces macro invocations with lazy evaluation of the replacement.
+ * getValue is only called if the invocation is present.
+ * Escaped invocations, e.g. $$(NAME), are left alone.
  */
 template <typename F>
-void replaceStringWithLazyValue(QString &str, const QString &searchString, F getValue)
+void replaceInvocationWithLazyValue(QString &str, const QString &invocation, F getValue)
 {
-    int idx = str.indexOf(searchString);
-    if (idx >= 0) {
-        const QString oldValue = getValue();
-        do {
-            str.replace(idx, searchString.length(), oldValue);
-            idx = str.indexOf(searchString, idx + oldValue.length());
-        } while (idx >= 0);
+    bool valueKnown = false;
+    QString oldValue;
+    int idx = 0;
+    while ((idx = str.indexOf(QLatin1Char('$'), idx)) >= 0) {
+        if (str.midRef(idx, invocation.length()) == invocation) {
+            if (!valueKnown) {
+                oldValue = getValue();
+                valueKnown = true;
+            }
+            str.replace(idx, invocation.length(), oldValue);
+            idx += oldValue.length();
+        } else {
+            // skip escaped $ characters
+            idx += 2;
+        }
     }
 }
 
@@ -215,7 +224,7 @@ MacroTable::MacroData* MacroTable::internalSetMacroValue(const QString &name, co
     MacroData* result = 0;
     const QString instantiatedName = QLatin1Literal("$(") + expandedName + QLatin1Literal(")");
     QString newValue = value;
-    replaceStringWithLazyValue(newValue, instantiatedName, MacroValueOp(this, expandedName));
+    replaceInvocationWithLazyValue(newValue, instantiatedName, MacroValueOp(this, expandedName));
 
     result = &m_macros[expandedName];
     if (ignoreReadOnly || !result->isReadOnly)
-- 
2.43.0


From 0fe8be48250346e3827afdc648c82bf333ddf379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:46 +0000
Subject: [PATCH 32/73] fix: split macro substitutions at the first equals sign
 and leave the replacement alone

---
 src/jomlib/macrotable.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/macrotable.cpp b/src/jomlib/macrotable.cpp
index 66206f9..55459bd 100644
--- a/src/jomlib/macrotable.cpp
+++ b/src/jomlib/macrotable.cpp
@@ -419,7 +419,8 @@ MacroTable::Substitution MacroTable::parseSubstitutionStatement(const QString &s
         const QChar &ch = str.at(i);
         if (ch == QLatin1Char('=')) {
             quoted = false;
-            equalsSignIdx = i;
+            if (equalsSignIdx < 0)
+                equalsSignIdx = i;
         } else if (ch == QLatin1Char(')') && !quoted) {
             quoted = false;
             macroInvokationEndIdx = i;
@@ -438,7 +439,7 @@ MacroTable::Substitution MacroTable::parseSubstitutionStatement(const QString &s
     Substitution result;
     result.before = str.mid(substitutionStartIdx, equalsSignIdx - substitutionStartIdx);
     result.after = str.mid(equalsSignIdx + 1, macroInvokationEndIdx - equalsSignIdx - 1);
-    for (int i=quotePositions.count() - 1; i >= 0; --i)
+    for (int i=quotePositions.count() - 1; i >= 0 && quotePositions.at(i) > equalsSignIdx; --i)
         result.after.remove(quotePositions.at(i) - equalsSignIdx - 1, 1);
     return result;
 }
-- 
2.43.0


From 6e024afcfe4d52b01f1aebb9342c16f7214c41a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:40 +0000
Subject: [PATCH 33/73] fix: don't keep the carriage return of a line end
 that's split by the line buffer

---
 src/jomlib/makefilelinereader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index 7ff9938..5d0c788 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -130,6 +130,11 @@ MakefileLine MakefileLineReader::readLine_impl_local8bit()
             if (moreBytesRead <= 0)
                 break;
             bytesRead += moreBytesRead;
+            if (m_lineBuffer[bytesRead - 1] == '\n' && m_lineBuffer[bytesRead - 2] == '\r') {
+                // QFile doesn't translate "\r\n" if the two characters are read separately.
+                --bytesRead;
+                m_lineBuffer[bytesRead - 1] = '\n';
+            }
         }
 
     } while (m_lineBuffer[0] == '#');
-- 
2.43.0


From e7b517855258fa3929bfc3f93075779b9e35af23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:58 +0000
Subject: [PATCH 34/73] fix: don't expand macros in comments of dependency
 lines

---
 src/jomlib/parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 8eef83c..056d815 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -83,16 +83,18 @@ void Parser::apply(Preprocessor* pp,
     try {
         readLine();
         while (!m_line.isNull()) {
-            QString expandedLine = m_preprocessor->macroTable()->expandMacros(m_line);
+            // Comments of dependency lines are removed by isDescriptionBlock. Here, they must not
+            // cause errors.
+            QString lineWithoutComment = m_line;
+            Preprocessor::removeInlineComments(lineWithoutComment);
+            QString expandedLine = m_preprocessor->macroTable()->expandMacros(lineWithoutComment);
             if (isEmptyLine(expandedLine)) {
                 readLine();
             } else if (isDotDirective(expandedLine)) {
                 m_line = expandedLine;
-                Preprocessor::removeInlineComments(m_line);
                 parseDotDirective();
             } else if (isInferenceRule(expandedLine)) {
                 m_line = expandedLine;
-                Preprocessor::removeInlineComments(m_line);
                 parseInferenceRule();
             } else if (isDescriptionBlock(dbSeparatorPos, dbSeparatorLength, dbCommandSeparatorPos)) {
                 parseDescriptionBlock(dbSeparatorPos, dbSeparatorLength, dbCommandSeparatorPos);
-- 
2.43.0


From 10f0a1f6cfecbc49ba62b6f4ff413cb441a4db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:03 +0000
Subject: [PATCH 35/73] fix: don't translate line ends in the bytes of UTF-16
 makefiles

---
 src/jomlib/makefilelinereader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/makefilelinereader.cpp b/src/jomlib/makefilelinereader.cpp
index 5d0c788..c39623e 100644
--- a/src/jomlib/makefilelinereader.cpp
+++ b/src/jomlib/makefilelinereader.cpp
@@ -62,6 +62,8 @@ bool MakefileLineReader::open()
         m_readLineImpl = &NMakeFile::MakefileLineReader::readLine_impl_local8bit;
     } else {
         m_readLineImpl = &NMakeFile::MakefileLineReader::readLine_impl_unicode;
+        // The text stream handles line ends. The bytes of UTF-16 text must not be translated.
+        m_file.setTextModeEnabled(false);
         m_textStream.setCodec(fileEncoding == FCUTF8 ? "UTF-8" : "UTF-16");
         m_textStream.setAutoDetectUnicode(false);
         m_textStream.setDevice(&m_file);
-- 
2.43.0


From c9b966cf3a6e7d404b91344bf8c983f4275af954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 36/73] fix: don't expand macros in comments when looking for
 preprocessing directives

---
 src/jomlib/preprocessor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 96f5ce3..55b54b9 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -249,11 +249,15 @@ bool Preprocessor::parsePreprocessingDirective(const QString& line)
 {
     QString directive, value;
     if (isPreprocessingDirective(line, directive, value)) {
+        removeInlineComments(value);
         // Expressions and the values of !ELSE... are expanded not before they're evaluated.
         if (directive != QLatin1String("IF") && !directive.startsWith(QLatin1String("ELSE")))
             value = m_macroTable->expandMacros(value);
     } else {
-        const QString expandedLine = m_macroTable->expandMacros(line);
+        QString expandedLine = line;
+        if (!line.isEmpty() && !startsWithSpaceOrTab(line))  // no comments in command lines
+            removeInlineComments(expandedLine);
+        expandedLine = m_macroTable->expandMacros(expandedLine);
         if (!isPreprocessingDirective(expandedLine, directive, value))
             return false;
     }
@@ -413,7 +417,6 @@ bool Preprocessor::isPreprocessingDirective(const QString& line, QString& direct
         }
     }
 
-    removeInlineComments(value);
     return result;
 }
 
-- 
2.43.0


From 0895f760a093e2e95196fe8ae2b7682be08d55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:56 +0000
Subject: [PATCH 37/73] fix: recognize $** in dependents as a file name macro,
 not as a wildcard

---
 src/jomlib/parser.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 056d815..3bb2d52 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -341,7 +341,8 @@ static bool containsWildcard(const QString &str)
     enum State {
         InitialState,
         AfterDollarState,
-        AfterDollarParenState
+        AfterDollarParenState,
+        AfterDollarAsteriskState
     };
     State s = InitialState;
     for (int i = 0; i < str.length(); ++i) {
@@ -350,11 +351,14 @@ static bool containsWildcard(const QString &str)
             s = AfterDollarState;
             continue;
         }
-        if (s == AfterDollarState) {
-            s = (ch.unicode() == '(') ? AfterDollarParenState : InitialState;
-        } else if (s == AfterDollarParenState) {
-            s = InitialState;
+        if (s == AfterDollarState && ch.unicode() == '(') {
+            s = AfterDollarParenState;
+        } else if (s == AfterDollarState || s == AfterDollarParenState) {
+            s = (ch.unicode() == '*') ? AfterDollarAsteriskState : InitialState;
+        } else if (s == AfterDollarAsteriskState && ch.unicode() == '*') {
+            s = InitialState;   // $**
         } else {
+            s = InitialState;
             const ushort c = ch.unicode();
             if (c == '*' || c == '?')
                 return true;
-- 
2.43.0


From 59d306e6d1de4a75993bc4bd11965c9c495884d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:01 +0000
Subject: [PATCH 38/73] fix: report errors of description blocks at the line
 where they are

---
 src/jomlib/parser.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 3bb2d52..ba884bd 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -421,6 +421,9 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
         parseCommandLine(inPlaceCommand, commands, false);
     }
 
+    // Reading the commands leaves the line and maybe even the file of this description block.
+    const QString fileName = m_preprocessor->currentFileName();
+    const uint lineNumber = m_preprocessor->lineNumber();
     readLine();
     if (m_line.trimmed().isEmpty()) {
         readLine();
@@ -445,8 +448,9 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
             if (canAddCommands != descblock->m_canAddCommands &&
                 descblock->m_canAddCommands != DescriptionBlock::ACSUnknown)
             {
-                error(QLatin1String("cannot have : and :: dependents for same target"));
-                return;
+                throw FileException(
+                            QLatin1String("cannot have : and :: dependents for same target"),
+                            fileName, lineNumber);
             }
             descblock->m_canAddCommands = canAddCommands;
         } else {
@@ -456,7 +460,11 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
         }
         const int firstNewDependent = descblock->m_dependents.count();
         descblock->m_dependents.append(dependents);
-        descblock->expandFileNameMacrosForDependents();
+        try {
+            descblock->expandFileNameMacrosForDependents();
+        } catch (const Exception &e) {
+            throw FileException(e.message(), fileName, lineNumber);
+        }
 
         // handle the special .SYNC dependents
         {
-- 
2.43.0


From 43b1cdf5b339683ffb01b49c94269cd024ef7aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:50 +0000
Subject: [PATCH 39/73] fix: name file and line when !ENDIF is missing

---
 src/jomlib/preprocessor.cpp | 9 ++++++---
 src/jomlib/preprocessor.h   | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index 55b54b9..d8ec8ea 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -36,7 +36,8 @@
 namespace NMakeFile {
 
 Preprocessor::Preprocessor()
-:   m_macroTable(0),
+:   m_lastLineNumber(0),
+    m_macroTable(0),
     m_expressionParser(0),
     m_bInlineFileMode(false)
 {
@@ -125,14 +126,14 @@ QString Preprocessor::readLine()
 uint Preprocessor::lineNumber() const
 {
     if (m_fileStack.isEmpty())
-        return 0;
+        return m_lastLineNumber;
     return m_fileStack.top().reader->lineNumber();
 }
 
 QString Preprocessor::currentFileName() const
 {
     if (m_fileStack.isEmpty())
-        return QString();
+        return m_lastFileName;
     return m_fileStack.top().reader->fileName();
 }
 
@@ -146,6 +147,8 @@ MakefileLine Preprocessor::basicReadLine()
 
     MakefileLine line = m_fileStack.top().reader->readLine(m_bInlineFileMode);
     while (line.content.isNull()) {
+        m_lastFileName = m_fileStack.top().reader->fileName();
+        m_lastLineNumber = m_fileStack.top().reader->lineNumber();
         delete m_fileStack.top().reader;
         m_fileStack.pop();
         if (m_fileStack.isEmpty())
diff --git a/src/jomlib/preprocessor.h b/src/jomlib/preprocessor.h
index b268c72..d01434f 100644
--- a/src/jomlib/preprocessor.h
+++ b/src/jomlib/preprocessor.h
@@ -99,6 +99,8 @@ private:
     };
 
     QStack<TextFile>    m_fileStack;
+    QString             m_lastFileName;     // the position behind the last line
+    uint                m_lastLineNumber;   // when m_fileStack is empty
     MacroTable*         m_macroTable;
     QRegExp             m_rexPreprocessingDirective;
     QStack<bool>        m_conditionalStack;
-- 
2.43.0


From b6e5e4828046ee68fde2aea2e76164f2d6a054ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 40/73] fix: file name macros with empty values

---
 src/jomlib/makefile.cpp | 128 +++++++++++++++++++---------------------
 1 file changed, 61 insertions(+), 67 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index d5b337e..2470fdc 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -227,81 +227,75 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
             bool substitutionStateKnown = false;
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx+1), replacementLength,
                                                              depIdx, dependentsForbidden);
-            if (macroValues.isEmpty()) {
-                str.remove(idx - 1, replacementLength + 3);
-            } else {
-                ch = str.at(idx + replacementLength + 1).toLatin1();
-                switch (ch)
-                {
-                case 'D':
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        int k = macroValue.lastIndexOf(QLatin1Char('\\'));
-                        if (k == -1)
-                            macroValue = QLatin1String(".");
-                        else
-                            macroValue = macroValue.left(k);
-                    }
-                    break;
-                case 'B':
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        macroValue = QFileInfo(macroValue).baseName();
-                    }
-                    break;
-                case 'F':
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        macroValue = QFileInfo(macroValue).fileName();
-                    }
-                    break;
-                case 'R':
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        QString &macroValue = macroValues[i];
-                        int k = macroValue.lastIndexOf(QLatin1Char('.'));
-                        if (k > -1)
-                            macroValue = macroValue.left(k);
-                    }
-                    break;
-                case ':':
-                    substitutionStateKnown = true;
-                    substitutionIdx = idx + replacementLength + 2;
-                    break;
-                case ')':
-                    // No file name modifier given.
-                    substitutionStateKnown = true;
-                    break;
-                default:
-                    // TODO: yield error? ignore for now
-                    continue;
+            ch = str.at(idx + replacementLength + 1).toLatin1();
+            switch (ch)
+            {
+            case 'D':
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    QString &macroValue = macroValues[i];
+                    int k = macroValue.lastIndexOf(QLatin1Char('\\'));
+                    if (k == -1)
+                        macroValue = QLatin1String(".");
+                    else
+                        macroValue = macroValue.left(k);
+                }
+                break;
+            case 'B':
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    QString &macroValue = macroValues[i];
+                    macroValue = QFileInfo(macroValue).baseName();
+                }
+                break;
+            case 'F':
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    QString &macroValue = macroValues[i];
+                    macroValue = QFileInfo(macroValue).fileName();
+                }
+                break;
+            case 'R':
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    QString &macroValue = macroValues[i];
+                    int k = macroValue.lastIndexOf(QLatin1Char('.'));
+                    if (k > -1)
+                        macroValue = macroValue.left(k);
                 }
+                break;
+            case ':':
+                substitutionStateKnown = true;
+                substitutionIdx = idx + replacementLength + 2;
+                break;
+            case ')':
+                // No file name modifier given.
+                substitutionStateKnown = true;
+                break;
+            default:
+                // TODO: yield error? ignore for now
+                continue;
+            }
 
-                // We've seen D, B, F or R and don't know yet whether we should substitute something.
-                if (!substitutionStateKnown && str.at(idx + replacementLength + 2) == QLatin1Char(':'))
-                    substitutionIdx = idx + replacementLength + 3;
+            // We've seen D, B, F or R and don't know yet whether we should substitute something.
+            if (!substitutionStateKnown && str.at(idx + replacementLength + 2) == QLatin1Char(':'))
+                substitutionIdx = idx + replacementLength + 3;
 
-                if (substitutionIdx > 0) {
-                    int macroInvokationEnd;
-                    const MacroTable::Substitution substitution =
-                            MacroTable::parseSubstitutionStatement(str, substitutionIdx, macroInvokationEnd);
-                    for (int i = 0; i < macroValues.count(); ++i) {
-                        MacroTable::applySubstitution(substitution, macroValues[i]);
-                    }
-                    replacementLength = macroInvokationEnd - idx - 2;  // because we're later adding 4
+            if (substitutionIdx > 0) {
+                int macroInvokationEnd;
+                const MacroTable::Substitution substitution =
+                        MacroTable::parseSubstitutionStatement(str, substitutionIdx, macroInvokationEnd);
+                for (int i = 0; i < macroValues.count(); ++i) {
+                    MacroTable::applySubstitution(substitution, macroValues[i]);
                 }
-
-                const QString macroValue = joinFileNameMacroValues(macroValues);
-                str.replace(idx - 1, replacementLength + 4, macroValue);
+                replacementLength = macroInvokationEnd - idx - 2;  // because we're later adding 4
             }
+
+            const QString macroValue = joinFileNameMacroValues(macroValues);
+            str.replace(idx - 1, replacementLength + 4, macroValue);
+            idx += macroValue.length() - 1;
         } else {
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx), replacementLength,
                                                              depIdx, dependentsForbidden);
-            if (macroValues.isEmpty()) {
-                str.remove(idx - 1, replacementLength + 1);
-            } else {
-                const QString macroValue = joinFileNameMacroValues(macroValues);
-                str.replace(idx - 1, replacementLength + 1, macroValue);
-            }
+            const QString macroValue = joinFileNameMacroValues(macroValues);
+            str.replace(idx - 1, replacementLength + 1, macroValue);
+            idx += macroValue.length() - 1;
         }
     }
 }
-- 
2.43.0


From 7f4b1c63eb618c859e239145a1065c5cffdec664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:52 +0000
Subject: [PATCH 41/73] fix: do not take a dot in a directory name for a file
 extension

---
 src/jomlib/makefile.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 2470fdc..1855234 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -176,6 +176,14 @@ inline void quoteStringIfNeeded(QString& str)
     }
 }
 
+// Returns the position of the dot before the file extension, or -1.
+static int extensionPos(const QString &filePath)
+{
+    const int k = filePath.lastIndexOf(QLatin1Char('.'));
+    return k > filePath.lastIndexOf(QLatin1Char('\\'))
+            && k > filePath.lastIndexOf(QLatin1Char('/')) ? k : -1;
+}
+
 static QString joinFileNameMacroValues(const QStringList &macroValues)
 {
     QString result;
@@ -255,7 +263,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
             case 'R':
                 for (int i = 0; i < macroValues.count(); ++i) {
                     QString &macroValue = macroValues[i];
-                    int k = macroValue.lastIndexOf(QLatin1Char('.'));
+                    int k = extensionPos(macroValue);
                     if (k > -1)
                         macroValue = macroValue.left(k);
                 }
@@ -328,7 +336,7 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
                 } else {
                     replacementLength = 1;
                     QString tgt = targetName();
-                    int idx = tgt.lastIndexOf(QLatin1Char('.'));
+                    int idx = extensionPos(tgt);
                     if (idx > -1)
                         tgt.resize(idx);
                     results += tgt;
-- 
2.43.0


From 432771d2be6b8ce791eb3f3ee2bf6da602825b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:58 +0000
Subject: [PATCH 42/73] fix: the modifier B strips the last extension only

---
 src/jomlib/makefile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 1855234..bfcfd6f 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -251,7 +251,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
             case 'B':
                 for (int i = 0; i < macroValues.count(); ++i) {
                     QString &macroValue = macroValues[i];
-                    macroValue = QFileInfo(macroValue).baseName();
+                    macroValue = QFileInfo(macroValue).completeBaseName();
                 }
                 break;
             case 'F':
-- 
2.43.0


From 1dd276e93c3b825baa122c86770114c12af4d9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:17 +0000
Subject: [PATCH 43/73] fix: $? holds newer dependents only

---
 src/jomlib/makefile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index bfcfd6f..8c1a0c4 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -352,7 +352,7 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
                 FileTime targetTimeStamp = FastFileInfo(targetName()).lastModified();
                 foreach (const QString& dependentName, dependentCandidates) {
                     FileTime dependentTimeStamp = FastFileInfo(dependentName).lastModified();
-                    if (targetTimeStamp <= dependentTimeStamp) {
+                    if (!targetTimeStamp.isValid() || targetTimeStamp < dependentTimeStamp) {
                         results += dependentName;
                     }
                 }
-- 
2.43.0


From a489289527c5ce015f5390b72e748fa837a01fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:04 +0000
Subject: [PATCH 44/73] fix: do not drop the character behind $(@), $(*), $(**)
 and $(?)

---
 src/jomlib/makefile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 8c1a0c4..d5b08fe 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -275,6 +275,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
             case ')':
                 // No file name modifier given.
                 substitutionStateKnown = true;
+                --replacementLength;
                 break;
             default:
                 // TODO: yield error? ignore for now
-- 
2.43.0


From ffda43a2f89a9082f1d7060b179aa97d99d7eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:17 +0000
Subject: [PATCH 45/73] fix: expand $< with modifiers in inference rules

---
 src/jomlib/makefile.cpp | 6 ++++++
 src/jomlib/makefile.h   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index d5b08fe..a5ef19e 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -326,6 +326,10 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
             replacementLength = 1;
             results += targetName();
             break;
+        case '<':
+            replacementLength = 1;
+            results = m_inferredDependents;
+            break;
         case '*':
             {
                 if (str.length() >= 2 && str.at(1) == QLatin1Char('*')) {
@@ -622,6 +626,7 @@ void Makefile::applyInferenceRule(DescriptionBlock* target, const InferenceRule*
     QString inferredDependent = rule->inferredDependent(target->targetName());
     if (!target->m_dependents.contains(inferredDependent))
         target->m_dependents.append(inferredDependent);
+    target->m_inferredDependents = QStringList(inferredDependent);
     target->m_commands = rule->m_commands;
 
     //qDebug() << "----> inferredDependent:" << inferredDependent;
@@ -651,6 +656,7 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
         if (!executingTarget->m_dependents.contains(inferredDependent))
             executingTarget->m_dependents.append(inferredDependent);
 
+        executingTarget->m_inferredDependents.append(inferredDependent);
         inferredDependents.append(inferredDependent);
         inferredDependents.append(QLatin1Char(' '));
 
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 88eaaf0..dd2a743 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -106,6 +106,7 @@ public:
     bool m_bNoCyclesRootedHere;
     bool m_bInferenceRulesPreselected;
     QVector<InferenceRule*> m_inferenceRules;
+    QStringList m_inferredDependents;
     QList<DescriptionBlock*> m_batchTargets;    // other targets that are built by our commands
 
     enum AddCommandsState { ACSUnknown, ACSEnabled, ACSDisabled };
-- 
2.43.0


From ef0df9607a2f9148083bedd3a35900d11bc9edb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:13 +0000
Subject: [PATCH 46/73] fix: judge inferred targets by the source they are
 built from

---
 src/jomlib/dependencygraph.cpp | 32 +++++++++++++-------------------
 src/jomlib/makefile.cpp        | 23 ++++++++++++++++-------
 src/jomlib/makefile.h          |  1 +
 3 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 9d9cc79..2f4df7a 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -153,26 +153,20 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
 
     if (isUpToDate && !target->m_inferenceRules.isEmpty()) {
         // The target is up-to-date but it still has unapplied inference rules.
-        // That means there could be dependents we didn't take into account yet.
-
-        QStringList savedDependents = target->m_dependents;
-        QVector<InferenceRule*> savedRules = target->m_inferenceRules;
-        target->m_inferenceRules.clear();
-
-        bool inferredDependentAdded = false;
-        foreach (InferenceRule *rule, savedRules) {
-            QString inferredDependent = rule->inferredDependent(target->targetName());
-            if (!target->m_dependents.contains(inferredDependent) && FastFileInfo(inferredDependent).exists()) {
-                inferredDependentAdded = true;
-                target->m_dependents.append(inferredDependent);
-            }
-        }
-
-        if (inferredDependentAdded)
+        // That means there could be a dependent we didn't take into account yet.
+
+        const InferenceRule *rule = target->makefile()->matchingInferenceRule(target);
+        const QString inferredDependent
+                = rule ? rule->inferredDependent(target->targetName()) : QString();
+        if (rule && !target->m_dependents.contains(inferredDependent)) {
+            QStringList savedDependents = target->m_dependents;
+            QVector<InferenceRule*> savedRules = target->m_inferenceRules;
+            target->m_inferenceRules.clear();
+            target->m_dependents.append(inferredDependent);
             isUpToDate = isTargetUpToDate(target);
-
-        target->m_dependents = savedDependents;
-        target->m_inferenceRules = savedRules;
+            target->m_dependents = savedDependents;
+            target->m_inferenceRules = savedRules;
+        }
     }
 
     if (!isUpToDate && target->m_bFileExists)
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index a5ef19e..ed484cf 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -592,22 +592,31 @@ void Makefile::invalidateTimeStamps()
     }
 }
 
-void Makefile::applyInferenceRules(DescriptionBlock* target)
+/**
+ * Returns the inference rule that builds the given target, or 0 if there is no rule whose
+ * dependent exists.
+ */
+const InferenceRule *Makefile::matchingInferenceRule(const DescriptionBlock *target)
 {
-    if (target->m_inferenceRules.isEmpty())
-        return;
-
     QVector<InferenceRule *> rules = target->m_inferenceRules;
     filterRulesByDependent(rules, target->targetName());
     std::stable_sort(rules.begin(), rules.end(), &infRulesPriorityGreaterThan);
 
-    if (rules.isEmpty()) {
+    // take the last matching inference rule
+    return rules.isEmpty() ? 0 : rules.last();
+}
+
+void Makefile::applyInferenceRules(DescriptionBlock* target)
+{
+    if (target->m_inferenceRules.isEmpty())
+        return;
+
+    const InferenceRule* matchingRule = matchingInferenceRule(target);
+    if (!matchingRule) {
         //qDebug() << "XXX" << target->m_targetName << "no matching inference rule found.";
         return;
     }
 
-    // take the last matching inference rule
-    const InferenceRule* matchingRule = rules.last();
     applyInferenceRule(target, matchingRule);
     target->m_inferenceRules.clear();
 }
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index dd2a743..51f9b48 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -204,6 +204,7 @@ public:
     void dumpTargets() const;
     void dumpInferenceRules() const;
     void invalidateTimeStamps();
+    const InferenceRule *matchingInferenceRule(const DescriptionBlock *target);
     void applyInferenceRules(QList<DescriptionBlock*> targets);
     void addInferenceRule(InferenceRule *rule);
     void calculateInferenceRulePriorities(const QStringList &suffixes);
-- 
2.43.0


From 9ef06c952abc27c0c4197b37e65ff85b03ad2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:37 +0000
Subject: [PATCH 47/73] fix: do not use file times of previous goals

---
 src/jomlib/fastfileinfo.cpp | 5 +++++
 src/jomlib/fastfileinfo.h   | 1 +
 src/jomlib/makefile.cpp     | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/jomlib/fastfileinfo.cpp b/src/jomlib/fastfileinfo.cpp
index 960ae2a..527583f 100644
--- a/src/jomlib/fastfileinfo.cpp
+++ b/src/jomlib/fastfileinfo.cpp
@@ -99,4 +99,9 @@ void FastFileInfo::clearCacheForFile(const QString &fileName)
     fadHash.remove(fileName);
 }
 
+void FastFileInfo::clearCache()
+{
+    fadHash.clear();
+}
+
 } // NMakeFile
diff --git a/src/jomlib/fastfileinfo.h b/src/jomlib/fastfileinfo.h
index a201e85..0540d47 100644
--- a/src/jomlib/fastfileinfo.h
+++ b/src/jomlib/fastfileinfo.h
@@ -39,6 +39,7 @@ public:
     FileTime lastModified() const;
 
     static void clearCacheForFile(const QString &fileName);
+    static void clearCache();
 
     struct InternalType
     {
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index ed484cf..af0520f 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -590,6 +590,7 @@ void Makefile::invalidateTimeStamps()
         target->m_timeStamp = FileTime();
         target->m_bFileExists = false;
     }
+    FastFileInfo::clearCache();
 }
 
 /**
-- 
2.43.0


From 69eacba68d8c8ebda0638c6820dbb9e44ea0270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:26 +0000
Subject: [PATCH 48/73] fix: detect cycles through targets that are defined by
 their full path

---
 src/jomlib/dependencygraph.cpp |  8 ++------
 src/jomlib/makefile.cpp        | 13 +++++++++++++
 src/jomlib/makefile.h          |  2 ++
 src/jomlib/parser.cpp          |  6 +++---
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 2f4df7a..3cbf8a4 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -118,7 +118,7 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
         FileTime latestDependentTime;
         foreach (const QString& dependentName, target->m_dependents) {
             FileTime ts;
-            DescriptionBlock *dependent = target->makefile()->target(dependentName);
+            DescriptionBlock *dependent = target->makefile()->targetOfDependent(dependentName);
             if (dependent) {
                 ts = dependent->m_timeStamp;
                 if (!dependent->m_bFileExists && !dependent->m_commands.isEmpty()) {
@@ -184,11 +184,7 @@ void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
 
     foreach (const QString& dependentName, node->target->m_dependents) {
         Makefile* const makefile = node->target->makefile();
-        DescriptionBlock* dependent = makefile->target(dependentName);
-        if (!dependent) {
-            // We don't know dependent "foo" but it may have been defined as "C:\MySourceDir\foo"
-            dependent = makefile->target(makefile->dirPath() + QDir::separator() + dependentName);
-        }
+        DescriptionBlock* dependent = makefile->targetOfDependent(dependentName);
         if (!dependent) {
             if (!FastFileInfo(dependentName).exists()) {
                 QByteArray msg = "Error: dependent '";
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index af0520f..d268ff4 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -581,6 +581,19 @@ void Makefile::addPreciousTarget(const QString& targetName)
         m_preciousTargets.append(targetName);
 }
 
+/**
+ * Returns the target a dependent denotes, or 0 if there is none.
+ */
+DescriptionBlock *Makefile::targetOfDependent(const QString &dependentName) const
+{
+    DescriptionBlock *result = target(dependentName);
+    if (!result) {
+        // We don't know dependent "foo" but it may have been defined as "C:\MySourceDir\foo"
+        result = target(dirPath() + QDir::separator() + dependentName);
+    }
+    return result;
+}
+
 void Makefile::invalidateTimeStamps()
 {
     QHash<QString, DescriptionBlock*>::iterator it = m_targets.begin();
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 51f9b48..ff0d457 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -175,6 +175,8 @@ public:
         return result;
     }
 
+    DescriptionBlock *targetOfDependent(const QString &dependentName) const;
+
     const QHash<QString, DescriptionBlock*>& targets() const
     {
         return m_targets;
diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index ba884bd..c704f52 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -687,7 +687,7 @@ void Parser::checkForCycles(DescriptionBlock* target)
 #endif
     target->m_bVisitedByCycleCheck = true;
     for (int i = target->m_dependents.count(); --i >= 0;) {
-        DescriptionBlock *const dep = m_makefile->target(target->m_dependents.at(i));
+        DescriptionBlock *const dep = m_makefile->targetOfDependent(target->m_dependents.at(i));
         checkForCycles(dep);
     }
     target->m_bVisitedByCycleCheck = false;
@@ -704,7 +704,7 @@ void Parser::resetCycleChecker(DescriptionBlock* target)
         return;
 
     for (int i = target->m_dependents.count(); --i >= 0;) {
-        DescriptionBlock *const dep = m_makefile->target(target->m_dependents.at(i));
+        DescriptionBlock *const dep = m_makefile->targetOfDependent(target->m_dependents.at(i));
         resetCycleChecker(dep);
     }
 
@@ -752,7 +752,7 @@ void Parser::preselectInferenceRules(DescriptionBlock *target)
     }
 
     foreach (const QString &dependentName, target->m_dependents) {
-        DescriptionBlock *dependent = m_makefile->target(dependentName);
+        DescriptionBlock *dependent = m_makefile->targetOfDependent(dependentName);
         if (dependent) {
             preselectInferenceRules(dependent);
         } else {
-- 
2.43.0


From ee1d091a815cbde9151e93f2cc3355598fc8b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:20 +0000
Subject: [PATCH 49/73] fix: do not crash if commands with the ! modifier have
 no dependents

---
 src/jomlib/commandexecutor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 2fa1ab3..e478502 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -73,12 +73,13 @@ void CommandExecutor::start(DescriptionBlock* target)
     m_pTarget = target;
     m_active = true;
 
+    target->expandFileNameMacros();
     if (target->m_commands.isEmpty()) {
+        // This includes targets without dependents that only have commands with the ! modifier.
         finishExecution(false);
         return;
     }
 
-    target->expandFileNameMacros();
     cleanupTempFiles();
     createTempFiles();
 
-- 
2.43.0


From 08b46c2804442fa20c037f72c6f0dff3e175c9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:55 +0000
Subject: [PATCH 50/73] fix: create inline files right before their command
 runs, remove them with the target

---
 src/jomlib/commandexecutor.cpp | 108 +++++++++++++++++----------------
 src/jomlib/commandexecutor.h   |   3 +-
 2 files changed, 57 insertions(+), 54 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index e478502..227ad92 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -80,9 +80,6 @@ void CommandExecutor::start(DescriptionBlock* target)
         return;
     }
 
-    cleanupTempFiles();
-    createTempFiles();
-
     m_ignoreProcessErrors = false;
     m_currentCommandIdx = 0;
     m_nextWorkingDir.clear();
@@ -96,9 +93,8 @@ void CommandExecutor::onProcessError(Process::ProcessError error)
     if (m_ignoreProcessErrors)
         return;
     if (error == Process::FailedToStart) {
-        const Command &currentCommand = m_pTarget->m_commands.at(m_currentCommandIdx);
         writeToStandardError("jom: Can't start command: "
-                             + currentCommand.m_commandLine.toLocal8Bit() + "\n");
+                             + m_currentCommandLine.toLocal8Bit() + "\n");
     }
     onProcessFinished(2, (error == Process::Crashed) ? Process::CrashExit : Process::NormalExit);
 }
@@ -133,6 +129,7 @@ void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitSt
 
 void CommandExecutor::finishExecution(bool commandFailed)
 {
+    cleanupTempFiles();
     m_active = false;
     emit finished(this, commandFailed);
 }
@@ -164,6 +161,11 @@ void CommandExecutor::executeCurrentCommandLine()
 {
     const Command& cmd = m_pTarget->m_commands.at(m_currentCommandIdx);
     QString commandLine = cmd.m_commandLine;
+    if (!createTempFiles(cmd, commandLine)) {
+        finishExecution(true);
+        return;
+    }
+    m_currentCommandLine = commandLine;
 
     if (m_pTarget->makefile()->options()->dryRun
         || (!cmd.m_silent && !m_pTarget->makefile()->options()->suppressExecutedCommandsDisplay))
@@ -260,61 +262,61 @@ void CommandExecutor::executeCurrentCommandLine()
     }
 }
 
-void CommandExecutor::createTempFiles()
+/**
+ * Creates the inline files of the command and puts their names into the command line.
+ * Returns false if a file cannot be created.
+ */
+bool CommandExecutor::createTempFiles(const Command &cmd, QString &commandLine)
 {
-    QList<Command>::iterator it = m_pTarget->m_commands.begin();
-    QList<Command>::iterator itEnd = m_pTarget->m_commands.end();
-    for (; it != itEnd; ++it) {
-        Command& cmd = *it;
-        foreach (InlineFile* inlineFile, cmd.m_inlineFiles) {
-            QString fileName;
-            if (inlineFile->m_filename.isEmpty()) {
-                do {
-                    QString simplifiedTargetName = m_pTarget->targetName();
-                    simplifiedTargetName = fileNameFromFilePath(simplifiedTargetName);
-                    fileName = m_tempPath + simplifiedTargetName + QLatin1Char('.')
-                               + QString::number(GetCurrentProcessId()) + QLatin1Char('.')
-                               + QString::number(GetTickCount() - m_startUpTickCount)
-                               + QLatin1Literal(".jom");
-                } while (QFile::exists(fileName));
-            } else
-                fileName = inlineFile->m_filename;
-
-            TempFile tempFile;
-            tempFile.keep = inlineFile->m_keep;
-            tempFile.file = new QFile(fileName);
-            if (!tempFile.file->open(QFile::WriteOnly)) {
-                delete tempFile.file;
-                QString msg = QLatin1String("cannot open %1 for write");
-                throw Exception(msg.arg(fileName));
-            }
+    foreach (InlineFile* inlineFile, cmd.m_inlineFiles) {
+        QString fileName;
+        if (inlineFile->m_filename.isEmpty()) {
+            do {
+                QString simplifiedTargetName = m_pTarget->targetName();
+                simplifiedTargetName = fileNameFromFilePath(simplifiedTargetName);
+                fileName = m_tempPath + simplifiedTargetName + QLatin1Char('.')
+                           + QString::number(GetCurrentProcessId()) + QLatin1Char('.')
+                           + QString::number(GetTickCount() - m_startUpTickCount)
+                           + QLatin1Literal(".jom");
+            } while (QFile::exists(fileName));
+        } else
+            fileName = inlineFile->m_filename;
+
+        TempFile tempFile;
+        tempFile.keep = inlineFile->m_keep;
+        tempFile.file = new QFile(fileName);
+        if (!tempFile.file->open(QFile::WriteOnly)) {
+            delete tempFile.file;
+            writeToStandardError("jom: cannot open " + fileName.toLocal8Bit() + " for write\n");
+            return false;
+        }
 
-            const QByteArray content = inlineFile->m_content.toLocal8Bit();
-            if (m_pTarget->makefile()->options()->dumpInlineFiles) {
-                writeToStandardOutput("---");
-                writeToStandardOutput(fileName.toLocal8Bit());
-                writeToStandardOutput("---\n");
-                writeToStandardOutput(content);
-                writeToStandardOutput("---end of inline file---\n");
-            }
+        const QByteArray content = inlineFile->m_content.toLocal8Bit();
+        if (m_pTarget->makefile()->options()->dumpInlineFiles) {
+            writeToStandardOutput("---");
+            writeToStandardOutput(fileName.toLocal8Bit());
+            writeToStandardOutput("---\n");
+            writeToStandardOutput(content);
+            writeToStandardOutput("---end of inline file---\n");
+        }
 
-            // TODO: do something with inlineFile->m_unicode;
-            tempFile.file->write(content);
-            tempFile.file->close();
+        // TODO: do something with inlineFile->m_unicode;
+        tempFile.file->write(content);
+        tempFile.file->close();
 
-            QString replacement = QDir::toNativeSeparators(tempFile.file->fileName());
-            if (replacement.contains(QLatin1Char(' ')) || replacement.contains(QLatin1Char('\t'))) {
-                replacement.prepend(QLatin1Char('"'));
-                replacement.append(QLatin1Char('"'));
-            }
+        QString replacement = QDir::toNativeSeparators(tempFile.file->fileName());
+        if (replacement.contains(QLatin1Char(' ')) || replacement.contains(QLatin1Char('\t'))) {
+            replacement.prepend(QLatin1Char('"'));
+            replacement.append(QLatin1Char('"'));
+        }
 
-            int idx = cmd.m_commandLine.indexOf(QLatin1String("<<"));
-            if (idx >= 0)
-                cmd.m_commandLine.replace(idx, 2, replacement);
+        int idx = commandLine.indexOf(QLatin1String("<<"));
+        if (idx >= 0)
+            commandLine.replace(idx, 2, replacement);
 
-            m_tempFiles.append(tempFile);
-        }
+        m_tempFiles.append(tempFile);
     }
+    return true;
 }
 
 void CommandExecutor::cleanupTempFiles()
diff --git a/src/jomlib/commandexecutor.h b/src/jomlib/commandexecutor.h
index 04b01e1..4ec6cfe 100644
--- a/src/jomlib/commandexecutor.h
+++ b/src/jomlib/commandexecutor.h
@@ -66,7 +66,7 @@ private slots:
 private:
     void finishExecution(bool commandFailed);
     void executeCurrentCommandLine();
-    void createTempFiles();
+    bool createTempFiles(const Command &cmd, QString &commandLine);
     void writeToChannel(const QByteArray& data, FILE *channel);
     void writeToStandardOutput(const QByteArray& data);
     void writeToStandardError(const QByteArray& data);
@@ -87,6 +87,7 @@ private:
 
     QList<TempFile>     m_tempFiles;
     int                 m_currentCommandIdx;
+    QString             m_currentCommandLine;
     QString             m_nextWorkingDir;
     bool                m_ignoreProcessErrors;
     bool                m_active;
-- 
2.43.0


From a9f7965beec53c51b781ac3e38fceeaa66f8487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:55 +0000
Subject: [PATCH 51/73] fix: do not write or remove inline files in dry runs

---
 src/jomlib/commandexecutor.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index 227ad92..bc49249 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -263,11 +263,12 @@ void CommandExecutor::executeCurrentCommandLine()
 }
 
 /**
- * Creates the inline files of the command and puts their names into the command line.
+ * Creates the inline files of the command (unless this is a dry run) and puts their names into the command line.
  * Returns false if a file cannot be created.
  */
 bool CommandExecutor::createTempFiles(const Command &cmd, QString &commandLine)
 {
+    const bool dryRun = m_pTarget->makefile()->options()->dryRun;
     foreach (InlineFile* inlineFile, cmd.m_inlineFiles) {
         QString fileName;
         if (inlineFile->m_filename.isEmpty()) {
@@ -283,9 +284,9 @@ bool CommandExecutor::createTempFiles(const Command &cmd, QString &commandLine)
             fileName = inlineFile->m_filename;
 
         TempFile tempFile;
-        tempFile.keep = inlineFile->m_keep;
+        tempFile.keep = inlineFile->m_keep || dryRun;
         tempFile.file = new QFile(fileName);
-        if (!tempFile.file->open(QFile::WriteOnly)) {
+        if (!dryRun && !tempFile.file->open(QFile::WriteOnly)) {
             delete tempFile.file;
             writeToStandardError("jom: cannot open " + fileName.toLocal8Bit() + " for write\n");
             return false;
@@ -301,8 +302,10 @@ bool CommandExecutor::createTempFiles(const Command &cmd, QString &commandLine)
         }
 
         // TODO: do something with inlineFile->m_unicode;
-        tempFile.file->write(content);
-        tempFile.file->close();
+        if (!dryRun) {
+            tempFile.file->write(content);
+            tempFile.file->close();
+        }
 
         QString replacement = QDir::toNativeSeparators(tempFile.file->fileName());
         if (replacement.contains(QLatin1Char(' ')) || replacement.contains(QLatin1Char('\t'))) {
-- 
2.43.0


From e3857fd668d65d67c5817d745ce8d02a974caad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:51 +0000
Subject: [PATCH 52/73] fix: print every dependency once with /DUMPGRAPH

---
 src/jomlib/dependencygraph.cpp | 20 ++++++++++++++------
 src/jomlib/dependencygraph.h   |  4 ++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 3cbf8a4..50b18b8 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -212,15 +212,19 @@ void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
 void DependencyGraph::dump()
 {
     QString indent;
-    internalDump(m_root, indent);
+    QSet<Node *> seen;
+    internalDump(m_root, indent, seen);
 }
 
-void DependencyGraph::internalDump(Node* node, QString& indent)
+void DependencyGraph::internalDump(Node* node, QString& indent, QSet<Node *> &seen)
 {
     puts(qPrintable(QString(indent + node->target->targetName())));
+    if (seen.contains(node))
+        return; // the dependents have already been printed
+    seen << node;
     indent.append(QLatin1Char(' '));
     foreach (Node* child, node->children) {
-        internalDump(child, indent);
+        internalDump(child, indent, seen);
     }
     indent.resize(indent.length() - 1);
 }
@@ -229,18 +233,22 @@ void DependencyGraph::dotDump()
 {
     printf("digraph G {\n");
     QString parent;
-    internalDotDump(m_root, parent);
+    QSet<Node *> seen;
+    internalDotDump(m_root, parent, seen);
     printf("}\n");
 }
 
-void DependencyGraph::internalDotDump(Node* node, const QString& parent)
+void DependencyGraph::internalDotDump(Node* node, const QString& parent, QSet<Node *> &seen)
 {
     if (!parent.isNull()) {
         QByteArray line = "  \"" + parent.toLocal8Bit() + "\" -> \"" + node->target->targetName().toLocal8Bit() + "\";";
         puts(line);
     }
+    if (seen.contains(node))
+        return; // the dependents have already been printed
+    seen << node;
     foreach (Node* child, node->children) {
-        internalDotDump(child, node->target->targetName());
+        internalDotDump(child, node->target->targetName(), seen);
     }
 }
 
diff --git a/src/jomlib/dependencygraph.h b/src/jomlib/dependencygraph.h
index 1bc9f6d..38314bd 100644
--- a/src/jomlib/dependencygraph.h
+++ b/src/jomlib/dependencygraph.h
@@ -68,8 +68,8 @@ private:
     void removeLeaf(Node* node);
     void internalBuild(Node *node, QSet<Node *> &seen);
     void addEdge(Node* parent, Node* child);
-    void internalDump(Node* node, QString& indent);
-    void internalDotDump(Node* node, const QString& parent);
+    void internalDump(Node* node, QString& indent, QSet<Node *> &seen);
+    void internalDotDump(Node* node, const QString& parent, QSet<Node *> &seen);
     void displayNodeBuildInfo(Node* node, bool isUpToDate);
     static void markParentsRecursivlyUnbuildable(Node *node);
 
-- 
2.43.0


From 8c5f7207891ebbf74e5747de4f3d4b47090ceabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:03 +0000
Subject: [PATCH 53/73] fix: treat targets as updated after their commands in
 dry runs

---
 src/jomlib/dependencygraph.cpp |  3 +++
 src/jomlib/makefile.cpp        |  6 +++++-
 src/jomlib/makefile.h          | 11 +++++++++++
 src/jomlib/targetexecutor.cpp  |  5 +++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 50b18b8..07b1890 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -104,6 +104,9 @@ void DependencyGraph::markParentsRecursivlyUnbuildable(Node *node)
 
 bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
 {
+    if (target->m_bAssumedMade)
+        return true;
+
     FastFileInfo fi(target->targetName());
     if (fi.exists()) {
         target->m_bFileExists = true;
diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index d268ff4..619a2cf 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -113,6 +113,7 @@ void Command::evaluateModifiers()
 
 DescriptionBlock::DescriptionBlock(Makefile* mkfile)
 :   m_bFileExists(false),
+    m_bAssumedMade(false),
     m_bVisitedByCycleCheck(false),
     m_bNoCyclesRootedHere(false),
     m_bInferenceRulesPreselected(false),
@@ -518,7 +519,9 @@ void Makefile::filterRulesByDependent(QVector<InferenceRule*>& rules, const QStr
         QString dependentName = rule->m_fromSearchPath + QDir::separator() +
                                 baseName + rule->m_fromExtension;
 
-        DescriptionBlock* depTarget = m_targets.value(dependentName);
+        DescriptionBlock* depTarget = m_options->dryRun
+                ? target(rule->inferredDependent(targetName))   // may have been made, but not for real
+                : 0;
         if ((depTarget && depTarget->m_bFileExists) || QFile::exists(dependentName)) {
             ++it;
             continue;
@@ -602,6 +605,7 @@ void Makefile::invalidateTimeStamps()
         DescriptionBlock* target = it.value();
         target->m_timeStamp = FileTime();
         target->m_bFileExists = false;
+        target->m_bAssumedMade = false;
     }
     FastFileInfo::clearCache();
 }
diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index ff0d457..7fd0f12 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -99,9 +99,20 @@ public:
      */
     Makefile* makefile() const { return m_pMakefile; }
 
+    /**
+     * Treats the target as if its commands had created it just now.
+     */
+    void assumeMade()
+    {
+        m_bAssumedMade = true;
+        m_bFileExists = true;
+        m_timeStamp = FileTime::currentTime();
+    }
+
     QStringList m_dependents;
     FileTime m_timeStamp;
     bool m_bFileExists;
+    bool m_bAssumedMade;                        // by the commands of a dry run
     bool m_bVisitedByCycleCheck;
     bool m_bNoCyclesRootedHere;
     bool m_bInferenceRulesPreselected;
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index f8eac6b..d8e0fad 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -258,6 +258,11 @@ void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFail
     FastFileInfo::clearCacheForFile(executor->target()->targetName());
     foreach (const DescriptionBlock *batchTarget, executor->target()->m_batchTargets)
         FastFileInfo::clearCacheForFile(batchTarget->targetName());
+    if (m_makefile->options()->dryRun) {
+        executor->target()->assumeMade();
+        foreach (DescriptionBlock *batchTarget, executor->target()->m_batchTargets)
+            batchTarget->assumeMade();
+    }
     executor->target()->m_batchTargets.clear();
     m_depgraph->removeLeaf(executor->target());
     if (m_jobAcquisitionCount > 0) {
-- 
2.43.0


From df68147083e7553519d32dff46ab7e596ea6af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:54 +0000
Subject: [PATCH 54/73] fix: expand macros in the names of inline files of
 inference rules

---
 src/jomlib/makefile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 619a2cf..2d3dd08 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -664,6 +664,8 @@ void Makefile::applyInferenceRule(DescriptionBlock* target, const InferenceRule*
     for (; it != itEnd; ++it) {
         Command& command = *it;
         foreach (InlineFile* inlineFile, command.m_inlineFiles) {
+            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
+            inlineFile->m_filename.replace(fileNameMacroString, inferredDependent);
             inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
             inlineFile->m_content.replace(fileNameMacroString, inferredDependent);
         }
@@ -698,6 +700,8 @@ void Makefile::applyInferenceRule(QList<DescriptionBlock*> &batch, const Inferen
     for (; it != itEnd; ++it) {
         Command& command = *it;
         foreach (InlineFile* inlineFile, command.m_inlineFiles) {
+            inlineFile->m_filename = m_macroTable->expandMacros(inlineFile->m_filename);
+            inlineFile->m_filename.replace(fileNameMacroString, inferredDependents);
             inlineFile->m_content = m_macroTable->expandMacros(inlineFile->m_content);
             inlineFile->m_content.replace(fileNameMacroString, inferredDependents);
         }
-- 
2.43.0


From 32d503eb93799891532a957024eabf855b6f815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:31 +0000
Subject: [PATCH 55/73] fix: pass the last job count to sub-makes

---
 src/jomlib/options.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jomlib/options.cpp b/src/jomlib/options.cpp
index cd69b50..a88f3fa 100644
--- a/src/jomlib/options.cpp
+++ b/src/jomlib/options.cpp
@@ -304,8 +304,14 @@ bool Options::handleCommandLineOption(const QStringList &originalArguments, QStr
                         return false;
                     }
                     g_options.isMaxNumberOfJobsSet = true;
-                    if (makeflags.at(makeflags.count() - 1).toUpper() == QLatin1Char('J'))
-                        makeflags += nJobsStr;
+                    // Only the last job count is effective. Don't pass any other one to sub-makes.
+                    int idx;
+                    while ((idx = makeflags.indexOf(QLatin1Char('J'), 0, Qt::CaseInsensitive)) != -1) {
+                        do {
+                            makeflags.remove(idx, 1);
+                        } while (idx < makeflags.count() && makeflags.at(idx).isDigit());
+                    }
+                    makeflags += ch + nJobsStr;
                     break;
                 }
             case 'K':
-- 
2.43.0


From 716741a7d97ddf45d25f22106fdb7d7af85b7546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:25 +0000
Subject: [PATCH 56/73] fix: expand wildcards in the current directory

---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index c704f52..3d68e26 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -434,7 +434,7 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
 
     const QStringList targets = splitTargetNames(target);
     QStringList dependents = splitTargetNames(value);
-    dependents = expandWildcards(m_makefile->dirPath(), dependents);
+    dependents = expandWildcards(QDir::currentPath(), dependents);
 
     foreach (const QString& t, targets) {
         if (t == QStringLiteral(".NOTPARALLEL")) {
-- 
2.43.0


From f28f6599e5e58e386992a434a2e2c8eb9e08c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:25 +0000
Subject: [PATCH 57/73] fix: wildcards don't match . and ..

---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 3d68e26..34118db 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -383,7 +383,7 @@ static QStringList expandWildcards(const QString &dirPath, const QStringList &ls
                 str.remove(0, idx + 1);
             }
 
-            QDirIterator dit(path, QStringList(str));
+            QDirIterator dit(path, QStringList(str), QDir::AllEntries | QDir::NoDotAndDotDot);
             while (dit.hasNext()) {
                 QString filePath = dit.next();
                 if (filePath.startsWith(dirPath, Qt::CaseInsensitive)) {
-- 
2.43.0


From d8bb174a5697fd34f1f755f80723b461e59cfe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:25 +0000
Subject: [PATCH 58/73] fix: only * and ? are wildcards

---
 src/jomlib/parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 34118db..2c40778 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -383,6 +383,9 @@ static QStringList expandWildcards(const QString &dirPath, const QStringList &ls
                 str.remove(0, idx + 1);
             }
 
+            // Only * and ? are wildcards in makefiles.
+            str.replace(QLatin1Char('['), QLatin1String("[[]"));
+
             QDirIterator dit(path, QStringList(str), QDir::AllEntries | QDir::NoDotAndDotDot);
             while (dit.hasNext()) {
                 QString filePath = dit.next();
-- 
2.43.0


From 6485197820d957c597d97ba25ddb5d4ac8e1aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:26 +0000
Subject: [PATCH 59/73] fix: match directory prefix of wildcards as a whole

---
 src/jomlib/parser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 2c40778..d126cd1 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -370,6 +370,9 @@ static bool containsWildcard(const QString &str)
 static QStringList expandWildcards(const QString &dirPath, const QStringList &lst)
 {
     QStringList result;
+    QString dirPrefix = dirPath;
+    if (!dirPrefix.endsWith(QLatin1Char('/')))
+        dirPrefix += QLatin1Char('/');
     foreach (QString str, lst) {
         if (containsWildcard(str)) {
             QString path = dirPath;
@@ -389,11 +392,8 @@ static QStringList expandWildcards(const QString &dirPath, const QStringList &ls
             QDirIterator dit(path, QStringList(str), QDir::AllEntries | QDir::NoDotAndDotDot);
             while (dit.hasNext()) {
                 QString filePath = dit.next();
-                if (filePath.startsWith(dirPath, Qt::CaseInsensitive)) {
-                    filePath.remove(0, dirPath.length());
-                    if (filePath.startsWith(QLatin1Char('/')))
-                       filePath.remove(0, 1);
-                }
+                if (filePath.startsWith(dirPrefix, Qt::CaseInsensitive))
+                    filePath.remove(0, dirPrefix.length());
                 result.append(QDir::toNativeSeparators(filePath));
             }
         } else {
-- 
2.43.0


From 3d67828107d64a2d25cdb6a4ae339d0f06683b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:17 +0000
Subject: [PATCH 60/73] fix: /K builds what doesn't depend on the missing file

---
 src/jomlib/dependencygraph.cpp | 23 ++++++++++++++++++-----
 src/jomlib/dependencygraph.h   |  4 ++--
 src/jomlib/targetexecutor.cpp  |  6 ++++--
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/jomlib/dependencygraph.cpp b/src/jomlib/dependencygraph.cpp
index 07b1890..87c20c0 100644
--- a/src/jomlib/dependencygraph.cpp
+++ b/src/jomlib/dependencygraph.cpp
@@ -65,12 +65,21 @@ void DependencyGraph::deleteNode(Node* node)
     delete node;
 }
 
-void DependencyGraph::build(DescriptionBlock* target)
+/**
+ * Returns false if the target or some of its dependents cannot be built, because something they
+ * depend on does not exist.
+ */
+bool DependencyGraph::build(DescriptionBlock* target)
 {
     m_bDirtyLeaves = true;
     m_root = createNode(target, 0);
     QSet<Node *> seen;
-    internalBuild(m_root, seen);
+    QList<Node *> unbuildable;
+    internalBuild(m_root, seen, unbuildable);
+    foreach (Node *node, unbuildable) {
+        node->state = Node::Unbuildable;
+        markParentsRecursivlyUnbuildable(node);
+    }
     //dump();
     //qDebug() << "\n\n-------------------------------------------------\n";
 
@@ -80,6 +89,8 @@ void DependencyGraph::build(DescriptionBlock* target)
     //} while(target);
 
     //qDebug() << "\nFINISHED";
+
+    return unbuildable.isEmpty();
 }
 
 void DependencyGraph::markParentsRecursivlyUnbuildable(DescriptionBlock *target)
@@ -178,7 +189,7 @@ bool DependencyGraph::isTargetUpToDate(DescriptionBlock* target)
     return isUpToDate;
 }
 
-void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
+void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen, QList<Node *> &unbuildable)
 {
     const int c = seen.count();
     seen << node;
@@ -194,7 +205,9 @@ void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
                 msg += dependentName.toLocal8Bit();
                 msg += "' does not exist.\n";
                 fputs(msg.constData(), stderr);
-                exit(2);
+                if (!makefile->options()->buildUnrelatedTargetsOnError)
+                    exit(2);
+                unbuildable.append(node);
             }
             continue;
         }
@@ -205,7 +218,7 @@ void DependencyGraph::internalBuild(Node *node, QSet<Node *> &seen)
         else
             child = createNode(dependent, node);
 
-        internalBuild(child, seen);
+        internalBuild(child, seen, unbuildable);
     }
 
     if (node->children.isEmpty())
diff --git a/src/jomlib/dependencygraph.h b/src/jomlib/dependencygraph.h
index 38314bd..b9fba02 100644
--- a/src/jomlib/dependencygraph.h
+++ b/src/jomlib/dependencygraph.h
@@ -39,7 +39,7 @@ public:
     DependencyGraph();
     ~DependencyGraph();
 
-    void build(DescriptionBlock* target);
+    bool build(DescriptionBlock* target);
     void markParentsRecursivlyUnbuildable(DescriptionBlock *target);
     bool isUnbuildable(DescriptionBlock *target) const;
     bool isEmpty() const;
@@ -66,7 +66,7 @@ private:
     void linkBatchTargets();
     void deleteNode(Node* node);
     void removeLeaf(Node* node);
-    void internalBuild(Node *node, QSet<Node *> &seen);
+    void internalBuild(Node *node, QSet<Node *> &seen, QList<Node *> &unbuildable);
     void addEdge(Node* parent, Node* child);
     void internalDump(Node* node, QString& indent, QSet<Node *> &seen);
     void internalDotDump(Node* node, const QString& parent, QSet<Node *> &seen);
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index d8e0fad..3f432b8 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -103,7 +103,8 @@ void TargetExecutor::apply(Makefile* mkfile, const QStringList& targets)
         }
     }
 
-    m_depgraph->build(descblock);
+    if (!m_depgraph->build(descblock))
+        m_allCommandsSuccessfullyExecuted = false;
     if (m_makefile->options()->dumpDependencyGraph) {
         if (m_makefile->options()->dumpDependencyGraphDot)
             m_depgraph->dotDump();
@@ -143,7 +144,8 @@ void TargetExecutor::startProcesses()
                 } else {
                     m_depgraph->clear();
                     m_makefile->invalidateTimeStamps();
-                    m_depgraph->build(m_pendingTargets.takeFirst());
+                    if (!m_depgraph->build(m_pendingTargets.takeFirst()))
+                        m_allCommandsSuccessfullyExecuted = false;
                     QMetaObject::invokeMethod(this, "startProcesses", Qt::QueuedConnection);
                 }
             }
-- 
2.43.0


From fd0ea95a43a9ac12de39ca0b4705ca845106aad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:13 +0000
Subject: [PATCH 61/73] fix: report dependents that no inference rule can make

---
 src/jomlib/makefile.h         |  6 ++++++
 src/jomlib/targetexecutor.cpp | 19 +++++++++++++++++++
 src/jomlib/targetexecutor.h   |  1 +
 3 files changed, 26 insertions(+)

diff --git a/src/jomlib/makefile.h b/src/jomlib/makefile.h
index 7fd0f12..71020f5 100644
--- a/src/jomlib/makefile.h
+++ b/src/jomlib/makefile.h
@@ -109,6 +109,12 @@ public:
         m_timeStamp = FileTime::currentTime();
     }
 
+    /**
+     * Returns true for targets that don't appear on the left side of any description block. They
+     * have been created, because there are inference rules that might be able to build them.
+     */
+    bool isImplicit() const { return m_canAddCommands == ACSUnknown; }
+
     QStringList m_dependents;
     FileTime m_timeStamp;
     bool m_bFileExists;
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 3f432b8..3779fce 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -230,6 +230,12 @@ void TargetExecutor::findNextTarget()
         m_nextTarget = m_depgraph->findAvailableTarget(m_makefile->options()->buildAllTargets);
         if (m_nextTarget) {
             if (m_nextTarget->m_commands.isEmpty()) {
+                if (m_nextTarget->isImplicit() && !m_depgraph->isUnbuildable(m_nextTarget)
+                    && !m_makefile->options()->dryRun
+                    && !FastFileInfo(m_nextTarget->targetName()).exists()) {
+                    // None of the inference rules could be applied.
+                    handleMissingTarget();
+                }
                 // Short cut for targets without commands.
                 m_depgraph->removeLeaf(m_nextTarget);
                 continue;
@@ -245,6 +251,19 @@ void TargetExecutor::findNextTarget()
     }
 }
 
+void TargetExecutor::handleMissingTarget()
+{
+    const QString msg = QLatin1String("dependent '%1' does not exist.");
+    const QString targetName = m_nextTarget->targetName();
+    if (!m_makefile->options()->buildUnrelatedTargetsOnError) {
+        m_nextTarget = 0;
+        throw Exception(msg.arg(targetName));
+    }
+    fprintf(stderr, "Error: %s\n", qPrintable(msg.arg(targetName)));
+    m_allCommandsSuccessfullyExecuted = false;
+    m_depgraph->markParentsRecursivlyUnbuildable(m_nextTarget);
+}
+
 void TargetExecutor::onChildFinished(CommandExecutor* executor, bool commandFailed)
 {
     Q_CHECK_PTR(executor->target());
diff --git a/src/jomlib/targetexecutor.h b/src/jomlib/targetexecutor.h
index 2500c2e..6f1823e 100644
--- a/src/jomlib/targetexecutor.h
+++ b/src/jomlib/targetexecutor.h
@@ -65,6 +65,7 @@ private:
     void finishBuild(int exitCode);
     void abortBuild(int exitCode);
     void findNextTarget();
+    void handleMissingTarget();
 
 private:
     ProcessEnvironment m_environment;
-- 
2.43.0


From e59177847e5b40e7e9a3873a104da6120174b752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:55 +0000
Subject: [PATCH 62/73] fix: recognize commands after modifiers that are
 followed by whitespace

---
 src/jomlib/makefile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 2d3dd08..1e59f7b 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -105,6 +105,9 @@ void Command::evaluateModifiers()
         } else if (firstChar == QLatin1Char('!')) {
             m_commandLine.remove(0, 1);
             m_singleExecution = true;
+        } else if (firstChar.isSpace()) {
+            // Modifiers may be separated by and followed by whitespace.
+            m_commandLine.remove(0, 1);
         } else {
             break;
         }
-- 
2.43.0


From bf023c613a93a86501d8d3bcd817e6198a7f88e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:28 +0000
Subject: [PATCH 63/73] fix: distribute changes of the environment with one
 connection per executor

---
 src/jomlib/targetexecutor.cpp | 11 +++++------
 src/jomlib/targetexecutor.h   |  1 +
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 3779fce..f176841 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -50,12 +50,11 @@ TargetExecutor::TargetExecutor(const ProcessEnvironment &environment)
         connect(executor, SIGNAL(finished(CommandExecutor*, bool)),
                 this, SLOT(onChildFinished(CommandExecutor*, bool)));
 
-        foreach (CommandExecutor *other, m_processes) {
-            connect(executor, SIGNAL(environmentChanged(const ProcessEnvironment &)),
-                    other, SLOT(setEnvironment(const ProcessEnvironment &)));
-            connect(other, SIGNAL(environmentChanged(const ProcessEnvironment &)),
-                    executor, SLOT(setEnvironment(const ProcessEnvironment &)));
-        }
+        // A change of the environment is distributed to all executors.
+        connect(executor, SIGNAL(environmentChanged(const ProcessEnvironment &)),
+                this, SIGNAL(environmentChanged(const ProcessEnvironment &)));
+        connect(this, SIGNAL(environmentChanged(const ProcessEnvironment &)),
+                executor, SLOT(setEnvironment(const ProcessEnvironment &)));
         m_processes.append(executor);
     }
     m_availableProcesses = m_processes;
diff --git a/src/jomlib/targetexecutor.h b/src/jomlib/targetexecutor.h
index 6f1823e..b83d351 100644
--- a/src/jomlib/targetexecutor.h
+++ b/src/jomlib/targetexecutor.h
@@ -52,6 +52,7 @@ public:
 
 signals:
     void finished(int exitCode);
+    void environmentChanged(const ProcessEnvironment &environment);
 
 private slots:
     void startProcesses();
-- 
2.43.0


From 99c6f6ff36ac71c4a75bc8943bebe0ac8020609b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:44 +0000
Subject: [PATCH 64/73] fix: don't read behind the end of unterminated file
 name macros

---
 src/jomlib/makefile.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 1e59f7b..3aef6d7 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -188,6 +188,12 @@ static int extensionPos(const QString &filePath)
             && k > filePath.lastIndexOf(QLatin1Char('/')) ? k : -1;
 }
 
+// Returns a null character for positions behind the end of the string.
+static QChar charAt(const QString &str, int idx)
+{
+    return idx < str.length() ? str.at(idx) : QChar();
+}
+
 static QString joinFileNameMacroValues(const QStringList &macroValues)
 {
     QString result;
@@ -218,7 +224,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
     int lastEscapedIdx = -1;
     forever {
         idx = str.indexOf(MacroTable::fileNameMacroMagicEscape, idx);
-        if (idx == -1 || ++idx >= str.count() + 1)
+        if (idx == -1 || ++idx >= str.count())
             break;
 
         if (lastEscapedIdx == idx - 1)
@@ -239,7 +245,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
             bool substitutionStateKnown = false;
             QStringList macroValues = getFileNameMacroValues(str.midRef(idx+1), replacementLength,
                                                              depIdx, dependentsForbidden);
-            ch = str.at(idx + replacementLength + 1).toLatin1();
+            ch = charAt(str, idx + replacementLength + 1).toLatin1();
             switch (ch)
             {
             case 'D':
@@ -287,7 +293,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
             }
 
             // We've seen D, B, F or R and don't know yet whether we should substitute something.
-            if (!substitutionStateKnown && str.at(idx + replacementLength + 2) == QLatin1Char(':'))
+            if (!substitutionStateKnown && charAt(str, idx + replacementLength + 2) == QLatin1Char(':'))
                 substitutionIdx = idx + replacementLength + 3;
 
             if (substitutionIdx > 0) {
@@ -325,6 +331,9 @@ QStringList DescriptionBlock::getFileNameMacroValues(const QStringRef& str, int&
             dependentCandidates << m_dependents.at(depIdx);
     }
 
+    if (str.isEmpty())
+        return results;
+
     switch (str.at(0).toLatin1()) {
         case '@':
             replacementLength = 1;
-- 
2.43.0


From ec1529f5e7df32cb3ad5960f4ecee2a36a326a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:20 +0000
Subject: [PATCH 65/73] fix: targets of a batch that don't appear on disk
 aren't missing

---
 src/jomlib/targetexecutor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index f176841..6e86166 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -229,7 +229,8 @@ void TargetExecutor::findNextTarget()
         m_nextTarget = m_depgraph->findAvailableTarget(m_makefile->options()->buildAllTargets);
         if (m_nextTarget) {
             if (m_nextTarget->m_commands.isEmpty()) {
-                if (m_nextTarget->isImplicit() && !m_depgraph->isUnbuildable(m_nextTarget)
+                if (m_nextTarget->isImplicit() && !m_nextTarget->m_inferenceRules.isEmpty()
+                    && !m_depgraph->isUnbuildable(m_nextTarget)
                     && !m_makefile->options()->dryRun
                     && !FastFileInfo(m_nextTarget->targetName()).exists()) {
                     // None of the inference rules could be applied.
-- 
2.43.0


From 218dfa5d29eccc238f685d2319a0bf22bd5ac45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:10 +0000
Subject: [PATCH 66/73] fix: no commands and temporary files after Ctrl-C

---
 src/app/main.cpp               | 22 ++++++++++++++++++++--
 src/jomlib/commandexecutor.cpp | 10 ++++++++++
 src/jomlib/commandexecutor.h   |  1 +
 src/jomlib/helperfunctions.cpp |  7 +++++++
 src/jomlib/helperfunctions.h   |  7 +++++++
 src/jomlib/jomprocess.cpp      |  2 ++
 src/jomlib/targetexecutor.cpp  | 13 ++++++-------
 7 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index c310836..e3359a7 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -83,9 +83,25 @@ static void showUsage()
 
 static TargetExecutor* g_pTargetExecutor = 0;
 
+/**
+ * Keeps the console control handler from using the target executor while it's being destroyed.
+ */
+struct TargetExecutorGuard
+{
+    ~TargetExecutorGuard()
+    {
+        QMutexLocker locker(terminationLock());
+        g_pTargetExecutor = 0;
+    }
+};
+
 BOOL WINAPI ConsoleCtrlHandlerRoutine(DWORD dwCtrlType)
 {
     Q_UNUSED(dwCtrlType);
+
+    // No command is started from now on.
+    terminationLock()->lock();
+
     fprintf(stderr, "jom terminated by user (pid=%lld)\n", QCoreApplication::applicationPid());
     fflush(stderr);
 
@@ -93,7 +109,9 @@ BOOL WINAPI ConsoleCtrlHandlerRoutine(DWORD dwCtrlType)
     if (g_pTargetExecutor)
         g_pTargetExecutor->removeTempFiles();
 
-    exit(2);
+    // Don't call exit(), because the main thread still uses the static objects.
+    fflush(0);
+    ExitProcess(2);
     return TRUE;
 }
 
@@ -213,11 +231,11 @@ int main(int argc, char* argv[])
         TargetExecutor executor(processEnvironment);
         QObject::connect(&executor, SIGNAL(finished(int)), &app, SLOT(exit(int)));
         g_pTargetExecutor = &executor;
+        TargetExecutorGuard executorGuard;
         executor.apply(mkfile.data(), mf.activeTargets());
 
         QMetaObject::invokeMethod(&executor, "startProcesses", Qt::QueuedConnection);
         result = app.exec();
-        g_pTargetExecutor = 0;
         if (options->printWorkingDir) {
             printf("jom: Leaving directory '%s'\n",
                    qPrintable(QDir::toNativeSeparators(QDir::currentPath())));
diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index bc49249..e0d114a 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -269,6 +269,7 @@ void CommandExecutor::executeCurrentCommandLine()
 bool CommandExecutor::createTempFiles(const Command &cmd, QString &commandLine)
 {
     const bool dryRun = m_pTarget->makefile()->options()->dryRun;
+    QMutexLocker locker(terminationLock());
     foreach (InlineFile* inlineFile, cmd.m_inlineFiles) {
         QString fileName;
         if (inlineFile->m_filename.isEmpty()) {
@@ -323,6 +324,15 @@ bool CommandExecutor::createTempFiles(const Command &cmd, QString &commandLine)
 }
 
 void CommandExecutor::cleanupTempFiles()
+{
+    QMutexLocker locker(terminationLock());
+    removeTempFiles();
+}
+
+/**
+ * The caller must have locked the termination lock.
+ */
+void CommandExecutor::removeTempFiles()
 {
     while (!m_tempFiles.isEmpty()) {
         const TempFile& tempfile = m_tempFiles.takeLast();
diff --git a/src/jomlib/commandexecutor.h b/src/jomlib/commandexecutor.h
index 4ec6cfe..eff9c07 100644
--- a/src/jomlib/commandexecutor.h
+++ b/src/jomlib/commandexecutor.h
@@ -49,6 +49,7 @@ public:
     bool isActive() const { return m_active; }
     void waitForFinished();
     void cleanupTempFiles();
+    void removeTempFiles();
     void setBufferedOutput(bool b) { m_process.setBufferedOutput(b); }
     bool isBufferedOutputSet() const { return m_process.isBufferedOutputSet(); }
 
diff --git a/src/jomlib/helperfunctions.cpp b/src/jomlib/helperfunctions.cpp
index 356617f..f585231 100644
--- a/src/jomlib/helperfunctions.cpp
+++ b/src/jomlib/helperfunctions.cpp
@@ -85,3 +85,10 @@ bool qSetEnvironmentVariable(const QString &name, const QString &value)
             reinterpret_cast<const wchar_t *>(name.utf16()),
             reinterpret_cast<const wchar_t *>(value.utf16()));
 }
+
+QMutex *terminationLock()
+{
+    // Never destroyed, because exit() might be called while other threads are waiting for it.
+    static QMutex *mutex = new QMutex;
+    return mutex;
+}
diff --git a/src/jomlib/helperfunctions.h b/src/jomlib/helperfunctions.h
index 443e42c..e4c9076 100644
--- a/src/jomlib/helperfunctions.h
+++ b/src/jomlib/helperfunctions.h
@@ -26,6 +26,7 @@
 #ifndef HELPERFUNCTIONS_H
 #define HELPERFUNCTIONS_H
 
+#include <QtCore/QMutex>
 #include <QtCore/QString>
 #include <QtCore/QStringList>
 
@@ -78,4 +79,10 @@ QString trimLeft(const QString &s);
 QString qGetEnvironmentVariable(const wchar_t *lpName);
 bool qSetEnvironmentVariable(const QString &name, const QString &value);
 
+/**
+ * Is locked and never unlocked again, when the user terminates jom. From then on no process is
+ * started and no temporary file is created.
+ */
+QMutex *terminationLock();
+
 #endif // HELPERFUNCTIONS_H
diff --git a/src/jomlib/jomprocess.cpp b/src/jomlib/jomprocess.cpp
index 7bc0d39..e1311f5 100644
--- a/src/jomlib/jomprocess.cpp
+++ b/src/jomlib/jomprocess.cpp
@@ -388,9 +388,11 @@ void Process::start(const QString &commandLine)
         strWorkingDir = (const wchar_t*)m_workingDirectory.utf16();
     }
     void *envBlock = (m_envBlock.isEmpty() ? 0 : m_envBlock.data());
+    terminationLock()->lock();
     BOOL bResult = CreateProcess(NULL, strCommandLine,
                                  0, 0, TRUE, dwCreationFlags, envBlock,
                                  strWorkingDir, &si, &pi);
+    terminationLock()->unlock();
     free(strCommandLine);
     strCommandLine = 0;
     if (!bResult) {
diff --git a/src/jomlib/targetexecutor.cpp b/src/jomlib/targetexecutor.cpp
index 6e86166..2417c4b 100644
--- a/src/jomlib/targetexecutor.cpp
+++ b/src/jomlib/targetexecutor.cpp
@@ -317,15 +317,14 @@ int TargetExecutor::numberOfRunningProcesses() const
     return m_processes.count() - m_availableProcesses.count();
 }
 
+/**
+ * Is called in the thread of the console control handler, when the user terminates jom.
+ * The caller must have locked the termination lock.
+ */
 void TargetExecutor::removeTempFiles()
 {
-    foreach (QObject* child, children()) {
-        CommandExecutor* cmdex = qobject_cast<CommandExecutor*>(child);
-        if (!cmdex)
-            continue;
-
-        cmdex->cleanupTempFiles();
-    }
+    foreach (CommandExecutor *cmdex, m_processes)
+        cmdex->removeTempFiles();
 }
 
 } //namespace NMakeFile
-- 
2.43.0


From 85a86a4e218120e44325b9bce729eb5d57a73da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:36 +0000
Subject: [PATCH 67/73] fix: the last of several inference rules wins if their
 spelling differs

---
 src/jomlib/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index d126cd1..9f2c8f4 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -131,7 +131,7 @@ void Parser::apply(Preprocessor* pp,
     // build rule suffix cache
     for (int i = m_makefile->inferenceRules().count(); --i >= 0;) {
         InferenceRule *ir = m_makefile->inferenceRules().at(i);
-        m_ruleIdxByToExtension[ir->m_toExtension].prepend(ir);
+        m_ruleIdxByToExtension[ir->m_toExtension.toLower()].prepend(ir);
     }
 
     // translate sync points from .SYNC targets into real dependencies
-- 
2.43.0


From 27c51e197a5b8fcbe72508d4b98fd74fb7760688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:54 +0000
Subject: [PATCH 68/73] fix: don't put the internal mark of file name macros
 into commands

---
 src/jomlib/makefile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jomlib/makefile.cpp b/src/jomlib/makefile.cpp
index 3aef6d7..383d488 100644
--- a/src/jomlib/makefile.cpp
+++ b/src/jomlib/makefile.cpp
@@ -234,6 +234,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
             char chBefore = str.at(idx - 2).toLatin1();
             if (chBefore == '^') {
                 lastEscapedIdx = idx - 1;
+                str[idx - 1] = QLatin1Char('$');   // not a file name macro
                 continue;
             }
         }
@@ -289,6 +290,7 @@ void DescriptionBlock::expandFileNameMacros(QString& str, int depIdx, bool depen
                 break;
             default:
                 // TODO: yield error? ignore for now
+                str[idx - 1] = QLatin1Char('$');
                 continue;
             }
 
-- 
2.43.0


From 8985759b77befbaaf22bee77e6992d55a321ff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:30 +0000
Subject: [PATCH 69/73] fix: report a failed command when it fails, not after
 other targets

---
 src/jomlib/commandexecutor.cpp | 2 ++
 src/jomlib/jomprocess.h        | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/commandexecutor.cpp b/src/jomlib/commandexecutor.cpp
index e0d114a..b39aaea 100644
--- a/src/jomlib/commandexecutor.cpp
+++ b/src/jomlib/commandexecutor.cpp
@@ -130,6 +130,8 @@ void CommandExecutor::onProcessFinished(int exitCode, Process::ExitStatus exitSt
 void CommandExecutor::finishExecution(bool commandFailed)
 {
     cleanupTempFiles();
+    // Our own messages may have been added after the last process finished.
+    m_process.printBufferedOutput();
     m_active = false;
     emit finished(this, commandFailed);
 }
diff --git a/src/jomlib/jomprocess.h b/src/jomlib/jomprocess.h
index 1dac079..b71b76d 100644
--- a/src/jomlib/jomprocess.h
+++ b/src/jomlib/jomprocess.h
@@ -62,6 +62,7 @@ public:
     void start(const QString &commandLine);
     void writeToStdOutBuffer(const QByteArray &output);
     void writeToStdErrBuffer(const QByteArray &output);
+    void printBufferedOutput() {}
     ExitStatus exitStatus() const;
 
 signals:
@@ -110,6 +111,7 @@ public:
     bool isBufferedOutputSet() const { return m_bufferedOutput; }
     void writeToStdOutBuffer(const QByteArray &output);
     void writeToStdErrBuffer(const QByteArray &output);
+    void printBufferedOutput();
     void setWorkingDirectory(const QString &path);
     const QString &workingDirectory() const { return m_workingDirectory; }
     void setEnvironment(const ProcessEnvironment &environment);
@@ -127,7 +129,6 @@ public slots:
     bool waitForFinished();
 
 private:
-    void printBufferedOutput();
 
 private slots:
     void tryToRetrieveExitCode();
-- 
2.43.0


From 47651d8031fa3204eeb37654657f8b15532c9b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:00 +0000
Subject: [PATCH 70/73] fix: expand macros in the include search path

---
 src/jomlib/preprocessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jomlib/preprocessor.cpp b/src/jomlib/preprocessor.cpp
index d8ec8ea..0f558ff 100644
--- a/src/jomlib/preprocessor.cpp
+++ b/src/jomlib/preprocessor.cpp
@@ -362,7 +362,8 @@ QString Preprocessor::findIncludeFile(const QString &filePathToInclude)
 
     if (angleBrackets) {
         // Search through all directories in the INCLUDE macro.
-        const QString includeVar = m_macroTable->macroValue(QLatin1String("INCLUDE"))
+        const QString includeVar = m_macroTable->expandMacros(
+                    m_macroTable->macroValue(QLatin1String("INCLUDE")))
                 .replace(QLatin1Char('\t'), QLatin1Char(' '));
         const QStringList includeDirs = includeVar.split(QLatin1Char(';'), QString::SkipEmptyParts);
         foreach (const QString& includeDir, includeDirs) {
-- 
2.43.0


From d03ab315c8b83d6bb3af04944f674b597274c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:00 +0000
Subject: [PATCH 71/73] fix: put the closing quote behind the directory /W says
 is entered

---
 src/app/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/main.cpp b/src/app/main.cpp
index e3359a7..1e3193a 100644
--- a/src/app/main.cpp
+++ b/src/app/main.cpp
@@ -218,7 +218,7 @@ int main(int argc, char* argv[])
         QScopedPointer<JobServer> jobServerDeleter(jobServer);
 
         if (options->printWorkingDir) {
-            printf("jom: Entering directory '%s\n",
+            printf("jom: Entering directory '%s'\n",
                    qPrintable(QDir::toNativeSeparators(QDir::currentPath())));
             fflush(stdout);
         }
-- 
2.43.0


From a5d83c166ed4f311d6ecf3f9a26cbda1b46221a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:38:59 +0000
Subject: [PATCH 72/73] fix: expand file name macros before the wildcards next
 to them

---
 src/jomlib/parser.cpp | 57 +++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 9f2c8f4..2910623 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -367,38 +367,32 @@ static bool containsWildcard(const QString &str)
     return false;
 }
 
-static QStringList expandWildcards(const QString &dirPath, const QStringList &lst)
+static QStringList expandWildcards(const QString &dirPath, QString str)
 {
     QStringList result;
     QString dirPrefix = dirPath;
     if (!dirPrefix.endsWith(QLatin1Char('/')))
         dirPrefix += QLatin1Char('/');
-    foreach (QString str, lst) {
-        if (containsWildcard(str)) {
-            QString path = dirPath;
-            str = QDir::fromNativeSeparators(str);
-            int idx = str.lastIndexOf(QLatin1Char('/'));
-            if (idx != -1) {
-                if (QFileInfo(str).isRelative())
-                    path += QLatin1Char('/') + str.left(idx);
-                else
-                    path = str.left(idx);
-                str.remove(0, idx + 1);
-            }
+    QString path = dirPath;
+    str = QDir::fromNativeSeparators(str);
+    int idx = str.lastIndexOf(QLatin1Char('/'));
+    if (idx != -1) {
+        if (QFileInfo(str).isRelative())
+            path += QLatin1Char('/') + str.left(idx);
+        else
+            path = str.left(idx);
+        str.remove(0, idx + 1);
+    }
 
-            // Only * and ? are wildcards in makefiles.
-            str.replace(QLatin1Char('['), QLatin1String("[[]"));
+    // Only * and ? are wildcards in makefiles.
+    str.replace(QLatin1Char('['), QLatin1String("[[]"));
 
-            QDirIterator dit(path, QStringList(str), QDir::AllEntries | QDir::NoDotAndDotDot);
-            while (dit.hasNext()) {
-                QString filePath = dit.next();
-                if (filePath.startsWith(dirPrefix, Qt::CaseInsensitive))
-                    filePath.remove(0, dirPrefix.length());
-                result.append(QDir::toNativeSeparators(filePath));
-            }
-        } else {
-            result.append(str);
-        }
+    QDirIterator dit(path, QStringList(str), QDir::AllEntries | QDir::NoDotAndDotDot);
+    while (dit.hasNext()) {
+        QString filePath = dit.next();
+        if (filePath.startsWith(dirPrefix, Qt::CaseInsensitive))
+            filePath.remove(0, dirPrefix.length());
+        result.append(QDir::toNativeSeparators(filePath));
     }
     return result;
 }
@@ -436,8 +430,7 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
     }
 
     const QStringList targets = splitTargetNames(target);
-    QStringList dependents = splitTargetNames(value);
-    dependents = expandWildcards(QDir::currentPath(), dependents);
+    const QStringList dependents = splitTargetNames(value);
 
     foreach (const QString& t, targets) {
         if (t == QStringLiteral(".NOTPARALLEL")) {
@@ -469,6 +462,16 @@ void Parser::parseDescriptionBlock(int separatorPos, int separatorLength, int co
             throw FileException(e.message(), fileName, lineNumber);
         }
 
+        // Patterns are expanded after the file name macros they contain.
+        const QStringList expandedDependents = descblock->m_dependents.mid(firstNewDependent);
+        descblock->m_dependents = descblock->m_dependents.mid(0, firstNewDependent);
+        for (int i = 0; i < dependents.count(); ++i) {
+            if (containsWildcard(dependents.at(i)))
+                descblock->m_dependents += expandWildcards(QDir::currentPath(), expandedDependents.at(i));
+            else
+                descblock->m_dependents += expandedDependents.at(i);
+        }
+
         // handle the special .SYNC dependents
         {
             QStringList syncDeps;
-- 
2.43.0


From 20ba6165da86532ab35d164cbefdba5f85f6d0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:50 +0000
Subject: [PATCH 73/73] fix: unescape # in dependency lines without comment

---
 src/jomlib/parser.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/jomlib/parser.cpp b/src/jomlib/parser.cpp
index 2910623..bdaf032 100644
--- a/src/jomlib/parser.cpp
+++ b/src/jomlib/parser.cpp
@@ -212,18 +212,23 @@ static int removeCommentsAndFindCommandSeparator(QString& line)
         cmdSepIdx = line.indexOf(QLatin1Char(';'), cmdSepIdx + 1);
     } while (cmdSepIdx >= 0 && quotedVector[cmdSepIdx]);
 
-    if (commentIdx == cmdSepIdx)  // equality means, they are both -1
-        return -1;
-
-    if ((0 <= commentIdx && commentIdx < cmdSepIdx) || cmdSepIdx == -1) {
+    if (0 <= commentIdx && (commentIdx < cmdSepIdx || cmdSepIdx == -1)) {
         // The # indicates a comment.
         line.truncate(commentIdx);
-        for (int i=toRemove.count() - 1; i >= 0; i--)
-            line.remove(toRemove.at(i), 1);
         cmdSepIdx = -1;
     } else {
         // The # is inside the command and not a comment.
     }
+
+    // Unescape the # characters in front of the command.
+    for (int i=toRemove.count() - 1; i >= 0; i--) {
+        if (cmdSepIdx >= 0) {
+            if (toRemove.at(i) > cmdSepIdx)
+                continue;
+            --cmdSepIdx;
+        }
+        line.remove(toRemove.at(i), 1);
+    }
     return cmdSepIdx;
 }
 
-- 
2.43.0

