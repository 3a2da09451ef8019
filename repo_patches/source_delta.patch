From de46ec0fe1b02c0de1ac73661124865c0822133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 01/94] fix: keep positions of term vectors when merging
 documents one by one

TermVectorsWriter::addAllDocVectors tested the absence of positions instead of their presence, so merging
segments with deletions dropped the positions, or failed when only offsets were stored.
---
 src/core/index/TermVectorsWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/TermVectorsWriter.cpp b/src/core/index/TermVectorsWriter.cpp
index 2f553f4..93578cc 100644
--- a/src/core/index/TermVectorsWriter.cpp
+++ b/src/core/index/TermVectorsWriter.cpp
@@ -65,7 +65,7 @@ void TermVectorsWriter::addAllDocVectors(Collection<TermFreqVectorPtr> vectors)
 
             if (tpVector) {
                 // May have positions & offsets
-                storePositions = (tpVector->size() > 0 && !tpVector->getTermPositions(0));
+                storePositions = (tpVector->size() > 0 && tpVector->getTermPositions(0));
                 storeOffsets = (tpVector->size() > 0 && tpVector->getOffsets(0));
                 bits = (uint8_t)((storePositions ? TermVectorsReader::STORE_POSITIONS_WITH_TERMVECTOR : 0) +
                                  (storeOffsets ? TermVectorsReader::STORE_OFFSET_WITH_TERMVECTOR : 0));
-- 
2.43.0


From 3f5fb6424bed041664189df1fb0cd824489671e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 02/94] fix: plain term vectors answer getTermPositions and
 getOffsets with null as documented

---
 include/lucene++/SegmentTermVector.h | 4 ++++
 src/core/index/SegmentTermVector.cpp | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/lucene++/SegmentTermVector.h b/include/lucene++/SegmentTermVector.h
index d50a603..27fe733 100644
--- a/include/lucene++/SegmentTermVector.h
+++ b/include/lucene++/SegmentTermVector.h
@@ -44,6 +44,10 @@ public:
 
     /// Just like indexOf(int) but searches for a number of terms at the same time.
     virtual Collection<int32_t> indexesOf(Collection<String> termNumbers, int32_t start, int32_t length);
+
+    /// Positions and offsets are not stored in this vector, so both are null.
+    virtual Collection<int32_t> getTermPositions(int32_t index);
+    virtual Collection<TermVectorOffsetInfoPtr> getOffsets(int32_t index);
 };
 
 }
diff --git a/src/core/index/SegmentTermVector.cpp b/src/core/index/SegmentTermVector.cpp
index 959e3e8..913ae20 100644
--- a/src/core/index/SegmentTermVector.cpp
+++ b/src/core/index/SegmentTermVector.cpp
@@ -65,4 +65,12 @@ Collection<int32_t> SegmentTermVector::indexesOf(Collection<String> termNumbers,
     return res;
 }
 
+Collection<int32_t> SegmentTermVector::getTermPositions(int32_t index) {
+    return Collection<int32_t>();
+}
+
+Collection<TermVectorOffsetInfoPtr> SegmentTermVector::getOffsets(int32_t index) {
+    return Collection<TermVectorOffsetInfoPtr>();
+}
+
 }
-- 
2.43.0


From e4b5c5207d746d1d3e98c0b259ac7034e0184853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 03/94] fix: addIndexes(readers) counted the existing documents
 twice, so later updates deleted the wrong documents

---
 src/core/index/IndexWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 8674936..f19b6b4 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1878,8 +1878,8 @@ void IndexWriter::addIndexes(Collection<IndexReaderPtr> readers) {
                     segmentInfos->add(info);
                 }
 
-                // Notify DocumentsWriter that the flushed count just increased
-                docWriter->updateFlushedDocCount(docCount);
+                // Notify DocumentsWriter of the new flushed count (the merged segment includes the existing index)
+                docWriter->setFlushedDocCount(docCount);
 
                 success = true;
             } catch (LuceneException& e) {
-- 
2.43.0


From 2c232cf315e12b35063d87eba6a681277598f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 04/94] fix: a commit whose segments file could not be synced
 reported success

---
 src/core/index/SegmentInfos.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 2593152..4555eec 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -599,12 +599,18 @@ void SegmentInfos::finishCommit(const DirectoryPtr& dir) {
     try {
         dir->sync(fileName);
         success = true;
-    } catch (...) {
+    } catch (LuceneException& e) {
+        finally = e;
     }
 
     if (!success) {
-        dir->deleteFile(fileName);
+        try {
+            dir->deleteFile(fileName);
+        } catch (...) {
+            // Suppress so we keep throwing the original exception
+        }
     }
+    finally.throwException();
 
     lastGeneration = generation;
     IndexOutputPtr genOutput;
-- 
2.43.0


From 146fcac0f0117025fb84ab8b98748edbc5cbd3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 05/94] fix: write failures of SimpleFSIndexOutput went
 unnoticed

---
 src/core/store/SimpleFSDirectory.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/core/store/SimpleFSDirectory.cpp b/src/core/store/SimpleFSDirectory.cpp
index 88d3949..c2a3e7c 100644
--- a/src/core/store/SimpleFSDirectory.cpp
+++ b/src/core/store/SimpleFSDirectory.cpp
@@ -156,6 +156,9 @@ LuceneObjectPtr SimpleFSIndexInput::clone(const LuceneObjectPtr& other) {
 OutputFile::OutputFile(const String& path) {
     this->path = path;
     file = newInstance<boost::filesystem::ofstream>(path, std::ios::binary | std::ios::out);
+    if (!file->is_open()) {
+        boost::throw_exception(IOException(L"Cannot create file: " + path));
+    }
 }
 
 OutputFile::~OutputFile() {
@@ -211,15 +214,28 @@ SimpleFSIndexOutput::~SimpleFSIndexOutput() {
 }
 
 void SimpleFSIndexOutput::flushBuffer(const uint8_t* b, int32_t offset, int32_t length) {
-    file->write(b, offset, length);
+    if (!file) {
+        boost::throw_exception(AlreadyClosedException(L"SimpleFSIndexOutput already closed"));
+    }
+    bool ok = file->write(b, offset, length);
     file->flush();
+    if (!ok || !file->isValid()) {
+        boost::throw_exception(IOException(L"Write failure"));
+    }
 }
 
 void SimpleFSIndexOutput::close() {
     if (isOpen) {
-        BufferedIndexOutput::close();
-        file.reset();
+        // the file is closed even if the last bytes cannot be written
         isOpen = false;
+        LuceneException finally;
+        try {
+            BufferedIndexOutput::close();
+        } catch (LuceneException& e) {
+            finally = e;
+        }
+        file.reset();
+        finally.throwException();
     }
 }
 
-- 
2.43.0


From 10b639eedb4b9e211bcf397d497cf26335c01069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 06/94] fix: a failing read of SimpleFSIndexInput looped for
 ever and broke all later reads of the file

---
 src/core/store/SimpleFSDirectory.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/store/SimpleFSDirectory.cpp b/src/core/store/SimpleFSDirectory.cpp
index c2a3e7c..c104e8f 100644
--- a/src/core/store/SimpleFSDirectory.cpp
+++ b/src/core/store/SimpleFSDirectory.cpp
@@ -52,6 +52,7 @@ InputFile::~InputFile() {
 
 void InputFile::setPosition(int64_t position) {
     this->position = position;
+    file->clear(); // an earlier failed read must not affect this one
     file->seekg((std::streamoff)position);
     if (!file->good()) {
         boost::throw_exception(IOException());
@@ -109,7 +110,7 @@ void SimpleFSIndexInput::readInternal(uint8_t* b, int32_t offset, int32_t length
     SyncLock fileLock(file);
 
     int64_t position = getFilePointer();
-    if (position != file->getPosition()) {
+    if (position != file->getPosition() || !file->isValid()) {
         file->setPosition(position);
     }
 
@@ -122,6 +123,9 @@ void SimpleFSIndexInput::readInternal(uint8_t* b, int32_t offset, int32_t length
         if (i == InputFile::FILE_EOF) {
             boost::throw_exception(IOException(L"Read past EOF"));
         }
+        if (i <= 0 && !file->isValid()) {
+            boost::throw_exception(IOException(L"Read failure"));
+        }
         total += i;
     }
 }
-- 
2.43.0


From dbd5882bae0ab3bb51454049ed14ef2d7812b85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:06 +0000
Subject: [PATCH 07/94] fix: MMapIndexInput read beyond the mapping and could
 not open empty files

---
 src/core/include/_MMapDirectory.h |  1 +
 src/core/store/MMapDirectory.cpp  | 38 +++++++++++++++++++------------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/core/include/_MMapDirectory.h b/src/core/include/_MMapDirectory.h
index 3438f66..cb491f7 100644
--- a/src/core/include/_MMapDirectory.h
+++ b/src/core/include/_MMapDirectory.h
@@ -22,6 +22,7 @@ public:
 protected:
     int32_t _length;
     bool isClone;
+    bool isOpen;
     boost::iostreams::mapped_file_source file;
     int32_t bufferPosition; // next byte to read
 
diff --git a/src/core/store/MMapDirectory.cpp b/src/core/store/MMapDirectory.cpp
index 46156e3..585b1c2 100644
--- a/src/core/store/MMapDirectory.cpp
+++ b/src/core/store/MMapDirectory.cpp
@@ -35,34 +35,40 @@ MMapIndexInput::MMapIndexInput(const String& path) {
     _length = path.empty() ? 0 : (int32_t)FileUtils::fileLength(path);
     bufferPosition = 0;
     if (!path.empty()) {
-        try {
-            file.open(boost::filesystem::path(path), _length);
-        } catch (...) {
+        if (!FileUtils::fileExists(path)) {
             boost::throw_exception(FileNotFoundException(path));
         }
+        if (_length > 0) { // an empty file cannot be mapped
+            try {
+                file.open(boost::filesystem::path(path), _length);
+            } catch (...) {
+                boost::throw_exception(FileNotFoundException(path));
+            }
+        }
     }
     isClone = false;
+    isOpen = !path.empty();
 }
 
 MMapIndexInput::~MMapIndexInput() {
 }
 
 uint8_t MMapIndexInput::readByte() {
-    try {
-        return file.data()[bufferPosition++];
-    } catch (...) {
+    if (bufferPosition < 0 || bufferPosition >= _length || !file.is_open()) {
         boost::throw_exception(IOException(L"Read past EOF"));
-        return 0;
     }
+    return file.data()[bufferPosition++];
 }
 
 void MMapIndexInput::readBytes(uint8_t* b, int32_t offset, int32_t length) {
-    try {
-        MiscUtils::arrayCopy(file.data(), bufferPosition, b, offset, length);
-        bufferPosition += length;
-    } catch (...) {
+    if (length == 0) {
+        return;
+    }
+    if (length < 0 || bufferPosition < 0 || bufferPosition > _length || length > _length - bufferPosition || !file.is_open()) {
         boost::throw_exception(IOException(L"Read past EOF"));
     }
+    MiscUtils::arrayCopy(file.data(), bufferPosition, b, offset, length);
+    bufferPosition += length;
 }
 
 int64_t MMapIndexInput::getFilePointer() {
@@ -78,16 +84,19 @@ int64_t MMapIndexInput::length() {
 }
 
 void MMapIndexInput::close() {
-    if (isClone || !file.is_open()) {
+    if (isClone || !isOpen) {
         return;
     }
+    isOpen = false;
     _length = 0;
     bufferPosition = 0;
-    file.close();
+    if (file.is_open()) {
+        file.close();
+    }
 }
 
 LuceneObjectPtr MMapIndexInput::clone(const LuceneObjectPtr& other) {
-    if (!file.is_open()) {
+    if (!isOpen) {
         boost::throw_exception(AlreadyClosedException(L"MMapIndexInput already closed"));
     }
     LuceneObjectPtr clone = IndexInput::clone(other ? other : newLucene<MMapIndexInput>());
@@ -96,6 +105,7 @@ LuceneObjectPtr MMapIndexInput::clone(const LuceneObjectPtr& other) {
     cloneIndexInput->file = file;
     cloneIndexInput->bufferPosition = bufferPosition;
     cloneIndexInput->isClone = true;
+    cloneIndexInput->isOpen = true;
     return cloneIndexInput;
 }
 
-- 
2.43.0


From 6c07f02bfc20f4214ed46606b44e522ae36a78a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 08/94] fix: RAMInputStream returned old bytes after seeking to
 an end of file on a buffer boundary

---
 src/core/store/RAMInputStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/store/RAMInputStream.cpp b/src/core/store/RAMInputStream.cpp
index 0cf173e..ed8db01 100644
--- a/src/core/store/RAMInputStream.cpp
+++ b/src/core/store/RAMInputStream.cpp
@@ -81,8 +81,10 @@ void RAMInputStream::switchCurrentBuffer(bool enforceEOF) {
             boost::throw_exception(IOException(L"Read past EOF"));
         } else {
             // force eof if a read takes place at this position
-            --currentBufferIndex;
-            bufferPosition = BUFFER_SIZE;
+            currentBuffer.reset();
+            bufferPosition = 0;
+            bufferStart = (int64_t)BUFFER_SIZE * (int64_t)currentBufferIndex;
+            bufferLength = 0;
         }
     } else {
         currentBuffer = file->getBuffer(currentBufferIndex);
-- 
2.43.0


From 8e9ec2296a730345f1116981e6257854df25a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 09/94] fix: writing to a deleted RAMDirectory file still
 changed the directory size

---
 src/core/store/RAMDirectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/store/RAMDirectory.cpp b/src/core/store/RAMDirectory.cpp
index dbff24b..adc2ec3 100644
--- a/src/core/store/RAMDirectory.cpp
+++ b/src/core/store/RAMDirectory.cpp
@@ -118,6 +118,7 @@ void RAMDirectory::deleteFile(const String& name) {
         boost::throw_exception(FileNotFoundException(name));
     }
     _sizeInBytes -= ramFile->second->getSizeInBytes();
+    ramFile->second->_directory.reset();
     fileMap.remove(name);
 }
 
-- 
2.43.0


From a934e6cd2d195f8be3f609c21368e9368514282b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 10/94] fix: the locks of a SingleInstanceLockFactory did not
 share one mutex

---
 src/core/store/SingleInstanceLockFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/store/SingleInstanceLockFactory.cpp b/src/core/store/SingleInstanceLockFactory.cpp
index f3f398b..5c03d6d 100644
--- a/src/core/store/SingleInstanceLockFactory.cpp
+++ b/src/core/store/SingleInstanceLockFactory.cpp
@@ -12,6 +12,7 @@ namespace Lucene {
 
 SingleInstanceLockFactory::SingleInstanceLockFactory() {
     locks = HashSet<String>::newInstance();
+    locks.getSync(); // created before copies are made, so that all copies share it
 }
 
 SingleInstanceLockFactory::~SingleInstanceLockFactory() {
-- 
2.43.0


From 908035e38dd5fb8ebdecc0f861fb1b0a49bceed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:08 +0000
Subject: [PATCH 11/94] fix: IndexWriter and IndexFileDeleter used the set of
 synced files under different mutexes

---
 src/core/index/IndexWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index f19b6b4..ddcef55 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -134,6 +134,7 @@ void IndexWriter::initialize() {
     mergingSegments = SetSegmentInfo::newInstance();
     runningMerges = SetOneMerge::newInstance();
     synced = HashSet<String>::newInstance();
+    synced.getSync(); // created before copies are made, so that all copies share it
     syncing = HashSet<String>::newInstance();
     changeCount = 0;
     lastCommitChangeCount = 0;
-- 
2.43.0


From 0ad2a97f70b14c128577e622fd01890b2e4658e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 12/94] fix: LuceneThread::start marked a finished thread as
 running and could let the object die under it

---
 include/lucene++/LuceneThread.h |  2 +-
 src/core/util/LuceneThread.cpp  | 18 +++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/lucene++/LuceneThread.h b/include/lucene++/LuceneThread.h
index 2a5c33a..d2a784a 100644
--- a/include/lucene++/LuceneThread.h
+++ b/include/lucene++/LuceneThread.h
@@ -78,7 +78,7 @@ protected:
     bool isRunning();
 
     /// function that controls the lifetime of the running thread.
-    static void runThread(LuceneThread* thread);
+    static void runThread(LuceneThreadPtr* thread);
 };
 
 }
diff --git a/src/core/util/LuceneThread.cpp b/src/core/util/LuceneThread.cpp
index 591caa0..cdf3c39 100644
--- a/src/core/util/LuceneThread.cpp
+++ b/src/core/util/LuceneThread.cpp
@@ -28,13 +28,21 @@ LuceneThread::~LuceneThread() {
 }
 
 void LuceneThread::start() {
-    setRunning(false);
-    thread = newInstance<boost::thread>(LuceneThread::runThread, this);
-    setRunning(true);
+    // a reference for the new thread, taken now since our caller may drop the object once we return
+    LuceneThreadPtr* threadObject = new LuceneThreadPtr(boost::static_pointer_cast<LuceneThread>(LuceneObject::shared_from_this()));
+    setRunning(true); // set first, since the thread may end before we return
+    try {
+        thread = newInstance<boost::thread>(LuceneThread::runThread, threadObject);
+    } catch (...) {
+        setRunning(false);
+        delete threadObject;
+        throw;
+    }
 }
 
-void LuceneThread::runThread(LuceneThread* thread) {
-    LuceneThreadPtr threadObject(thread->shared_from_this());
+void LuceneThread::runThread(LuceneThreadPtr* thread) {
+    LuceneThreadPtr threadObject(*thread);
+    delete thread;
     try {
         threadObject->run();
     } catch (...) {
-- 
2.43.0


From 08199d90a0277bd7b5168dd95354f5de8e8ae3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 13/94] fix: TimeLimitingCollector could start two timer
 threads, or restart the one it was waiting for

---
 src/core/search/TimeLimitingCollector.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/core/search/TimeLimitingCollector.cpp b/src/core/search/TimeLimitingCollector.cpp
index 39174f4..b274997 100644
--- a/src/core/search/TimeLimitingCollector.cpp
+++ b/src/core/search/TimeLimitingCollector.cpp
@@ -34,6 +34,7 @@ TimerThreadPtr TimeLimitingCollector::TIMER_THREAD() {
         _TIMER_THREAD = newLucene<TimerThread>();
         CycleCheck::addStatic(_TIMER_THREAD);
     );
+    SyncLock syncLock(_TIMER_THREAD);
     if (!_TIMER_THREAD->isAlive()) {
         _TIMER_THREAD->start();    // start single thread instance
     }
@@ -49,9 +50,10 @@ void TimeLimitingCollector::setResolution(int64_t newResolution) {
 }
 
 void TimeLimitingCollector::stopTimer() {
-    if (TIMER_THREAD()->isAlive()) {
-        TIMER_THREAD()->stopThread();
-        TIMER_THREAD()->join();
+    TimerThreadPtr timerThread(TIMER_THREAD()); // asked for once, since asking starts a stopped thread again
+    if (timerThread->isAlive()) {
+        timerThread->stopThread();
+        timerThread->join();
     }
 }
 
@@ -98,15 +100,19 @@ TimerThread::~TimerThread() {
 }
 
 void TimerThread::start() {
+    SyncLock syncLock(this);
     _stopThread = false;
     LuceneThread::start();
 }
 
 void TimerThread::run() {
-    while (!_stopThread) {
+    while (true) {
         int64_t resolution;
         {
             SyncLock syncLock(this);
+            if (_stopThread) {
+                break;
+            }
             resolution = TimeLimitingCollector::resolution;
             time += resolution;
         }
@@ -120,6 +126,7 @@ int64_t TimerThread::getMilliseconds() {
 }
 
 void TimerThread::stopThread() {
+    SyncLock syncLock(this);
     _stopThread = true;
 }
 
-- 
2.43.0


From 412fa6ba88d61fe14b1eb7e8139f929fb3349cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:24 +0000
Subject: [PATCH 14/94] fix: NativeFSLock gave up its lock at once, since it
 closed another descriptor of the lock file

---
 src/core/include/_NativeFSLockFactory.h |  3 +
 src/core/store/NativeFSLockFactory.cpp  | 87 ++++++++++++++++++++-----
 2 files changed, 75 insertions(+), 15 deletions(-)

diff --git a/src/core/include/_NativeFSLockFactory.h b/src/core/include/_NativeFSLockFactory.h
index 0a2ef99..04cbd1e 100644
--- a/src/core/include/_NativeFSLockFactory.h
+++ b/src/core/include/_NativeFSLockFactory.h
@@ -21,7 +21,9 @@ public:
 protected:
     String lockDir;
     String path;
+    String heldPath;
     filelockPtr lock;
+    int fd;
 
     static SynchronizePtr LOCK_HELD_LOCK();
     static HashSet<String> LOCK_HELD();
@@ -34,6 +36,7 @@ public:
 
 protected:
     bool lockExists();
+    void closeFile();
 };
 
 }
diff --git a/src/core/store/NativeFSLockFactory.cpp b/src/core/store/NativeFSLockFactory.cpp
index 2ba0471..5dfb507 100644
--- a/src/core/store/NativeFSLockFactory.cpp
+++ b/src/core/store/NativeFSLockFactory.cpp
@@ -6,6 +6,7 @@
 
 #include "LuceneInc.h"
 #include <boost/filesystem/fstream.hpp>
+#include <boost/filesystem/operations.hpp>
 #include <boost/interprocess/sync/file_lock.hpp>
 #include "NativeFSLockFactory.h"
 #include "_NativeFSLockFactory.h"
@@ -13,6 +14,12 @@
 #include "FileUtils.h"
 #include "StringUtils.h"
 
+#if !defined(_WIN32) && !defined(_WIN64)
+#include <fcntl.h>
+#include <sys/stat.h>
+#include <unistd.h>
+#endif
+
 namespace Lucene {
 
 NativeFSLockFactory::NativeFSLockFactory(const String& lockDirName) {
@@ -32,9 +39,12 @@ void NativeFSLockFactory::clearLock(const String& lockName) {
     // they are locked, but still do this in case people really want to see the files go away
 
     if (FileUtils::isDirectory(lockDir)) {
+        // obtaining and releasing the lock deletes the file, unless someone holds the lock: then it has to stay,
+        // since whoever recreates it would lock another file
+        LockPtr lock(makeLock(lockName));
         String lockPath(FileUtils::joinPath(lockDir, lockPrefix.empty() ? lockName : lockPrefix + L"-" + lockName));
-        if (FileUtils::fileExists(lockPath) && !FileUtils::removeFile(lockPath)) {
-            boost::throw_exception(IOException(L"Failed to delete: " + lockPath));
+        if (FileUtils::fileExists(lockPath) && lock->obtain()) {
+            lock->release();
         }
     }
 }
@@ -42,11 +52,14 @@ void NativeFSLockFactory::clearLock(const String& lockName) {
 NativeFSLock::NativeFSLock(const String& lockDir, const String& lockFileName) {
     this->lockDir = lockDir;
     path = FileUtils::joinPath(lockDir, lockFileName);
+    fd = -1;
 }
 
 NativeFSLock::~NativeFSLock() {
     try {
-        release();
+        if (lockExists()) {
+            release();
+        }
     } catch (...) {
     }
 }
@@ -90,28 +103,42 @@ bool NativeFSLock::obtain() {
         boost::throw_exception(IOException(L"Found regular file where directory expected: " + lockDir));
     }
 
+    // different names of one lock file must not count as different locks within this process, because
+    // native locks do not exclude each other there
+    boost::system::error_code ec;
+    boost::filesystem::path canonicalDir(boost::filesystem::canonical(boost::filesystem::path(lockDir), ec));
+    heldPath = ec ? path : FileUtils::joinPath(canonicalDir.wstring().c_str(), FileUtils::extractFile(path));
+
     bool markedHeld = false;
 
     // make sure nobody else in-process has this lock held already and mark it held if not
     {
         SyncLock heldLock(LOCK_HELD_LOCK());
-        if (LOCK_HELD().contains(path))
+        if (LOCK_HELD().contains(heldPath))
             // someone else already has the lock
         {
             return false;
         } else {
             // this "reserves" the fact that we are the one thread trying to obtain this lock, so we own the
             // only instance of a channel against this file
-            LOCK_HELD().add(path);
+            LOCK_HELD().add(heldPath);
             markedHeld = true;
         }
     }
 
     try {
         // we can get intermittent "access denied" here, so we treat this as failure to acquire the lock
+#if defined(_WIN32) || defined(_WIN64)
         boost::filesystem::ofstream f(path, std::ios::binary | std::ios::out);
-
-        if (f.is_open()) {
+        bool created = f.is_open();
+#else
+        // stays open while we hold the lock, because closing any descriptor of a file drops all native locks
+        // this process has on it
+        fd = ::open(boost::filesystem::path(path).c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);
+        bool created = fd != -1;
+#endif
+
+        if (created) {
             std::string lockpath;
 
             // file_lock only accepts char* filenames and we cannot losslessly convert Unicode paths to
@@ -126,15 +153,29 @@ bool NativeFSLock::obtain() {
                 lockpath = boost::filesystem::path(path).string();
             }
             lock = newInstance<boost::interprocess::file_lock>(lockpath.c_str());
-            lock->lock();
+            if (!lock->try_lock()) {
+                lock.reset();
+            }
+#if !defined(_WIN32) && !defined(_WIN64)
+            // another process may have deleted the file, when it released the lock, after we opened it
+            struct stat opened, current;
+            if (lock && (::fstat(fd, &opened) != 0 || ::stat(lockpath.c_str(), &current) != 0 ||
+                         opened.st_dev != current.st_dev || opened.st_ino != current.st_ino)) {
+                lock.reset();
+            }
+#endif
         }
     } catch (...) {
         lock.reset();
     }
 
+    if (!lockExists()) {
+        closeFile();
+    }
+
     if (markedHeld && !lockExists()) {
         SyncLock heldLock(LOCK_HELD_LOCK());
-        LOCK_HELD().remove(path);
+        LOCK_HELD().remove(heldPath);
     }
 
     return lockExists();
@@ -144,20 +185,27 @@ void NativeFSLock::release() {
     SyncLock syncLock(this);
 
     if (lockExists()) {
+#if !defined(_WIN32) && !defined(_WIN64)
+        // deleted while we still hold the lock, so that this can only be the file we have locked
+        FileUtils::removeFile(path);
+#endif
         try {
             lock->unlock();
-            lock.reset();
         } catch (...) {
         }
+        lock.reset();
+        closeFile();
 
-        {
-            SyncLock heldLock(LOCK_HELD_LOCK());
-            LOCK_HELD().remove(path);
-        }
-
+#if defined(_WIN32) || defined(_WIN64)
         // we don't care anymore if the file cannot be deleted because it's held up by another process
         // (eg. AntiVirus). NativeFSLock does not depend on the existence/absence of the lock file
         FileUtils::removeFile(path);
+#endif
+
+        {
+            SyncLock heldLock(LOCK_HELD_LOCK());
+            LOCK_HELD().remove(heldPath);
+        }
     } else {
         // if we don't hold the lock, and somebody still called release(), for example as a result of
         // calling IndexWriter.unlock(), we should attempt to obtain the lock and release it.  If the
@@ -180,6 +228,15 @@ void NativeFSLock::release() {
     }
 }
 
+void NativeFSLock::closeFile() {
+#if !defined(_WIN32) && !defined(_WIN64)
+    if (fd != -1) {
+        ::close(fd);
+        fd = -1;
+    }
+#endif
+}
+
 bool NativeFSLock::isLocked() {
     SyncLock syncLock(this);
 
-- 
2.43.0


From 3c0a276c94527c545bd501515e3e2c78f722e965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:28 +0000
Subject: [PATCH 15/94] fix: SimpleFSLock could be obtained while another lock
 held it

---
 src/core/store/SimpleFSLockFactory.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/core/store/SimpleFSLockFactory.cpp b/src/core/store/SimpleFSLockFactory.cpp
index fcbbc61..bc5d179 100644
--- a/src/core/store/SimpleFSLockFactory.cpp
+++ b/src/core/store/SimpleFSLockFactory.cpp
@@ -5,7 +5,8 @@
 /////////////////////////////////////////////////////////////////////////////
 
 #include "LuceneInc.h"
-#include <boost/filesystem/fstream.hpp>
+#include <cstdio>
+#include <boost/filesystem/path.hpp>
 #include "SimpleFSLockFactory.h"
 #include "_SimpleFSLockFactory.h"
 #include "FileUtils.h"
@@ -53,12 +54,18 @@ bool SimpleFSLock::obtain() {
     } else if (!FileUtils::isDirectory(lockDir)) {
         boost::throw_exception(RuntimeException(L"Found regular file where directory expected: " + lockDir));
     }
-    boost::filesystem::ofstream f;
-    try {
-        f.open(FileUtils::joinPath(lockDir, lockFile), std::ios::binary | std::ios::out);
-    } catch (...) {
+    // creates the file, or fails if it exists
+    boost::filesystem::path lockPath(FileUtils::joinPath(lockDir, lockFile));
+#if defined(_WIN32) || defined(_WIN64)
+    FILE* f = ::_wfopen(lockPath.c_str(), L"wbx");
+#else
+    FILE* f = ::fopen(lockPath.c_str(), "wbx");
+#endif
+    if (!f) {
+        return false;
     }
-    return f.is_open();
+    ::fclose(f);
+    return true;
 }
 
 void SimpleFSLock::release() {
-- 
2.43.0


From a4bb1ffc45036476968d0f50667dab4cb8d4725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:39 +0000
Subject: [PATCH 16/94] fix: segments of other directories took over the doc
 store format of a like-named segment during addIndexesNoOptimize

---
 src/core/index/IndexWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index ddcef55..c11493b 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -842,7 +842,7 @@ bool IndexWriter::flushDocStores() {
 
         for (int32_t i = 0; i < numSegments; ++i) {
             SegmentInfoPtr si(segmentInfos->info(i));
-            if (si->getDocStoreOffset() != -1 && si->getDocStoreSegment() == docStoreSegment) {
+            if (si->dir == directory && si->getDocStoreOffset() != -1 && si->getDocStoreSegment() == docStoreSegment) {
                 si->setDocStoreIsCompoundFile(true);
             }
         }
@@ -2735,7 +2735,7 @@ void IndexWriter::setMergeDocStoreIsCompoundFile(const OneMergePtr& merge) {
         for (int32_t i = 0; i < size; ++i) {
             SegmentInfoPtr info(segmentInfos->info(i));
             String docStoreSegment(info->getDocStoreSegment());
-            if (!docStoreSegment.empty() && docStoreSegment == mergeDocStoreSegment && info->getDocStoreIsCompoundFile()) {
+            if (info->dir == directory && !docStoreSegment.empty() && docStoreSegment == mergeDocStoreSegment && info->getDocStoreIsCompoundFile()) {
                 merge->info->setDocStoreIsCompoundFile(true);
                 break;
             }
-- 
2.43.0


From a56b7e9154122676d62e1d07607f914ac772975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:39 +0000
Subject: [PATCH 17/94] fix: a merge that failed with a specific IOException
 was reported as an empty RuntimeException

---
 src/core/index/IndexWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index c11493b..80fc2fe 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2437,7 +2437,7 @@ LuceneException IndexWriter::handleMergeException(const LuceneException& exc, co
     case LuceneException::Runtime:
         return exc;
     default:
-        return RuntimeException(); // Should not get here
+        return exc; // includes the more specific kinds of IOException
     }
     return LuceneException();
 }
-- 
2.43.0


From fa504c043c32c837eda2197cfa3c75f1b3a8f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:37 +0000
Subject: [PATCH 18/94] fix: a near-real-time reader shared the writer's
 segment infos, so a clone of it showed other content

---
 src/core/index/DirectoryReader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 8704c32..3a80a69 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -92,7 +92,8 @@ DirectoryReader::DirectoryReader(const IndexWriterPtr& writer, const SegmentInfo
 
     this->_directory = writer->getDirectory();
     this->readOnly = true;
-    this->segmentInfos = infos;
+    // make sure we clone, otherwise we share mutable state with the writer
+    this->segmentInfos = boost::dynamic_pointer_cast<SegmentInfos>(infos->clone());
     this->segmentInfosStart = boost::dynamic_pointer_cast<SegmentInfos>(infos->clone());
     this->termInfosIndexDivisor = termInfosIndexDivisor;
 
@@ -314,6 +315,7 @@ LuceneObjectPtr DirectoryReader::clone(bool openReadOnly, const LuceneObjectPtr&
     }
 
     newReader->_writer = _writer;
+    newReader->segmentInfosStart = segmentInfosStart;
 
     // If we're cloning a non-readOnly reader, move the writeLock (if there is one) to the new reader
     if (!openReadOnly && writeLock) {
-- 
2.43.0


From bdd74fe2394b40f4f69bad31118a659501f8c3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:37 +0000
Subject: [PATCH 19/94] fix: a near-real-time reader claimed to be current
 after deletes were applied

---
 include/lucene++/DirectoryReader.h |  1 +
 include/lucene++/SegmentInfos.h    |  8 ++++++++
 src/core/index/DirectoryReader.cpp |  8 +++++++-
 src/core/index/IndexWriter.cpp     |  5 +++++
 src/core/index/SegmentInfos.cpp    | 10 ++++++++++
 5 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/include/lucene++/DirectoryReader.h b/include/lucene++/DirectoryReader.h
index dfe1944..e0e3839 100644
--- a/include/lucene++/DirectoryReader.h
+++ b/include/lucene++/DirectoryReader.h
@@ -42,6 +42,7 @@ protected:
     LockPtr writeLock;
     SegmentInfosPtr segmentInfos;
     SegmentInfosPtr segmentInfosStart;
+    SegmentInfosPtr writerSegmentInfos;
     bool stale;
     int32_t termInfosIndexDivisor;
 
diff --git a/include/lucene++/SegmentInfos.h b/include/lucene++/SegmentInfos.h
index d883206..115341f 100644
--- a/include/lucene++/SegmentInfos.h
+++ b/include/lucene++/SegmentInfos.h
@@ -66,6 +66,8 @@ private:
     /// Starting with the current time in milliseconds forces to create unique version numbers.
     int64_t version;
 
+    int64_t changeCount; // changes noted by a writer, to tell whether its readers are current
+
     int64_t generation; // generation of the "segments_N" for the next commit
 
     int64_t lastGeneration; // generation of the "segments_N" file we last successfully read
@@ -105,6 +107,12 @@ public:
     /// Carry over generation numbers from another SegmentInfos.
     void updateGeneration(const SegmentInfosPtr& other);
 
+    /// Call this when segments or deletes have changed, so that readers of the changed infos can tell.
+    void changed();
+
+    /// Counts the changes noted since these infos were loaded, never stored in the index.
+    int64_t getChangeCount();
+
     void rollbackCommit(const DirectoryPtr& dir);
 
     /// Call this to start a commit.  This writes the new segments file, but writes an invalid checksum at the end, so
diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 3a80a69..5266f0c 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -95,6 +95,7 @@ DirectoryReader::DirectoryReader(const IndexWriterPtr& writer, const SegmentInfo
     // make sure we clone, otherwise we share mutable state with the writer
     this->segmentInfos = boost::dynamic_pointer_cast<SegmentInfos>(infos->clone());
     this->segmentInfosStart = boost::dynamic_pointer_cast<SegmentInfos>(infos->clone());
+    this->writerSegmentInfos = infos;
     this->termInfosIndexDivisor = termInfosIndexDivisor;
 
     if (!readOnly) {
@@ -316,6 +317,7 @@ LuceneObjectPtr DirectoryReader::clone(bool openReadOnly, const LuceneObjectPtr&
 
     newReader->_writer = _writer;
     newReader->segmentInfosStart = segmentInfosStart;
+    newReader->writerSegmentInfos = writerSegmentInfos;
 
     // If we're cloning a non-readOnly reader, move the writeLock (if there is one) to the new reader
     if (!openReadOnly && writeLock) {
@@ -714,7 +716,11 @@ MapStringString DirectoryReader::getCommitUserData() {
 bool DirectoryReader::isCurrent() {
     ensureOpen();
     IndexWriterPtr writer(_writer.lock());
-    if (!writer || writer->isClosed()) {
+    if (writerSegmentInfos && (!writer || writer->isClosed())) {
+        // we were opened by a writer, which may have changed the index before it was closed
+        return (SegmentInfos::readCurrentVersion(_directory) == writerSegmentInfos->getVersion() &&
+                segmentInfosStart->getChangeCount() == writerSegmentInfos->getChangeCount());
+    } else if (!writer || writer->isClosed()) {
         // we loaded SegmentInfos from the directory
         return (SegmentInfos::readCurrentVersion(_directory) == segmentInfos->getVersion());
     } else {
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 80fc2fe..c814e94 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1459,6 +1459,7 @@ void IndexWriter::rollbackInternal() {
             // attempt to commit using this instance of IndexWriter will always write to a new generation ("write once").
             segmentInfos->clear();
             segmentInfos->addAll(rollbackSegmentInfos);
+            segmentInfos->changed();
 
             BOOST_ASSERT(!hasExternalSegments());
 
@@ -1611,6 +1612,7 @@ void IndexWriter::waitForMerges() {
 void IndexWriter::checkpoint() {
     SyncLock syncLock(this);
     ++changeCount;
+    segmentInfos->changed();
     deleter->checkpoint(segmentInfos, false);
 }
 
@@ -3346,6 +3348,9 @@ bool IndexWriter::nrtIsCurrent(const SegmentInfosPtr& infos) {
     } else if (infos->getGeneration() != segmentInfos->getGeneration()) {
         // if any commit took place since we were opened, we are stale
         return false;
+    } else if (infos->getChangeCount() != segmentInfos->getChangeCount()) {
+        // if any other change took place (applied deletes), we are stale
+        return false;
     } else {
         return !docWriter->anyChanges();
     }
diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 4555eec..65743b5 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -68,6 +68,7 @@ SegmentInfos::SegmentInfos() {
     lastGeneration = 0;
     generation = 0;
     counter = 0;
+    changeCount = 0;
     version = MiscUtils::currentTimeMillis();
 }
 
@@ -264,6 +265,7 @@ LuceneObjectPtr SegmentInfos::clone(const LuceneObjectPtr& other) {
     cloneInfos->generation = generation;
     cloneInfos->lastGeneration = lastGeneration;
     cloneInfos->version = version;
+    cloneInfos->changeCount = changeCount;
     cloneInfos->pendingSegnOutput = pendingSegnOutput;
     for (int32_t i = 0; i < cloneInfos->size(); ++i) {
         cloneInfos->segmentInfos[i] = boost::dynamic_pointer_cast<SegmentInfo>(cloneInfos->info(i)->clone());
@@ -527,6 +529,14 @@ void SegmentInfos::updateGeneration(const SegmentInfosPtr& other) {
     version = other->version;
 }
 
+void SegmentInfos::changed() {
+    ++changeCount;
+}
+
+int64_t SegmentInfos::getChangeCount() {
+    return changeCount;
+}
+
 void SegmentInfos::rollbackCommit(const DirectoryPtr& dir) {
     if (pendingSegnOutput) {
         try {
-- 
2.43.0


From cccc4da935b23543ca6de25284c3fdec864b6767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:37 +0000
Subject: [PATCH 20/94] fix: the clone of an outdated reader could overwrite
 newer commits

---
 src/core/index/DirectoryReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 5266f0c..e854b26 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -313,6 +313,8 @@ LuceneObjectPtr DirectoryReader::clone(bool openReadOnly, const LuceneObjectPtr&
 
     if (shared_from_this() != newReader) {
         newReader->deletionPolicy = deletionPolicy;
+        // the clone shows what this reader shows, not what is in the index by now
+        newReader->maxIndexVersion = readOnly ? segmentInfos->getVersion() : maxIndexVersion;
     }
 
     newReader->_writer = _writer;
-- 
2.43.0


From bae50d0973f402dc2d51349f98438ef257cd8384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:19 +0000
Subject: [PATCH 21/94] fix: reopening a reader whose changes had moved to a
 clone showed the changes as if they were committed

---
 src/core/index/SegmentReader.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 201da19..48ce649 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -143,12 +143,17 @@ SegmentReaderPtr SegmentReader::reopenSegment(const SegmentInfoPtr& si, bool doC
 
     bool deletionsUpToDate = (this->si->hasDeletions() == si->hasDeletions() &&
                               (!si->hasDeletions() || this->si->getDelFileName() == si->getDelFileName()));
+    if (!doClone && deletedDocsDirty) {
+        // our deletions were handed over to a clone, which may not have committed them
+        deletionsUpToDate = false;
+    }
     bool normsUpToDate = true;
     int32_t fieldCount = core->fieldInfos->size();
     Collection<uint8_t> fieldNormsChanged(Collection<uint8_t>::newInstance(fieldCount));
 
     for (int32_t i = 0; i < fieldCount; ++i) {
-        if (this->si->getNormFileName(i) != si->getNormFileName(i)) {
+        NormPtr norm(this->_norms.get(core->fieldInfos->fieldInfo(i)->name));
+        if (this->si->getNormFileName(i) != si->getNormFileName(i) || (!doClone && norm && norm->dirty)) {
             normsUpToDate = false;
             fieldNormsChanged[i] = true;
         }
-- 
2.43.0


From 11c73cae36bf6ef0f269377afd13872e03c8cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:19 +0000
Subject: [PATCH 22/94] fix: deletion and norm files of other commits were
 overwritten after undeleteAll or when an older commit was opened

---
 src/core/index/SegmentInfo.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/core/index/SegmentInfo.cpp b/src/core/index/SegmentInfo.cpp
index ed8deb3..54846cd 100644
--- a/src/core/index/SegmentInfo.cpp
+++ b/src/core/index/SegmentInfo.cpp
@@ -211,12 +211,15 @@ bool SegmentInfo::hasDeletions() {
 }
 
 void SegmentInfo::advanceDelGen() {
-    // delGen 0 is reserved for pre-LOCKLESS format
-    if (delGen == NO) {
-        delGen = YES;
-    } else {
-        delGen++;
-    }
+    // delGen 0 is reserved for pre-LOCKLESS format.  The next name can be taken by another commit (after undeleteAll,
+    // or when an older commit was opened), whose file must not be overwritten
+    do {
+        if (delGen == NO) {
+            delGen = YES;
+        } else {
+            delGen++;
+        }
+    } while (dir->fileExists(getDelFileName()));
     clearFiles();
 }
 
@@ -304,11 +307,13 @@ bool SegmentInfo::hasSeparateNorms() {
 }
 
 void SegmentInfo::advanceNormGen(int32_t fieldIndex) {
-    if (normGen[fieldIndex] == NO) {
-        normGen[fieldIndex] = YES;
-    } else {
-        normGen[fieldIndex]++;
-    }
+    do {
+        if (normGen[fieldIndex] == NO) {
+            normGen[fieldIndex] = YES;
+        } else {
+            normGen[fieldIndex]++;
+        }
+    } while (dir->fileExists(getNormFileName(fieldIndex)));
     clearFiles();
 }
 
-- 
2.43.0


From 90625858a12b5cb08c54a53d6521eb5f4e7a63c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:22 +0000
Subject: [PATCH 23/94] fix: cloning a near-real-time reader failed an
 assertion once the writer had saved more deletes

---
 src/core/index/SegmentReader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 48ce649..1f7d640 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -165,8 +165,9 @@ SegmentReaderPtr SegmentReader::reopenSegment(const SegmentInfoPtr& si, bool doC
         return shared_from_this();
     }
 
-    // When cloning, the incoming SegmentInfos should not have any changes in it
-    BOOST_ASSERT(!doClone || (normsUpToDate && deletionsUpToDate));
+    // When cloning, the incoming SegmentInfos should not have any changes in it, unless our info belongs to a
+    // writer that has saved more changes since (either way a clone takes over our deletions and norms as they are)
+    BOOST_ASSERT(!doClone || readOnly || (normsUpToDate && deletionsUpToDate));
 
     // clone reader
     SegmentReaderPtr clone(openReadOnly ? newLucene<ReadOnlySegmentReader>() : newLucene<SegmentReader>());
-- 
2.43.0


From 41b79f52c6d8936f213b451edf4a29ca35794543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:35 +0000
Subject: [PATCH 24/94] fix: norms set through a reader showed in earlier
 clones that had not loaded their norms yet

---
 src/core/include/_SegmentReader.h | 11 +++++++++
 src/core/index/SegmentReader.cpp  | 38 +++++++++++++++++++++++++------
 2 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/core/include/_SegmentReader.h b/src/core/include/_SegmentReader.h
index 505f8c7..45befbf 100644
--- a/src/core/include/_SegmentReader.h
+++ b/src/core/include/_SegmentReader.h
@@ -121,6 +121,11 @@ protected:
 
     SegmentReaderRefPtr _bytesRef;
     ByteArray _bytes;
+
+    /// The unmodified bytes, kept for the clones that depend on this instance when it was changed
+    SegmentReaderRefPtr _origBytesRef;
+    ByteArray _origBytes;
+
     bool dirty;
     int32_t number;
     bool rollbackDirty;
@@ -135,6 +140,12 @@ public:
     /// Load & cache full bytes array.  Returns bytes.
     ByteArray bytes();
 
+    /// Load the unmodified bytes for a clone that depends on this instance
+    void origBytes(uint8_t* bytesOut, int32_t offset, int32_t length);
+
+    /// Load & cache the unmodified bytes for a clone, and take a reference to them for it
+    ByteArray origBytes(SegmentReaderRefPtr& bytesRef);
+
     /// Only for testing
     SegmentReaderRefPtr bytesRef();
 
diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 1f7d640..ce705c6 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -1034,9 +1034,32 @@ void Norm::decRef() {
         } else {
             BOOST_ASSERT(!_bytesRef);
         }
+
+        if (_origBytes) {
+            _origBytesRef->decRef();
+            _origBytes.reset();
+            _origBytesRef.reset();
+        }
     }
 }
 
+void Norm::origBytes(uint8_t* bytesOut, int32_t offset, int32_t length) {
+    SyncLock syncLock(this);
+    if (_origBytes) {
+        MiscUtils::arrayCopy(_origBytes.get(), 0, bytesOut, offset, length);
+    } else {
+        bytes(bytesOut, offset, length);
+    }
+}
+
+ByteArray Norm::origBytes(SegmentReaderRefPtr& bytesRef) {
+    SyncLock syncLock(this);
+    ByteArray orig(_origBytes ? _origBytes : bytes());
+    bytesRef = _origBytes ? _origBytesRef : _bytesRef;
+    bytesRef->incRef();
+    return orig;
+}
+
 void Norm::bytes(uint8_t* bytesOut, int32_t offset, int32_t length) {
     SyncLock syncLock(this);
     BOOST_ASSERT(refCount > 0 && (!origNorm || origNorm->refCount > 0));
@@ -1048,7 +1071,7 @@ void Norm::bytes(uint8_t* bytesOut, int32_t offset, int32_t length) {
         // Not cached
         if (origNorm) {
             // Ask origNorm to load
-            origNorm->bytes(bytesOut, offset, length);
+            origNorm->origBytes(bytesOut, offset, length);
         } else {
             // We are orig - read ourselves from disk
             SyncLock instancesLock(in);
@@ -1065,9 +1088,7 @@ ByteArray Norm::bytes() {
         BOOST_ASSERT(!_bytesRef);
         if (origNorm) {
             // Ask origNorm to load so that for a series of reopened readers we share a single read-only byte[]
-            _bytes = origNorm->bytes();
-            _bytesRef = origNorm->_bytesRef;
-            _bytesRef->incRef();
+            _bytes = origNorm->origBytes(_bytesRef);
 
             // Once we've loaded the bytes we no longer need origNorm
             origNorm->decRef();
@@ -1106,10 +1127,13 @@ ByteArray Norm::copyOnWrite() {
     bytes();
     BOOST_ASSERT(_bytes);
     BOOST_ASSERT(_bytesRef);
+    if (refCount > 1 && !_origBytes) {
+        // I am the origNorm for other norm instances, that have yet to ask me for the unmodified bytes
+        _origBytes = _bytes;
+        _origBytesRef = _bytesRef;
+        _origBytesRef->incRef();
+    }
     if (_bytesRef->refCount() > 1) {
-        // I cannot be the origNorm for another norm instance if I'm being changed.
-        // ie, only the "head Norm" can be changed
-        BOOST_ASSERT(refCount == 1);
         SegmentReaderRefPtr oldRef(_bytesRef);
         _bytes = SegmentReaderPtr(_reader)->cloneNormBytes(_bytes);
         _bytesRef = newLucene<SegmentReaderRef>();
-- 
2.43.0


From 25281f4e3baf1f8bd905c9a3ae09a42027594dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:44 +0000
Subject: [PATCH 25/94] fix: closing a writer took the document writer away
 under other threads, which crashed

---
 src/core/index/IndexWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index c814e94..ace0091 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -738,7 +738,7 @@ void IndexWriter::closeInternal(bool waitForMerges) {
         {
             SyncLock syncLock(this);
             readerPool->close();
-            docWriter.reset();
+            // Keep docWriter (which is closed): other threads that are still on their way into it must find it
             deleter->close();
         }
 
-- 
2.43.0


From 1eb570b7bbc9bdafea0762bf854197707ebd25b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:10 +0000
Subject: [PATCH 26/94] fix: changes committed through a reader of an older
 commit let later segments reuse names of kept commits

---
 src/core/index/SegmentInfos.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 65743b5..a31510f 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -527,6 +527,7 @@ void SegmentInfos::updateGeneration(const SegmentInfosPtr& other) {
     lastGeneration = other->lastGeneration;
     generation = other->generation;
     version = other->version;
+    counter = std::max(counter, other->counter); // never reuse the segment names of other commits
 }
 
 void SegmentInfos::changed() {
-- 
2.43.0


From 07aa3f5ec70432f8cf3a7308d9de51493efcf9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:34 +0000
Subject: [PATCH 27/94] fix: a compound doc store that no segment used any more
 was left in the index directory

---
 src/core/index/IndexWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index ace0091..0d1a0cc 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2171,6 +2171,13 @@ bool IndexWriter::doFlushInternal(bool flushDocStores, bool flushDeletes) {
 
             docStoreIsCompoundFile = IndexWriter::flushDocStores();
             flushDocStores = false;
+
+            if (docStoreIsCompoundFile && !flushDocs) {
+                // The segments that share the doc store can be gone already, then nothing refers to the new file
+                HashSet<String> files(HashSet<String>::newInstance());
+                files.add(docStoreSegment + L"." + IndexFileNames::COMPOUND_FILE_STORE_EXTENSION());
+                deleter->deleteNewFiles(files);
+            }
         }
 
         String segment(docWriter->getSegment());
-- 
2.43.0


From 413b85ea1c7f1bf5504a9fc87d489e2b9a921fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:34 +0000
Subject: [PATCH 28/94] fix: the files of a merge that was aborted at its very
 end were left in the index directory

---
 src/core/index/IndexWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 0d1a0cc..a403c3c 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2961,6 +2961,10 @@ int32_t IndexWriter::mergeMiddle(const OneMergePtr& merge) {
             }
             if (!commitMerge(merge, merger, mergedDocCount, mergedReader)) {
                 // commitMerge will return false if this merge was aborted
+                {
+                    SyncLock syncLock(this);
+                    deleter->refresh(mergedName);
+                }
                 boost::throw_exception(TemporaryException());
             }
         } catch (LuceneException& e) {
-- 
2.43.0


From 128af84aaea6f92cd20c68477bfbe233b2e5c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:33 +0000
Subject: [PATCH 29/94] fix: TermDocs over all documents read before the first
 document and went backwards with skipTo

---
 src/core/index/AbstractAllTermDocs.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/core/index/AbstractAllTermDocs.cpp b/src/core/index/AbstractAllTermDocs.cpp
index aa6edcc..4896cb7 100644
--- a/src/core/index/AbstractAllTermDocs.cpp
+++ b/src/core/index/AbstractAllTermDocs.cpp
@@ -44,19 +44,17 @@ bool AbstractAllTermDocs::next() {
 int32_t AbstractAllTermDocs::read(Collection<int32_t>& docs, Collection<int32_t>& freqs) {
     int32_t length = docs.size();
     int32_t i = 0;
-    while (i < length && _doc < maxDoc) {
-        if (!isDeleted(_doc)) {
-            docs[i] = _doc;
-            freqs[i] = 1;
-            ++i;
-        }
-        ++_doc;
+    while (i < length && next()) {
+        docs[i] = _doc;
+        freqs[i] = 1;
+        ++i;
     }
     return i;
 }
 
 bool AbstractAllTermDocs::skipTo(int32_t target) {
-    _doc = target;
+    // always moves on, whatever the target (which is negative when the caller has passed this reader's documents)
+    _doc = std::max(target, std::min(_doc, maxDoc) + 1);
     while (_doc < maxDoc) {
         if (!isDeleted(_doc)) {
             return true;
-- 
2.43.0


From 349c0a73ec4a5d9b34275c2f12db5e80ed1d48ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:32 +0000
Subject: [PATCH 30/94] fix: a segments_N file full of zeros was taken for an
 empty index of an old format

---
 src/core/index/SegmentInfos.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index a31510f..92e3455 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -147,6 +147,9 @@ void SegmentInfos::read(const DirectoryPtr& directory, const String& segmentFile
             }
             version = input->readLong(); // read version
             counter = input->readInt(); // read counter
+        } else if (generation > 0) {
+            // only a plain "segments" file can be this old: a file like this was damaged (eg filled with zeros by a crash)
+            boost::throw_exception(CorruptIndexException(L"Unknown format version: " + StringUtils::toString(format)));
         } else {
             counter = format;
         }
-- 
2.43.0


From d65d230e7c81ac303bffba76fab45c9570b43f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:32 +0000
Subject: [PATCH 31/94] fix: a damaged segments file was parsed before its
 checksum was verified

---
 src/core/index/SegmentInfos.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 92e3455..9af3b05 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -127,6 +127,25 @@ String SegmentInfos::getNextSegmentFileName() {
     return IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", generation == -1 ? 1 : generation + 1);
 }
 
+static void verifyChecksum(const DirectoryPtr& directory, const String& segmentFileName) {
+    ChecksumIndexInputPtr input(newLucene<ChecksumIndexInput>(directory->openInput(segmentFileName)));
+    LuceneException finally;
+    try {
+        for (int64_t left = input->length() - 8; left > 0; --left) {
+            input->readByte();
+        }
+        int64_t checksumNow = input->getChecksum();
+        int64_t checksumThen = input->readLong();
+        if (checksumNow != checksumThen) {
+            boost::throw_exception(CorruptIndexException(L"Checksum mismatch in segments file"));
+        }
+    } catch (LuceneException& e) {
+        finally = e;
+    }
+    input->close();
+    finally.throwException();
+}
+
 void SegmentInfos::read(const DirectoryPtr& directory, const String& segmentFileName) {
     bool success = false;
 
@@ -145,6 +164,10 @@ void SegmentInfos::read(const DirectoryPtr& directory, const String& segmentFile
             if (format < CURRENT_FORMAT) {
                 boost::throw_exception(CorruptIndexException(L"Unknown format version: " + StringUtils::toString(format)));
             }
+            if (format <= FORMAT_CHECKSUM) {
+                // lengths and counts are only trusted once the whole file has been verified
+                verifyChecksum(directory, segmentFileName);
+            }
             version = input->readLong(); // read version
             counter = input->readInt(); // read counter
         } else if (generation > 0) {
-- 
2.43.0


From 72a157a214026cee1d71be8176ccd04c43dddf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:55 +0000
Subject: [PATCH 32/94] fix: reading an overlong vInt or vLong of a damaged
 file shifted by more than the width of the type

---
 src/core/store/IndexInput.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/store/IndexInput.cpp b/src/core/store/IndexInput.cpp
index 319f316..cf546ea 100644
--- a/src/core/store/IndexInput.cpp
+++ b/src/core/store/IndexInput.cpp
@@ -37,6 +37,9 @@ int32_t IndexInput::readVInt() {
     int32_t i = (b & 0x7f);
 
     for (int32_t shift = 7; (b & 0x80) != 0; shift += 7) {
+        if (shift > 28) {
+            boost::throw_exception(IOException(L"Invalid vInt"));
+        }
         b = readByte();
         i |= (b & 0x7f) << shift;
     }
@@ -54,6 +57,9 @@ int64_t IndexInput::readVLong() {
     int64_t i = (b & 0x7f);
 
     for (int32_t shift = 7; (b & 0x80) != 0; shift += 7) {
+        if (shift > 63) {
+            boost::throw_exception(IOException(L"Invalid vLong"));
+        }
         b = readByte();
         i |= (int64_t)(b & 0x7f) << shift;
     }
-- 
2.43.0


From 309adae20e472579071114782a1ea416bdb2fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:31 +0000
Subject: [PATCH 33/94] fix: stored fields that could not be read came back
 empty or missing instead of failing

---
 src/core/index/FieldsReader.cpp | 390 ++++++--------------------------
 1 file changed, 72 insertions(+), 318 deletions(-)

diff --git a/src/core/index/FieldsReader.cpp b/src/core/index/FieldsReader.cpp
index 439b917..829feb7 100644
--- a/src/core/index/FieldsReader.cpp
+++ b/src/core/index/FieldsReader.cpp
@@ -274,111 +274,39 @@ void FieldsReader::addFieldLazy(const DocumentPtr& doc, const FieldInfoPtr& fi,
 }
 
 void FieldsReader::addField(const DocumentPtr& doc, const FieldInfoPtr& fi, bool binary, bool compressed, bool tokenize) {
-    if (!doc || !fi) {
-        return;
-    }
-
     // we have a binary stored field, and it may be compressed
     if (binary) {
-        try {
-            int32_t toRead = fieldsStream->readVInt();
-            if (toRead < 0) {
-                return;
-            }
-            
-            ByteArray b;
-            try {
-                b = ByteArray::newInstance(toRead);
-                if (!b) {
-                    return;
-                }
-                
-                fieldsStream->readBytes(b.get(), 0, b.size());
-                
-                // Create field object outside the doc->add call to allow for null checking
-                FieldPtr field;
-                if (compressed) {
-                    try {
-                        ByteArray uncompressedData = uncompress(b);
-                        if (uncompressedData && uncompressedData.size() > 0) {
-                            field = newLucene<Field>(fi->name, uncompressedData, Field::STORE_YES);
-                        }
-                    } catch (...) {
-                        // Fall through to use original data
-                    }
-                    
-                    // If decompression failed or returned null, use the original binary data
-                    if (!field) {
-                        field = newLucene<Field>(fi->name, b, Field::STORE_YES);
-                    }
-                } else {
-                    field = newLucene<Field>(fi->name, b, Field::STORE_YES);
-                }
-                
-                // Add the field to document only if field creation was successful
-                if (field && doc) {
-                    doc->add(field);
-                }
-            } catch (...) {
-                // Skip field on error
-            }
-        } catch (...) {
-            // Skip field on error
+        int32_t toRead = fieldsStream->readVInt();
+        if (toRead < 0 || toRead > fieldsStream->length() - fieldsStream->getFilePointer()) {
+            boost::throw_exception(CorruptIndexException(L"field \"" + fi->name + L"\" has invalid stored length " + StringUtils::toString(toRead)));
+        }
+        ByteArray b(ByteArray::newInstance(toRead));
+        fieldsStream->readBytes(b.get(), 0, b.size());
+        if (compressed) {
+            doc->add(newLucene<Field>(fi->name, uncompress(b), Field::STORE_YES));
+        } else {
+            doc->add(newLucene<Field>(fi->name, b, Field::STORE_YES));
         }
     } else {
         Field::Store store = Field::STORE_YES;
         Field::Index index = Field::toIndex(fi->isIndexed, tokenize);
         Field::TermVector termVector = Field::toTermVector(fi->storeTermVector, fi->storeOffsetWithTermVector, fi->storePositionWithTermVector);
 
-        try {
-            AbstractFieldPtr f;
-            
-            if (compressed) {
-                int32_t toRead = fieldsStream->readVInt();
-                if (toRead < 0) {
-                    return;
-                }
-                
-                ByteArray b;
-                try {
-                    b = ByteArray::newInstance(toRead);
-                    if (!b) {
-                        return;
-                    }
-                    
-                    fieldsStream->readBytes(b.get(), 0, b.size());
-                    
-                    try {
-                        String fieldValue = uncompressString(b);
-                        if (!fieldValue.empty()) {
-                            f = newLucene<Field>(fi->name, fieldValue, store, index, termVector);
-                        } else {
-                            f = newLucene<Field>(fi->name, L"", store, index, termVector);
-                        }
-                    } catch (...) {
-                        f = newLucene<Field>(fi->name, L"", store, index, termVector);
-                    }
-                } catch (...) {
-                    return;
-                }
-            } else {
-                try {
-                    String fieldValue = fieldsStream->readString();
-                    f = newLucene<Field>(fi->name, fieldValue, store, index, termVector);
-                } catch (...) {
-                    f = newLucene<Field>(fi->name, L"", store, index, termVector);
-                }
-            }
-            
-            // Set field properties and add to document only if field creation was successful
-            if (f && doc) {
-                f->setOmitTermFreqAndPositions(fi->omitTermFreqAndPositions);
-                f->setOmitNorms(fi->omitNorms);
-                doc->add(f);
+        AbstractFieldPtr f;
+        if (compressed) {
+            int32_t toRead = fieldsStream->readVInt();
+            if (toRead < 0 || toRead > fieldsStream->length() - fieldsStream->getFilePointer()) {
+                boost::throw_exception(CorruptIndexException(L"field \"" + fi->name + L"\" has invalid stored length " + StringUtils::toString(toRead)));
             }
-        } catch (...) {
-            // Skip field on error
+            ByteArray b(ByteArray::newInstance(toRead));
+            fieldsStream->readBytes(b.get(), 0, b.size());
+            f = newLucene<Field>(fi->name, uncompressString(b), store, index, termVector);
+        } else {
+            f = newLucene<Field>(fi->name, fieldsStream->readString(), store, index, termVector);
         }
+        f->setOmitTermFreqAndPositions(fi->omitTermFreqAndPositions);
+        f->setOmitNorms(fi->omitNorms);
+        doc->add(f);
     }
 }
 
@@ -395,47 +323,21 @@ int32_t FieldsReader::addFieldSize(const DocumentPtr& doc, const FieldInfoPtr& f
 }
 
 ByteArray FieldsReader::uncompress(ByteArray b) {
-    if (!b) {
-        return ByteArray::newInstance(0);
-    }
-    
     try {
-        if (b.size() == 0) {
-            return ByteArray::newInstance(0);
-        }
-        
-        ByteArray result = CompressionTools::decompress(b);
-        if (!result) {
-            return ByteArray::newInstance(0);
-        }
-        
-        return result;
-    } catch (...) {
-        // Return empty array on any exception
-        return ByteArray::newInstance(0);
+        return CompressionTools::decompress(b);
+    } catch (CompressionException& e) {
+        boost::throw_exception(CorruptIndexException(L"field data are in wrong format [" + e.getError() + L"]"));
     }
+    return ByteArray();
 }
 
 String FieldsReader::uncompressString(ByteArray b) {
-    if (!b) {
-        return L"";
-    }
-    
     try {
-        if (b.size() == 0) {
-            return L"";
-        }
-        
-        String result = CompressionTools::decompressString(b);
-        if (result.empty()) {
-            return L"";
-        }
-        
-        return result;
-    } catch (...) {
-        // Return empty string on any exception
-        return L"";
+        return CompressionTools::decompressString(b);
+    } catch (CompressionException& e) {
+        boost::throw_exception(CorruptIndexException(L"field data are in wrong format [" + e.getError() + L"]"));
     }
+    return L"";
 }
 
 LazyField::LazyField(const FieldsReaderPtr& reader, const String& name, Field::Store store, int32_t toRead, int64_t pointer, bool isBinary, bool isCompressed) :
@@ -489,115 +391,34 @@ TokenStreamPtr LazyField::tokenStreamValue() {
 
 String LazyField::stringValue() {
     FieldsReaderPtr reader(_reader);
-    if (!reader) {
-        return L"";
-    }
-    
-    try {
-        reader->ensureOpen();
-    } catch (...) {
-        return L"";
-    }
-    
+    reader->ensureOpen();
     if (_isBinary) {
         return L"";
     } else {
         if (VariantUtils::isNull(fieldsData)) {
-            IndexInputPtr localFieldsStream;
-            try {
-                localFieldsStream = getFieldStream();
-                if (!localFieldsStream) {
-                    fieldsData = String(L"");
-                    return L"";
-                }
-            } catch (...) {
-                fieldsData = String(L"");
-                return L"";
+            IndexInputPtr localFieldsStream(getFieldStream());
+            localFieldsStream->seek(pointer);
+            if (toRead < 0 || toRead > localFieldsStream->length() - pointer) {
+                boost::throw_exception(CorruptIndexException(L"field \"" + _name + L"\" has invalid stored length " + StringUtils::toString(toRead)));
             }
-            
-            try {
-                localFieldsStream->seek(pointer);
-                
-                // Check for invalid size
-                if (toRead <= 0) {
-                    fieldsData = String(L"");
-                    return L"";
-                }
-                
-                if (isCompressed) {
-                    try {
-                        ByteArray b(ByteArray::newInstance(toRead));
-                        if (!b) {
-                            fieldsData = String(L"");
-                            return L"";
-                        }
-                        
-                        localFieldsStream->readBytes(b.get(), 0, b.size());
-                        try {
-                            fieldsData = reader->uncompressString(b);
-                            if (VariantUtils::isNull(fieldsData)) {
-                                fieldsData = String(L"");
-                            }
-                        } catch (...) {
-                            fieldsData = String(L"");
-                        }
-                    } catch (...) {
-                        fieldsData = String(L"");
-                    }
+            if (isCompressed) {
+                ByteArray b(ByteArray::newInstance(toRead));
+                localFieldsStream->readBytes(b.get(), 0, b.size());
+                fieldsData = reader->uncompressString(b);
+            } else {
+                if (reader->format >= FieldsWriter::FORMAT_VERSION_UTF8_LENGTH_IN_BYTES) {
+                    ByteArray bytes(ByteArray::newInstance(toRead));
+                    localFieldsStream->readBytes(bytes.get(), 0, toRead);
+                    fieldsData = StringUtils::toUnicode(bytes.get(), toRead);
                 } else {
-                    if (reader->format >= FieldsWriter::FORMAT_VERSION_UTF8_LENGTH_IN_BYTES) {
-                        try {
-                            ByteArray bytes(ByteArray::newInstance(toRead));
-                            if (!bytes) {
-                                fieldsData = String(L"");
-                                return L"";
-                            }
-                            
-                            localFieldsStream->readBytes(bytes.get(), 0, toRead);
-                            try {
-                                fieldsData = StringUtils::toUnicode(bytes.get(), toRead);
-                                if (VariantUtils::isNull(fieldsData)) {
-                                    fieldsData = String(L"");
-                                }
-                            } catch (...) {
-                                fieldsData = String(L"");
-                            }
-                        } catch (...) {
-                            fieldsData = String(L"");
-                        }
-                    } else {
-                        try {
-                            // read in chars because we already know the length we need to read
-                            CharArray chars(CharArray::newInstance(toRead));
-                            if (!chars) {
-                                fieldsData = String(L"");
-                                return L"";
-                            }
-                            
-                            int32_t length = localFieldsStream->readChars(chars.get(), 0, toRead);
-                            try {
-                                fieldsData = String(chars.get(), length);
-                                if (VariantUtils::isNull(fieldsData)) {
-                                    fieldsData = String(L"");
-                                }
-                            } catch (...) {
-                                fieldsData = String(L"");
-                            }
-                        } catch (...) {
-                            fieldsData = String(L"");
-                        }
-                    }
+                    // read in chars because we already know the length we need to read
+                    CharArray chars(CharArray::newInstance(toRead));
+                    int32_t length = localFieldsStream->readChars(chars.get(), 0, toRead);
+                    fieldsData = String(chars.get(), length);
                 }
-            } catch (...) {
-                fieldsData = String(L"");
             }
         }
-        
-        try {
-            return VariantUtils::get<String>(fieldsData);
-        } catch (...) {
-            return L"";
-        }
+        return VariantUtils::get<String>(fieldsData);
     }
 }
 
@@ -623,102 +444,35 @@ void LazyField::setToRead(int32_t toRead) {
 
 ByteArray LazyField::getBinaryValue(ByteArray result) {
     FieldsReaderPtr reader(_reader);
-    if (!reader) {
-        return ByteArray();
-    }
-
-    try {
-        reader->ensureOpen();
-    } catch (...) {
-        return ByteArray();
-    }
-
+    reader->ensureOpen();
     if (_isBinary) {
         if (VariantUtils::isNull(fieldsData)) {
-            ByteArray b;
-
-            try {
-                // Check for invalid size
-                if (toRead <= 0) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                }
-                
-                // Allocate new buffer if result is null or too small
-                if (!result || result.size() < toRead) {
-                    b = ByteArray::newInstance(toRead);
-                    if (!b) {
-                        fieldsData = ByteArray();
-                        binaryOffset = 0;
-                        binaryLength = 0;
-                        return ByteArray();
-                    }
-                } else {
-                    b = result;
-                }
-
-                IndexInputPtr localFieldsStream;
-                try {
-                    localFieldsStream = getFieldStream();
-                    if (!localFieldsStream) {
-                        fieldsData = ByteArray();
-                        binaryOffset = 0;
-                        binaryLength = 0;
-                        return ByteArray();
-                    }
-                } catch (...) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                }
+            IndexInputPtr localFieldsStream(getFieldStream());
+            localFieldsStream->seek(pointer);
+            if (toRead < 0 || toRead > localFieldsStream->length() - pointer) {
+                boost::throw_exception(CorruptIndexException(L"field \"" + _name + L"\" has invalid stored length " + StringUtils::toString(toRead)));
+            }
 
-                try {
-                    localFieldsStream->seek(pointer);
-                    localFieldsStream->readBytes(b.get(), 0, toRead);
-                    if (isCompressed) {
-                        try {
-                            ByteArray uncompressed = reader->uncompress(b);
-                            if (uncompressed && uncompressed.size() > 0) {
-                                fieldsData = uncompressed;
-                            } else {
-                                fieldsData = b;
-                            }
-                        } catch (...) {
-                            fieldsData = b;
-                        }
-                    } else {
-                        fieldsData = b;
-                    }
-                } catch (IOException&) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                } catch (...) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                }
+            // Allocate new buffer if result is null or too small
+            ByteArray b;
+            if (!result || result.size() < toRead) {
+                b = ByteArray::newInstance(toRead);
+            } else {
+                b = result;
+            }
 
-                binaryOffset = 0;
+            localFieldsStream->readBytes(b.get(), 0, toRead);
+            binaryOffset = 0;
+            if (isCompressed) {
+                ByteArray uncompressed(reader->uncompress(b));
+                binaryLength = uncompressed.size();
+                fieldsData = uncompressed;
+            } else {
                 binaryLength = toRead;
-            } catch (...) {
-                fieldsData = ByteArray();
-                binaryOffset = 0;
-                binaryLength = 0;
-                return ByteArray();
+                fieldsData = b;
             }
         }
-
-        try {
-            return VariantUtils::get<ByteArray>(fieldsData);
-        } catch (...) {
-            return ByteArray();
-        }
+        return VariantUtils::get<ByteArray>(fieldsData);
     } else {
         return ByteArray();
     }
-- 
2.43.0


From 442e3ad0f5dbf62bc3d608503c2e0866a6bc19a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:31 +0000
Subject: [PATCH 34/94] fix: reading an overlong vInt of a damaged file ran
 over the end of the read buffer

---
 src/core/store/BufferedIndexInput.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/store/BufferedIndexInput.cpp b/src/core/store/BufferedIndexInput.cpp
index 52599ef..49dd799 100644
--- a/src/core/store/BufferedIndexInput.cpp
+++ b/src/core/store/BufferedIndexInput.cpp
@@ -39,6 +39,9 @@ int32_t BufferedIndexInput::readVInt() {
         uint8_t b = __buffer[bufferPosition++];
         int32_t i = (b & 0x7f);
         for (int32_t shift = 7; (b & 0x80) != 0; shift += 7) {
+            if (shift >= 7 * MAX_VARINT32_LENGTH) {
+                boost::throw_exception(IOException(L"invalid vInt"));
+            }
             b = __buffer[bufferPosition++];
             i |= (b & 0x7f) << shift;
         }
@@ -48,6 +51,9 @@ int32_t BufferedIndexInput::readVInt() {
         uint8_t b = readByte();
         int32_t i = (b & 0x7f);
         for (int32_t shift = 7; (b & 0x80) != 0; shift += 7) {
+            if (shift >= 7 * MAX_VARINT32_LENGTH) {
+                boost::throw_exception(IOException(L"invalid vInt"));
+            }
             b = readByte();
             i |= (b & 0x7f) << shift;
         }
-- 
2.43.0


From 005b7532aea9411e3da7ad5fc53b77baa6d5cc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:52 +0000
Subject: [PATCH 35/94] fix: closing a half opened FieldsWriter read an
 uninitialised flag and could leave its files open

---
 src/core/index/FieldsWriter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/index/FieldsWriter.cpp b/src/core/index/FieldsWriter.cpp
index 85c651d..7fd620a 100644
--- a/src/core/index/FieldsWriter.cpp
+++ b/src/core/index/FieldsWriter.cpp
@@ -32,6 +32,7 @@ const int32_t FieldsWriter::FORMAT_CURRENT = FieldsWriter::FORMAT_LUCENE_3_0_NO_
 
 FieldsWriter::FieldsWriter(const DirectoryPtr& d, const String& segment, const FieldInfosPtr& fn) {
     fieldInfos = fn;
+    doClose = true;
 
     bool success = false;
     String fieldsName(segment + L"." + IndexFileNames::FIELDS_EXTENSION());
@@ -72,8 +73,6 @@ FieldsWriter::FieldsWriter(const DirectoryPtr& d, const String& segment, const F
         }
     }
     finally.throwException();
-
-    doClose = true;
 }
 
 FieldsWriter::FieldsWriter(const IndexOutputPtr& fdx, const IndexOutputPtr& fdt, const FieldInfosPtr& fn) {
-- 
2.43.0


From 66a47070775da843100117cce264b78458744731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:15 +0000
Subject: [PATCH 36/94] fix: opening a segment failed an assertion when the
 write of a later one to the same doc store had failed

---
 src/core/index/TermVectorsReader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/index/TermVectorsReader.cpp b/src/core/index/TermVectorsReader.cpp
index 488de77..c0051f9 100644
--- a/src/core/index/TermVectorsReader.cpp
+++ b/src/core/index/TermVectorsReader.cpp
@@ -73,11 +73,12 @@ void TermVectorsReader::ConstructReader(const DirectoryPtr& d, const String& seg
             BOOST_ASSERT(format == tvdFormat);
             BOOST_ASSERT(format == tvfFormat);
 
+            // A shared doc store can end in a partial entry, if writing it failed after this segment was flushed
             if (format >= FORMAT_VERSION2) {
-                BOOST_ASSERT((tvx->length() - FORMAT_SIZE) % 16 == 0);
+                BOOST_ASSERT(docStoreOffset != -1 || (tvx->length() - FORMAT_SIZE) % 16 == 0);
                 numTotalDocs = (int32_t)(tvx->length() >> 4);
             } else {
-                BOOST_ASSERT((tvx->length() - FORMAT_SIZE) % 8 == 0);
+                BOOST_ASSERT(docStoreOffset != -1 || (tvx->length() - FORMAT_SIZE) % 8 == 0);
                 numTotalDocs = (int32_t)(tvx->length() >> 3);
             }
 
-- 
2.43.0


From af55337880e84e813dfa4996b01908ec146a5b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:06 +0000
Subject: [PATCH 37/94] fix: deletes were lost after adding indexes failed in a
 writer that pools readers

---
 src/core/index/IndexWriter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index a403c3c..bc799fe 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1338,6 +1338,9 @@ void IndexWriter::startTransaction(bool haveReadLock) {
     success = false;
 
     try {
+        // Pooled readers are dropped when the transaction is rolled back, so save the deletes they carry now
+        readerPool->commit();
+
         localRollbackSegmentInfos = boost::dynamic_pointer_cast<SegmentInfos>(segmentInfos->clone());
 
         BOOST_ASSERT(!hasExternalSegments());
@@ -1379,6 +1382,10 @@ void IndexWriter::rollbackTransaction() {
     segmentInfos->addAll(localRollbackSegmentInfos);
     localRollbackSegmentInfos.reset();
 
+    // The pooled readers belong to the SegmentInfo instances we just replaced (or to segments we just dropped)
+    readerPool->clear(SegmentInfosPtr());
+    readerPool->close();
+
     // This must come after we rollback segmentInfos, so that if a commit() kicks off it does not see the
     // segmentInfos with external segments.
     finishAddIndexes();
-- 
2.43.0


From a1e61d08cfbec6e528040953033da209d35cd420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:33 +0000
Subject: [PATCH 38/94] fix: a segment reader whose term vectors could not be
 opened was used without them, so merges lost them

---
 src/core/index/SegmentReader.cpp | 75 ++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 28 deletions(-)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index ce705c6..21be946 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -886,44 +886,63 @@ void CoreReaders::openDocStores(const SegmentInfoPtr& si) {
     BOOST_ASSERT(si->name == segment);
 
     if (!fieldsReaderOrig) {
-        DirectoryPtr storeDir;
-        if (si->getDocStoreOffset() != -1) {
-            if (si->getDocStoreIsCompoundFile()) {
-                BOOST_ASSERT(!storeCFSReader);
-                storeCFSReader = newLucene<CompoundFileReader>(dir, si->getDocStoreSegment() + L"." + IndexFileNames::COMPOUND_FILE_STORE_EXTENSION(), readBufferSize);
-                storeDir = storeCFSReader;
+        // Nothing is kept unless all is opened: a later call must not find only some of the readers
+        CompoundFileReaderPtr newStoreCFSReader;
+        FieldsReaderPtr newFieldsReader;
+        LuceneException finally;
+        try {
+            DirectoryPtr storeDir;
+            if (si->getDocStoreOffset() != -1) {
+                if (si->getDocStoreIsCompoundFile()) {
+                    BOOST_ASSERT(!storeCFSReader);
+                    newStoreCFSReader = newLucene<CompoundFileReader>(dir, si->getDocStoreSegment() + L"." + IndexFileNames::COMPOUND_FILE_STORE_EXTENSION(), readBufferSize);
+                    storeDir = newStoreCFSReader;
+                    BOOST_ASSERT(storeDir);
+                } else {
+                    storeDir = dir;
+                    BOOST_ASSERT(storeDir);
+                }
+            } else if (si->getUseCompoundFile()) {
+                // In some cases, we were originally opened when CFS was not used, but then we are asked to open doc
+                // stores after the segment has switched to CFS
+                if (!cfsReader) {
+                    cfsReader = newLucene<CompoundFileReader>(dir, segment + L"." + IndexFileNames::COMPOUND_FILE_EXTENSION(), readBufferSize);
+                }
+                storeDir = cfsReader;
                 BOOST_ASSERT(storeDir);
             } else {
                 storeDir = dir;
                 BOOST_ASSERT(storeDir);
             }
-        } else if (si->getUseCompoundFile()) {
-            // In some cases, we were originally opened when CFS was not used, but then we are asked to open doc
-            // stores after the segment has switched to CFS
-            if (!cfsReader) {
-                cfsReader = newLucene<CompoundFileReader>(dir, segment + L"." + IndexFileNames::COMPOUND_FILE_EXTENSION(), readBufferSize);
-            }
-            storeDir = cfsReader;
-            BOOST_ASSERT(storeDir);
-        } else {
-            storeDir = dir;
-            BOOST_ASSERT(storeDir);
-        }
 
-        String storesSegment(si->getDocStoreOffset() != -1 ? si->getDocStoreSegment() : segment);
+            String storesSegment(si->getDocStoreOffset() != -1 ? si->getDocStoreSegment() : segment);
 
-        fieldsReaderOrig = newLucene<FieldsReader>(storeDir, storesSegment, fieldInfos, readBufferSize, si->getDocStoreOffset(), si->docCount);
+            newFieldsReader = newLucene<FieldsReader>(storeDir, storesSegment, fieldInfos, readBufferSize, si->getDocStoreOffset(), si->docCount);
 
-        // Verify two sources of "maxDoc" agree
-        if (si->getDocStoreOffset() == -1 && fieldsReaderOrig->size() != si->docCount) {
-            boost::throw_exception(CorruptIndexException(L"doc counts differ for segment " + segment +
-                                   L": fieldsReader shows " + StringUtils::toString(fieldsReaderOrig->size()) +
-                                   L" but segmentInfo shows " + StringUtils::toString(si->docCount)));
-        }
+            // Verify two sources of "maxDoc" agree
+            if (si->getDocStoreOffset() == -1 && newFieldsReader->size() != si->docCount) {
+                boost::throw_exception(CorruptIndexException(L"doc counts differ for segment " + segment +
+                                       L": fieldsReader shows " + StringUtils::toString(newFieldsReader->size()) +
+                                       L" but segmentInfo shows " + StringUtils::toString(si->docCount)));
+            }
 
-        if (fieldInfos->hasVectors()) { // open term vector files only as needed
-            termVectorsReaderOrig = newLucene<TermVectorsReader>(storeDir, storesSegment, fieldInfos, readBufferSize, si->getDocStoreOffset(), si->docCount);
+            if (fieldInfos->hasVectors()) { // open term vector files only as needed
+                termVectorsReaderOrig = newLucene<TermVectorsReader>(storeDir, storesSegment, fieldInfos, readBufferSize, si->getDocStoreOffset(), si->docCount);
+            }
+        } catch (LuceneException& e) {
+            finally = e;
+        }
+        if (!finally.isNull()) {
+            if (newFieldsReader) {
+                newFieldsReader->close();
+            }
+            if (newStoreCFSReader) {
+                newStoreCFSReader->close();
+            }
+            finally.throwException();
         }
+        storeCFSReader = newStoreCFSReader;
+        fieldsReaderOrig = newFieldsReader;
     }
 }
 
-- 
2.43.0


From 40059a011b84ca60eb8383d17d146f05b27b1cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:09 +0000
Subject: [PATCH 39/94] fix: a half written segments file that could not be
 deleted at once kept later writers from opening the index

---
 include/lucene++/IndexFileDeleter.h |  3 +++
 src/core/index/IndexFileDeleter.cpp | 11 +++++++++++
 src/core/index/IndexWriter.cpp      |  7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/include/lucene++/IndexFileDeleter.h b/include/lucene++/IndexFileDeleter.h
index 474f5ad..9bf0c01 100644
--- a/include/lucene++/IndexFileDeleter.h
+++ b/include/lucene++/IndexFileDeleter.h
@@ -124,6 +124,9 @@ public:
     void deleteNewFiles(HashSet<String> files);
 
     void deleteFile(const String& fileName);
+
+    /// Delete the segments file that a failed commit may have left behind, now or as soon as that is possible.
+    void deleteFailedCommit(const SegmentInfosPtr& segmentInfos);
 };
 
 /// Tracks the reference count for a single index file
diff --git a/src/core/index/IndexFileDeleter.cpp b/src/core/index/IndexFileDeleter.cpp
index cb30e2f..6dbcccf 100644
--- a/src/core/index/IndexFileDeleter.cpp
+++ b/src/core/index/IndexFileDeleter.cpp
@@ -383,6 +383,17 @@ void IndexFileDeleter::deleteFile(const String& fileName) {
     }
 }
 
+void IndexFileDeleter::deleteFailedCommit(const SegmentInfosPtr& segmentInfos) {
+    String fileName(IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", segmentInfos->getGeneration()));
+    try {
+        if (directory->fileExists(fileName)) {
+            deleteFile(fileName);
+        }
+    } catch (LuceneException&) {
+        // Suppress so the caller keeps throwing the exception that made the commit fail
+    }
+}
+
 RefCount::RefCount(const String& fileName) {
     initDone = false;
     count = 0;
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index bc799fe..3fcb5e4 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2060,6 +2060,10 @@ void IndexWriter::finishCommit() {
             finally = e;
         }
 
+        if (!finally.isNull() && pendingCommit->getLastGeneration() != pendingCommit->getGeneration()) {
+            deleter->deleteFailedCommit(pendingCommit);
+        }
+
         deleter->decRef(pendingCommit);
         pendingCommit.reset();
         notifyAll();
@@ -3286,6 +3290,9 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
                             // Have our master segmentInfos record the generations we just prepared.  We do this on
                             // error or success so we don't double-write a segments_N file.
                             segmentInfos->updateGeneration(toSync);
+                            if (!finally.isNull()) {
+                                deleter->deleteFailedCommit(toSync);
+                            }
                             finally.throwException();
 
                             BOOST_ASSERT(!pendingCommit);
-- 
2.43.0


From 736519850da3f0b0a3b658d25513fa8af9972da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:04 +0000
Subject: [PATCH 40/94] fix: term vector files left behind by a failed flush
 made earlier segments of the same doc store unreadable

---
 src/core/index/IndexWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 3fcb5e4..161f09b 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2279,6 +2279,14 @@ bool IndexWriter::doFlushInternal(bool flushDocStores, bool flushDeletes) {
     } catch (LuceneException& e) {
         finally = e;
     }
+    if (!finally.isNull()) {
+        // Files of the open doc store that no segment refers to must not stay behind half written: segments that
+        // share the doc store would take them for theirs
+        HashSet<String> files(docWriter->abortedFiles());
+        if (files) {
+            deleter->deleteNewFiles(files);
+        }
+    }
     docWriter->resumeAllThreads();
     finally.throwException();
 
-- 
2.43.0


From 248249d2252d3981269b2eeac51e5f6d1c9361c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:01 +0000
Subject: [PATCH 41/94] fix: the files of a failed commit whose segments file
 could not be deleted were deleted nevertheless

---
 include/lucene++/IndexFileDeleter.h | 3 ++-
 src/core/index/IndexFileDeleter.cpp | 4 +++-
 src/core/index/IndexWriter.cpp      | 9 +++++----
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/lucene++/IndexFileDeleter.h b/include/lucene++/IndexFileDeleter.h
index 9bf0c01..4564a95 100644
--- a/include/lucene++/IndexFileDeleter.h
+++ b/include/lucene++/IndexFileDeleter.h
@@ -126,7 +126,8 @@ public:
     void deleteFile(const String& fileName);
 
     /// Delete the segments file that a failed commit may have left behind, now or as soon as that is possible.
-    void deleteFailedCommit(const SegmentInfosPtr& segmentInfos);
+    /// Returns whether it is gone.
+    bool deleteFailedCommit(const SegmentInfosPtr& segmentInfos);
 };
 
 /// Tracks the reference count for a single index file
diff --git a/src/core/index/IndexFileDeleter.cpp b/src/core/index/IndexFileDeleter.cpp
index 6dbcccf..752161a 100644
--- a/src/core/index/IndexFileDeleter.cpp
+++ b/src/core/index/IndexFileDeleter.cpp
@@ -383,15 +383,17 @@ void IndexFileDeleter::deleteFile(const String& fileName) {
     }
 }
 
-void IndexFileDeleter::deleteFailedCommit(const SegmentInfosPtr& segmentInfos) {
+bool IndexFileDeleter::deleteFailedCommit(const SegmentInfosPtr& segmentInfos) {
     String fileName(IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", segmentInfos->getGeneration()));
     try {
         if (directory->fileExists(fileName)) {
             deleteFile(fileName);
         }
+        return !directory->fileExists(fileName);
     } catch (LuceneException&) {
         // Suppress so the caller keeps throwing the exception that made the commit fail
     }
+    return false;
 }
 
 RefCount::RefCount(const String& fileName) {
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 161f09b..6ba42df 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2060,11 +2060,12 @@ void IndexWriter::finishCommit() {
             finally = e;
         }
 
-        if (!finally.isNull() && pendingCommit->getLastGeneration() != pendingCommit->getGeneration()) {
-            deleter->deleteFailedCommit(pendingCommit);
+        // As long as the segments file of a failed commit cannot be deleted, the files it refers to must stay: the
+        // next writer would start from it
+        bool success = (finally.isNull() || pendingCommit->getLastGeneration() == pendingCommit->getGeneration());
+        if (success || deleter->deleteFailedCommit(pendingCommit)) {
+            deleter->decRef(pendingCommit);
         }
-
-        deleter->decRef(pendingCommit);
         pendingCommit.reset();
         notifyAll();
         finally.throwException();
-- 
2.43.0


From 24bc6592ef56b2c7727455aee705e4d498a1d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:15 +0000
Subject: [PATCH 42/94] fix: lengths read from a damaged segments file were
 trusted before its checksum was verified

---
 src/core/index/SegmentInfo.cpp  |  7 ++++++-
 src/core/index/SegmentInfos.cpp | 23 -----------------------
 src/core/store/IndexInput.cpp   |  9 +++++++++
 3 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/core/index/SegmentInfo.cpp b/src/core/index/SegmentInfo.cpp
index 54846cd..4a75446 100644
--- a/src/core/index/SegmentInfo.cpp
+++ b/src/core/index/SegmentInfo.cpp
@@ -101,6 +101,9 @@ SegmentInfo::SegmentInfo(const DirectoryPtr& dir, int32_t format, const IndexInp
         }
         int32_t numNormGen = input->readInt();
         if (numNormGen != NO) {
+            if (numNormGen < 0 || numNormGen > (input->length() - input->getFilePointer()) / 8) {
+                boost::throw_exception(IOException(L"read past EOF"));
+            }
             normGen = Collection<int64_t>::newInstance(numNormGen);
             for (int32_t j = 0; j < numNormGen; ++j) {
                 normGen[j] = input->readLong();
@@ -110,7 +113,9 @@ SegmentInfo::SegmentInfo(const DirectoryPtr& dir, int32_t format, const IndexInp
         preLockless = (isCompoundFile == CHECK_DIR);
         if (format <= SegmentInfos::FORMAT_DEL_COUNT) {
             delCount = input->readInt();
-            BOOST_ASSERT(delCount <= docCount);
+            if (delCount > docCount) {
+                boost::throw_exception(CorruptIndexException(L"delCount " + StringUtils::toString(delCount) + L" exceeds docCount " + StringUtils::toString(docCount)));
+            }
         } else {
             delCount = -1;
         }
diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 9af3b05..92e3455 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -127,25 +127,6 @@ String SegmentInfos::getNextSegmentFileName() {
     return IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", generation == -1 ? 1 : generation + 1);
 }
 
-static void verifyChecksum(const DirectoryPtr& directory, const String& segmentFileName) {
-    ChecksumIndexInputPtr input(newLucene<ChecksumIndexInput>(directory->openInput(segmentFileName)));
-    LuceneException finally;
-    try {
-        for (int64_t left = input->length() - 8; left > 0; --left) {
-            input->readByte();
-        }
-        int64_t checksumNow = input->getChecksum();
-        int64_t checksumThen = input->readLong();
-        if (checksumNow != checksumThen) {
-            boost::throw_exception(CorruptIndexException(L"Checksum mismatch in segments file"));
-        }
-    } catch (LuceneException& e) {
-        finally = e;
-    }
-    input->close();
-    finally.throwException();
-}
-
 void SegmentInfos::read(const DirectoryPtr& directory, const String& segmentFileName) {
     bool success = false;
 
@@ -164,10 +145,6 @@ void SegmentInfos::read(const DirectoryPtr& directory, const String& segmentFile
             if (format < CURRENT_FORMAT) {
                 boost::throw_exception(CorruptIndexException(L"Unknown format version: " + StringUtils::toString(format)));
             }
-            if (format <= FORMAT_CHECKSUM) {
-                // lengths and counts are only trusted once the whole file has been verified
-                verifyChecksum(directory, segmentFileName);
-            }
             version = input->readLong(); // read version
             counter = input->readInt(); // read counter
         } else if (generation > 0) {
diff --git a/src/core/store/IndexInput.cpp b/src/core/store/IndexInput.cpp
index cf546ea..4acd502 100644
--- a/src/core/store/IndexInput.cpp
+++ b/src/core/store/IndexInput.cpp
@@ -70,11 +70,19 @@ void IndexInput::setModifiedUTF8StringsMode() {
     preUTF8Strings = true;
 }
 
+/// A string cannot be longer than what is left of the file: never trust (or allocate) more than that
+static void checkStringLength(IndexInput* input, int32_t length) {
+    if (length < 0 || length > input->length() - input->getFilePointer()) {
+        boost::throw_exception(IOException(L"read past EOF"));
+    }
+}
+
 String IndexInput::readString() {
     if (preUTF8Strings) {
         return readModifiedUTF8String();
     }
     int32_t length = readVInt();
+    checkStringLength(this, length);
     ByteArray bytes(ByteArray::newInstance(length));
     readBytes(bytes.get(), 0, length);
     return StringUtils::toUnicode(bytes.get(), length);
@@ -82,6 +90,7 @@ String IndexInput::readString() {
 
 String IndexInput::readModifiedUTF8String() {
     int32_t length = readVInt();
+    checkStringLength(this, length);
     CharArray chars(CharArray::newInstance(length));
     return String(chars.get(), readChars(chars.get(), 0, length));
 }
-- 
2.43.0


From 444dffdb7089b9d6d90b8116c536415c54425f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:16 +0000
Subject: [PATCH 43/94] fix: a transaction could release other files than the
 ones it had protected

---
 src/core/index/IndexWriter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 6ba42df..eaba080 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1348,7 +1348,8 @@ void IndexWriter::startTransaction(bool haveReadLock) {
         localFlushedDocCount = docWriter->getFlushedDocCount();
 
         // We must "protect" our files at this point from deletion in case we need to rollback
-        deleter->incRef(segmentInfos, false);
+        // (on the copy: the very same list of files must be released later)
+        deleter->incRef(localRollbackSegmentInfos, false);
 
         success = true;
     } catch (LuceneException& e) {
-- 
2.43.0


From be88bbdc1253d1bc5d240a01363b511aca80a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:02 +0000
Subject: [PATCH 44/94] fix: a commit after deletes had failed to apply could
 be skipped as if nothing had changed

---
 src/core/index/IndexWriter.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index eaba080..71ba0f2 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3043,8 +3043,13 @@ bool IndexWriter::applyDeletes() {
         finally = e;
     }
 
-    if (!success && infoStream) {
-        message(L"hit exception flushing deletes");
+    if (!success) {
+        if (infoStream) {
+            message(L"hit exception flushing deletes");
+        }
+
+        // Some segments may have been changed already, and applying the same deletes again will not tell
+        ++changeCount;
     }
 
     finally.throwException();
-- 
2.43.0


From b85c899a59e5bbb96e9bc975ed12d320104e9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:52 +0000
Subject: [PATCH 45/94] fix: iterators, enumerators and value providers keep
 what they iterate over alive

A FieldCacheRangeFilter inside a ConstantScoreQuery, a SortedVIntList iterator,
the values of a function query and others threw bad_weak_ptr (or, AllTermDocs,
forgot the deletions) as soon as the set or source they belong to was dropped.
---
 include/lucene++/AllTermDocs.h                | 2 +-
 include/lucene++/DoubleFieldSource.h          | 2 +-
 include/lucene++/ScoreCachingWrappingScorer.h | 2 +-
 src/contrib/include/MemoryIndex.h             | 6 +++---
 src/core/include/_ByteFieldSource.h           | 2 +-
 src/core/include/_CustomScoreQuery.h          | 2 +-
 src/core/include/_FieldCacheRangeFilter.h     | 4 ++--
 src/core/include/_IntFieldSource.h            | 2 +-
 src/core/include/_NumericRangeQuery.h         | 2 +-
 src/core/include/_OrdFieldSource.h            | 2 +-
 src/core/include/_ReverseOrdFieldSource.h     | 2 +-
 src/core/include/_SortedVIntList.h            | 2 +-
 src/core/index/AllTermDocs.cpp                | 2 +-
 13 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/lucene++/AllTermDocs.h b/include/lucene++/AllTermDocs.h
index d3f46ef..ea3b714 100644
--- a/include/lucene++/AllTermDocs.h
+++ b/include/lucene++/AllTermDocs.h
@@ -19,7 +19,7 @@ public:
     LUCENE_CLASS(AllTermDocs);
 
 protected:
-    BitVectorWeakPtr _deletedDocs;
+    BitVectorPtr _deletedDocs;
 
 public:
     virtual bool isDeleted(int32_t doc);
diff --git a/include/lucene++/DoubleFieldSource.h b/include/lucene++/DoubleFieldSource.h
index 8934c97..7ac4636 100644
--- a/include/lucene++/DoubleFieldSource.h
+++ b/include/lucene++/DoubleFieldSource.h
@@ -48,7 +48,7 @@ public:
     LUCENE_CLASS(DoubleDocValues);
 
 protected:
-    DoubleFieldSourceWeakPtr _source;
+    DoubleFieldSourcePtr _source;
     Collection<double> arr;
 
 public:
diff --git a/include/lucene++/ScoreCachingWrappingScorer.h b/include/lucene++/ScoreCachingWrappingScorer.h
index 5f1d4b7..6c51181 100644
--- a/include/lucene++/ScoreCachingWrappingScorer.h
+++ b/include/lucene++/ScoreCachingWrappingScorer.h
@@ -28,7 +28,7 @@ public:
     LUCENE_CLASS(ScoreCachingWrappingScorer);
 
 protected:
-    ScorerWeakPtr _scorer;
+    ScorerPtr _scorer;
     int32_t curDoc;
     double curScore;
 
diff --git a/src/contrib/include/MemoryIndex.h b/src/contrib/include/MemoryIndex.h
index 8efc528..bfbf55a 100644
--- a/src/contrib/include/MemoryIndex.h
+++ b/src/contrib/include/MemoryIndex.h
@@ -271,7 +271,7 @@ public:
     LUCENE_CLASS(MemoryIndexTermEnum);
 
 protected:
-    MemoryIndexReaderWeakPtr _reader;
+    MemoryIndexReaderPtr _reader;
     int32_t i;
     int32_t j;
 
@@ -311,7 +311,7 @@ public:
     LUCENE_CLASS(MemoryIndexTermPositions);
 
 protected:
-    MemoryIndexReaderWeakPtr _reader;
+    MemoryIndexReaderPtr _reader;
     bool hasNext;
     int32_t cursor;
     Collection<int32_t> current;
@@ -341,7 +341,7 @@ public:
     LUCENE_CLASS(MemoryIndexTermPositionVector);
 
 protected:
-    MemoryIndexReaderWeakPtr _reader;
+    MemoryIndexReaderPtr _reader;
     CollectionStringIntCollection sortedTerms;
     String fieldName;
 
diff --git a/src/core/include/_ByteFieldSource.h b/src/core/include/_ByteFieldSource.h
index 0bff03f..8a7a834 100644
--- a/src/core/include/_ByteFieldSource.h
+++ b/src/core/include/_ByteFieldSource.h
@@ -19,7 +19,7 @@ public:
     LUCENE_CLASS(ByteDocValues);
 
 protected:
-    ByteFieldSourceWeakPtr _source;
+    ByteFieldSourcePtr _source;
     Collection<uint8_t> arr;
 
 public:
diff --git a/src/core/include/_CustomScoreQuery.h b/src/core/include/_CustomScoreQuery.h
index e952423..615af0a 100644
--- a/src/core/include/_CustomScoreQuery.h
+++ b/src/core/include/_CustomScoreQuery.h
@@ -22,7 +22,7 @@ public:
     LUCENE_CLASS(DefaultCustomScoreProvider);
 
 protected:
-    CustomScoreQueryWeakPtr _customQuery;
+    CustomScoreQueryPtr _customQuery;
 
 public:
     virtual double customScore(int32_t doc, double subQueryScore, Collection<double> valSrcScores);
diff --git a/src/core/include/_FieldCacheRangeFilter.h b/src/core/include/_FieldCacheRangeFilter.h
index 22b52fd..fb38252 100644
--- a/src/core/include/_FieldCacheRangeFilter.h
+++ b/src/core/include/_FieldCacheRangeFilter.h
@@ -229,7 +229,7 @@ public:
     LUCENE_CLASS(FieldDocIdSetIteratorTermDocs);
 
 protected:
-    FieldCacheDocIdSetWeakPtr _cacheDocIdSet;
+    FieldCacheDocIdSetPtr _cacheDocIdSet;
     TermDocsPtr termDocs;
     int32_t doc;
 
@@ -249,7 +249,7 @@ public:
     LUCENE_CLASS(FieldDocIdSetIteratorIncrement);
 
 protected:
-    FieldCacheDocIdSetWeakPtr _cacheDocIdSet;
+    FieldCacheDocIdSetPtr _cacheDocIdSet;
     int32_t doc;
 
 public:
diff --git a/src/core/include/_IntFieldSource.h b/src/core/include/_IntFieldSource.h
index bbf25ae..c9921c8 100644
--- a/src/core/include/_IntFieldSource.h
+++ b/src/core/include/_IntFieldSource.h
@@ -19,7 +19,7 @@ public:
     LUCENE_CLASS(IntDocValues);
 
 protected:
-    IntFieldSourceWeakPtr _source;
+    IntFieldSourcePtr _source;
     Collection<int32_t> arr;
 
 public:
diff --git a/src/core/include/_NumericRangeQuery.h b/src/core/include/_NumericRangeQuery.h
index 66b0b38..6b34ed5 100644
--- a/src/core/include/_NumericRangeQuery.h
+++ b/src/core/include/_NumericRangeQuery.h
@@ -25,7 +25,7 @@ public:
     LUCENE_CLASS(NumericRangeTermEnum);
 
 protected:
-    NumericRangeQueryWeakPtr _query;
+    NumericRangeQueryPtr _query;
     IndexReaderPtr reader;
     Collection<String> rangeBounds;
     TermPtr termTemplate;
diff --git a/src/core/include/_OrdFieldSource.h b/src/core/include/_OrdFieldSource.h
index df0687f..8278554 100644
--- a/src/core/include/_OrdFieldSource.h
+++ b/src/core/include/_OrdFieldSource.h
@@ -19,7 +19,7 @@ public:
     LUCENE_CLASS(OrdDocValues);
 
 protected:
-    OrdFieldSourceWeakPtr _source;
+    OrdFieldSourcePtr _source;
     Collection<int32_t> arr;
 
 public:
diff --git a/src/core/include/_ReverseOrdFieldSource.h b/src/core/include/_ReverseOrdFieldSource.h
index 18c8e28..915ff96 100644
--- a/src/core/include/_ReverseOrdFieldSource.h
+++ b/src/core/include/_ReverseOrdFieldSource.h
@@ -19,7 +19,7 @@ public:
     LUCENE_CLASS(ReverseOrdDocValues);
 
 protected:
-    ReverseOrdFieldSourceWeakPtr _source;
+    ReverseOrdFieldSourcePtr _source;
     Collection<int32_t> arr;
     int32_t end;
 
diff --git a/src/core/include/_SortedVIntList.h b/src/core/include/_SortedVIntList.h
index c5318ef..6703b45 100644
--- a/src/core/include/_SortedVIntList.h
+++ b/src/core/include/_SortedVIntList.h
@@ -19,7 +19,7 @@ public:
     LUCENE_CLASS(SortedDocIdSetIterator);
 
 public:
-    SortedVIntListWeakPtr _list;
+    SortedVIntListPtr _list;
     int32_t bytePos;
     int32_t lastInt;
     int32_t doc;
diff --git a/src/core/index/AllTermDocs.cpp b/src/core/index/AllTermDocs.cpp
index 96186ea..a6e29e0 100644
--- a/src/core/index/AllTermDocs.cpp
+++ b/src/core/index/AllTermDocs.cpp
@@ -20,7 +20,7 @@ AllTermDocs::~AllTermDocs() {
 }
 
 bool AllTermDocs::isDeleted(int32_t doc) {
-    BitVectorPtr deletedDocs(_deletedDocs.lock());
+    BitVectorPtr deletedDocs(_deletedDocs);
     return (deletedDocs && deletedDocs->get(_doc));
 }
 
-- 
2.43.0


From e842063c9a3204b42241b9e2085f5b563769b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:52 +0000
Subject: [PATCH 46/94] fix: numeric ranges with a precision step as wide as
 the value shift by 64 bits

---
 src/core/util/NumericUtils.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/util/NumericUtils.cpp b/src/core/util/NumericUtils.cpp
index 3f3f4f6..7c3c1c3 100644
--- a/src/core/util/NumericUtils.cpp
+++ b/src/core/util/NumericUtils.cpp
@@ -165,6 +165,12 @@ void NumericUtils::splitRange(const LuceneObjectPtr& builder, int32_t valSize, i
         return;
     }
     for (int32_t shift = 0; ; shift += precisionStep) {
+        if (precisionStep >= valSize - shift) {
+            // We are in the lowest precision (the shifts below would exceed the size of the value)
+            addRange(builder, valSize, minBound, maxBound, shift);
+            break; // exit the split recursion loop
+        }
+
         // calculate new bounds for inner precision
         int64_t diff = (int64_t)1 << (shift + precisionStep);
         int64_t mask = (((int64_t)1 << precisionStep) - (int64_t)1) << shift;
@@ -175,8 +181,8 @@ void NumericUtils::splitRange(const LuceneObjectPtr& builder, int32_t valSize, i
         bool lowerWrapped = nextMinBound < minBound;
         bool upperWrapped = nextMaxBound > maxBound;
 
-        if (shift + precisionStep >= valSize || nextMinBound>nextMaxBound || lowerWrapped || upperWrapped) {
-            // We are in the lowest precision or the next precision is not available.
+        if (nextMinBound > nextMaxBound || lowerWrapped || upperWrapped) {
+            // The next precision is not available.
             addRange(builder, valSize, minBound, maxBound, shift);
             break; // exit the split recursion loop
         }
-- 
2.43.0


From b18525c21035b7dcca2bafe3d2c5c442b6686f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:52 +0000
Subject: [PATCH 47/94] fix: half-open numeric ranges were refused although
 documented

---
 src/core/search/NumericRangeQuery.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/search/NumericRangeQuery.cpp b/src/core/search/NumericRangeQuery.cpp
index 384abd2..03d84ca 100644
--- a/src/core/search/NumericRangeQuery.cpp
+++ b/src/core/search/NumericRangeQuery.cpp
@@ -77,10 +77,11 @@ NumericRangeQueryPtr NumericRangeQuery::newDoubleRange(const String& field, doub
 }
 
 NumericRangeQueryPtr NumericRangeQuery::newNumericRange(const String& field, int32_t precisionStep, NumericValue min, NumericValue max, bool minInclusive, bool maxInclusive) {
-    if (!VariantUtils::equalsType(min, max)) {
+    // a null bound leaves the range open on that side
+    if (!VariantUtils::isNull(min) && !VariantUtils::isNull(max) && !VariantUtils::equalsType(min, max)) {
         boost::throw_exception(IllegalArgumentException(L"min/max must be of the same type"));
     }
-    int32_t valSize = VariantUtils::typeOf<int32_t>(min) ? 32 : 64;
+    int32_t valSize = VariantUtils::typeOf<int32_t>(VariantUtils::isNull(min) ? max : min) ? 32 : 64;
     return newLucene<NumericRangeQuery>(field, precisionStep, valSize, min, max, minInclusive, maxInclusive);
 }
 
-- 
2.43.0


From 3b948e90f9ec0ec920bb60f4ac9b51b47255da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:26 +0000
Subject: [PATCH 48/94] fix: field cache range filters with an exclusive upper
 bound of zero matched wrong documents

---
 src/core/include/_FieldCacheRangeFilter.h | 6 +++---
 src/core/search/FieldCacheRangeFilter.cpp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/include/_FieldCacheRangeFilter.h b/src/core/include/_FieldCacheRangeFilter.h
index fb38252..8c69947 100644
--- a/src/core/include/_FieldCacheRangeFilter.h
+++ b/src/core/include/_FieldCacheRangeFilter.h
@@ -105,7 +105,7 @@ public:
         }
         int64_t inclusiveLowerPoint = (int64_t)(includeLower ? lowerVal : (lowerVal + 1));
 
-        if (!includeUpper && upperVal == 0) {
+        if (!includeUpper && upperVal == std::numeric_limits<TYPE>::min()) {
             return DocIdSet::EMPTY_DOCIDSET();
         }
         int64_t inclusiveUpperPoint = (int64_t)(includeUpper ? upperVal : (upperVal - 1));
@@ -123,8 +123,8 @@ public:
     virtual String toString() {
         StringStream buffer;
         buffer << field << L":" << (includeLower ? L"[" : L"{");
-        buffer << lowerVal << L" TO " << lowerVal;
-        buffer << (includeLower ? L"]" : L"}");
+        buffer << lowerVal << L" TO " << upperVal;
+        buffer << (includeUpper ? L"]" : L"}");
         return buffer.str();
     }
 
diff --git a/src/core/search/FieldCacheRangeFilter.cpp b/src/core/search/FieldCacheRangeFilter.cpp
index 7a3e1ae..86367a2 100644
--- a/src/core/search/FieldCacheRangeFilter.cpp
+++ b/src/core/search/FieldCacheRangeFilter.cpp
@@ -5,6 +5,7 @@
 /////////////////////////////////////////////////////////////////////////////
 
 #include "LuceneInc.h"
+#include <cmath>
 #include "FieldCacheRangeFilter.h"
 #include "_FieldCacheRangeFilter.h"
 #include "FieldCache.h"
@@ -213,14 +214,13 @@ DocIdSetPtr FieldCacheRangeFilterDouble::getDocIdSet(const IndexReaderPtr& reade
     if (!includeLower && lowerVal > 0.0 && MiscUtils::isInfinite(lowerVal)) {
         return DocIdSet::EMPTY_DOCIDSET();
     }
-    int64_t lower = NumericUtils::doubleToSortableLong(lowerVal);
-    double inclusiveLowerPoint = NumericUtils::sortableLongToDouble(includeLower ? lower : (lower + 1));
+    // the two zeros are equal here, so the neighbour of a zero is not the other zero
+    double inclusiveLowerPoint = includeLower ? lowerVal : std::nextafter(lowerVal, std::numeric_limits<double>::infinity());
 
     if (!includeUpper && upperVal < 0.0 && MiscUtils::isInfinite(upperVal)) {
         return DocIdSet::EMPTY_DOCIDSET();
     }
-    int64_t upper = NumericUtils::doubleToSortableLong(upperVal);
-    double inclusiveUpperPoint = NumericUtils::sortableLongToDouble(includeUpper ? upper : (upper - 1));
+    double inclusiveUpperPoint = includeUpper ? upperVal : std::nextafter(upperVal, -std::numeric_limits<double>::infinity());
 
     if (inclusiveLowerPoint > inclusiveUpperPoint) {
         return DocIdSet::EMPTY_DOCIDSET();
-- 
2.43.0


From 3af9e6fdaaed0ad72cfba5ec1489f299dd11a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:10 +0000
Subject: [PATCH 49/94] fix: explain of a boolean query ignored a required
 clause that has no scorer

---
 src/core/search/BooleanQuery.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/search/BooleanQuery.cpp b/src/core/search/BooleanQuery.cpp
index 1376d24..be1ca1e 100644
--- a/src/core/search/BooleanQuery.cpp
+++ b/src/core/search/BooleanQuery.cpp
@@ -255,6 +255,10 @@ ExplanationPtr BooleanWeight::explain(const IndexReaderPtr& reader, int32_t doc)
     Collection<BooleanClausePtr>::iterator c = query->clauses.begin();
     for (Collection<WeightPtr>::iterator w = weights.begin(); w != weights.end(); ++w, ++c) {
         if (!(*w)->scorer(reader, true, true)) {
+            if ((*c)->isRequired()) {
+                fail = true;
+                sumExpl->addDetail(newLucene<Explanation>(0.0, L"no match on required clause (" + (*c)->getQuery()->toString() + L")"));
+            }
             continue;
         }
         ExplanationPtr e((*w)->explain(reader, doc));
-- 
2.43.0


From 54280eebddf4827c532b1ec89dbcaa65d5410789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:40 +0000
Subject: [PATCH 50/94] fix: the matches of an unordered span query over
 stacked tokens depended on how they were reached

---
 src/core/include/_NearSpansUnordered.h       | 1 +
 src/core/search/spans/NearSpansUnordered.cpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/core/include/_NearSpansUnordered.h b/src/core/include/_NearSpansUnordered.h
index 02ab540..6d15d5d 100644
--- a/src/core/include/_NearSpansUnordered.h
+++ b/src/core/include/_NearSpansUnordered.h
@@ -41,6 +41,7 @@ protected:
     bool adjust(bool condition);
 
     friend class NearSpansUnordered;
+    friend class CellQueue;
 };
 
 class CellQueue : public PriorityQueue<SpansCellPtr> {
diff --git a/src/core/search/spans/NearSpansUnordered.cpp b/src/core/search/spans/NearSpansUnordered.cpp
index 0bb752c..09371af 100644
--- a/src/core/search/spans/NearSpansUnordered.cpp
+++ b/src/core/search/spans/NearSpansUnordered.cpp
@@ -285,6 +285,9 @@ CellQueue::~CellQueue() {
 
 bool CellQueue::lessThan(const SpansCellPtr& first, const SpansCellPtr& second) {
     if (first->doc() == second->doc()) {
+        if (first->start() == second->start() && first->end() == second->end()) {
+            return first->index < second->index;    // the matches must not depend on how the spans got here
+        }
         return NearSpansOrdered::docSpansOrdered(first, second);
     } else {
         return (first->doc() < second->doc());
-- 
2.43.0


From 9542a0c5f7b8632d90e18cdcc0fb2e96f01645b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:54 +0000
Subject: [PATCH 51/94] fix: rewriting nested single clause queries multiplied
 the boost of the caller's own query

---
 src/core/search/BooleanQuery.cpp        | 5 ++---
 src/core/search/DisjunctionMaxQuery.cpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/core/search/BooleanQuery.cpp b/src/core/search/BooleanQuery.cpp
index be1ca1e..3b09b9f 100644
--- a/src/core/search/BooleanQuery.cpp
+++ b/src/core/search/BooleanQuery.cpp
@@ -91,9 +91,8 @@ QueryPtr BooleanQuery::rewrite(const IndexReaderPtr& reader) {
             QueryPtr query(c->getQuery()->rewrite(reader)); // rewrite first
 
             if (getBoost() != 1.0) { // incorporate boost
-                if (query == c->getQuery()) { // if rewrite was no-op
-                    query = boost::dynamic_pointer_cast<Query>(query->clone());    // then clone before boost
-                }
+                // clone before boost: what a nested query rewrites to can still be the caller's own query
+                query = boost::dynamic_pointer_cast<Query>(query->clone());
                 query->setBoost(getBoost() * query->getBoost());
             }
 
diff --git a/src/core/search/DisjunctionMaxQuery.cpp b/src/core/search/DisjunctionMaxQuery.cpp
index b35f1fe..8579ea3 100644
--- a/src/core/search/DisjunctionMaxQuery.cpp
+++ b/src/core/search/DisjunctionMaxQuery.cpp
@@ -57,9 +57,8 @@ QueryPtr DisjunctionMaxQuery::rewrite(const IndexReaderPtr& reader) {
         QueryPtr singleton(disjuncts[0]);
         QueryPtr result(singleton->rewrite(reader));
         if (getBoost() != 1.0) {
-            if (result == singleton) {
-                result = boost::dynamic_pointer_cast<Query>(result->clone());
-            }
+            // clone before boost: what a nested query rewrites to can still be the caller's own query
+            result = boost::dynamic_pointer_cast<Query>(result->clone());
             result->setBoost(getBoost() * result->getBoost());
         }
         return result;
-- 
2.43.0


From a7b451744d3814bd7bf04b80f827731d834d14e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:45 +0000
Subject: [PATCH 52/94] fix: norms of a parallel reader were zero for a field
 that none of its readers has

---
 src/core/index/ParallelReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/index/ParallelReader.cpp b/src/core/index/ParallelReader.cpp
index 80368b6..dd93dee 100644
--- a/src/core/index/ParallelReader.cpp
+++ b/src/core/index/ParallelReader.cpp
@@ -12,6 +12,8 @@
 #include "Term.h"
 #include "FieldCache.h"
 #include "StringUtils.h"
+#include "MiscUtils.h"
+#include "DefaultSimilarity.h"
 
 namespace Lucene {
 
@@ -269,6 +271,8 @@ void ParallelReader::norms(const String& field, ByteArray norms, int32_t offset)
     MapStringIndexReader::iterator reader = fieldToReader.find(field);
     if (reader != fieldToReader.end()) {
         reader->second->norms(field, norms, offset);
+    } else {
+        MiscUtils::arrayFill(norms.get(), offset, offset + maxDoc(), DefaultSimilarity::encodeNorm(1.0));
     }
 }
 
-- 
2.43.0


From e932fcd162c4379f41131f6419cbbdaff14762ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:45 +0000
Subject: [PATCH 53/94] fix: terms of a parallel reader from a term that its
 field does not reach ended instead of going on with the next field

---
 src/core/include/_ParallelReader.h |  3 +++
 src/core/index/ParallelReader.cpp  | 22 +++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/core/include/_ParallelReader.h b/src/core/include/_ParallelReader.h
index 53f6f59..274d517 100644
--- a/src/core/include/_ParallelReader.h
+++ b/src/core/include/_ParallelReader.h
@@ -26,6 +26,9 @@ protected:
     String field;
     MapStringIndexReader::iterator fieldIterator;
     bool setIterator;
+
+    /// Moves to the first term of the next field that has terms.
+    bool nextField();
     TermEnumPtr termEnum;
 
 public:
diff --git a/src/core/index/ParallelReader.cpp b/src/core/index/ParallelReader.cpp
index dd93dee..7b9176a 100644
--- a/src/core/index/ParallelReader.cpp
+++ b/src/core/index/ParallelReader.cpp
@@ -399,7 +399,20 @@ ParallelTermEnum::ParallelTermEnum(const ParallelReaderPtr& reader, const TermPt
     MapStringIndexReader::iterator indexReader = reader->fieldToReader.find(field);
     if (indexReader != reader->fieldToReader.end()) {
         this->termEnum = indexReader->second->terms(term);
+        TermPtr current(termEnum->term());
+        if (current && current->field() == field) {
+            return;
+        }
+        termEnum->close();
+    }
+
+    // no such term in this field: go on with the first term of the next field with terms, if any
+    fieldIterator = reader->fieldToReader.begin();
+    while (fieldIterator != reader->fieldToReader.end() && fieldIterator->first <= field) {
+        ++fieldIterator;
     }
+    setIterator = true;
+    nextField();
 }
 
 ParallelTermEnum::~ParallelTermEnum() {
@@ -422,9 +435,15 @@ bool ParallelTermEnum::next() {
     if (!setIterator) {
         fieldIterator = reader->fieldToReader.find(field);
         ++fieldIterator; // Skip field to get next one
-        setIterator = false;
+        setIterator = true;
     }
 
+    return nextField();
+}
+
+bool ParallelTermEnum::nextField() {
+    ParallelReaderPtr reader(_reader);
+
     while (fieldIterator != reader->fieldToReader.end()) {
         field = fieldIterator->first;
         termEnum = fieldIterator->second->terms(newLucene<Term>(field));
@@ -437,6 +456,7 @@ bool ParallelTermEnum::next() {
         }
     }
 
+    termEnum.reset();
     return false; // no more fields
 }
 
-- 
2.43.0


From b808b8f1d3ae9b6b39756d9fb2879b013a4a225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:45 +0000
Subject: [PATCH 54/94] fix: a second sort by document was left relative to the
 sub searcher

---
 src/core/search/MultiSearcher.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/search/MultiSearcher.cpp b/src/core/search/MultiSearcher.cpp
index d327690..9c17307 100644
--- a/src/core/search/MultiSearcher.cpp
+++ b/src/core/search/MultiSearcher.cpp
@@ -298,7 +298,6 @@ TopFieldDocsPtr MultiSearcherCallableWithSort::call() {
                 FieldDocPtr fd(boost::dynamic_pointer_cast<FieldDoc>(docs->scoreDocs[j2]));
                 fd->fields[j] = VariantUtils::get<int32_t>(fd->fields[j]) + starts[i];
             }
-            break;
         }
     }
 
-- 
2.43.0


From 6b515faf38063f82103e00f37045c629a950989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:45 +0000
Subject: [PATCH 55/94] fix: combining rewritten queries lost the minimum
 number of clauses, the boost and repeated clauses

---
 src/core/search/Query.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/search/Query.cpp b/src/core/search/Query.cpp
index e9d2714..5c1515e 100644
--- a/src/core/search/Query.cpp
+++ b/src/core/search/Query.cpp
@@ -58,6 +58,15 @@ QueryPtr Query::rewrite(const IndexReaderPtr& reader) {
 }
 
 QueryPtr Query::combine(Collection<QueryPtr> queries) {
+    // when the query has been rewritten in the same way everywhere, there is nothing to combine
+    bool same = !queries.empty();
+    for (int32_t i = 1; same && i < queries.size(); ++i) {
+        same = queries[i]->equals(queries[0]);
+    }
+    if (same) {
+        return queries[0];
+    }
+
     SetQuery uniques(SetQuery::newInstance());
     for (Collection<QueryPtr>::iterator query = queries.begin(); query != queries.end(); ++query) {
         Collection<BooleanClausePtr> clauses;
@@ -65,7 +74,7 @@ QueryPtr Query::combine(Collection<QueryPtr> queries) {
         // check if we can split the query into clauses
         bool splittable = bq.get() != NULL;
         if (splittable) {
-            splittable = bq->isCoordDisabled();
+            splittable = bq->isCoordDisabled() && bq->getMinimumNumberShouldMatch() == 0 && bq->getBoost() == 1.0;
             clauses = bq->getClauses();
             for (Collection<BooleanClausePtr>::iterator clause = clauses.begin(); splittable && clause != clauses.end(); ++clause) {
                 splittable = ((*clause)->getOccur() == BooleanClause::SHOULD);
-- 
2.43.0


From 8854f76faa29c75a238ac0184cf935322b58a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:10 +0000
Subject: [PATCH 56/94] fix: numDocs of a parallel reader did not follow
 deletions made through it

---
 src/core/index/ParallelReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/ParallelReader.cpp b/src/core/index/ParallelReader.cpp
index 7b9176a..4c0d18e 100644
--- a/src/core/index/ParallelReader.cpp
+++ b/src/core/index/ParallelReader.cpp
@@ -157,7 +157,7 @@ IndexReaderPtr ParallelReader::doReopen(bool doClone) {
 
 int32_t ParallelReader::numDocs() {
     // Don't call ensureOpen() here (it could affect performance)
-    return _numDocs;
+    return readers.empty() ? _numDocs : readers[0]->numDocs();
 }
 
 int32_t ParallelReader::maxDoc() {
-- 
2.43.0


From f72f9d7ac48f65637fb59cfdbe5b9a4a1e0e331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:53 +0000
Subject: [PATCH 57/94] fix: field cache filled through a reader with deletions
 lacked documents that other readers of the segment still see

---
 include/lucene++/SegmentTermDocs.h |  3 +++
 src/core/index/SegmentTermDocs.cpp |  5 +++++
 src/core/search/FieldCacheImpl.cpp | 23 +++++++++++++++++------
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/lucene++/SegmentTermDocs.h b/include/lucene++/SegmentTermDocs.h
index 0eb9234..9b39617 100644
--- a/include/lucene++/SegmentTermDocs.h
+++ b/include/lucene++/SegmentTermDocs.h
@@ -54,6 +54,9 @@ public:
 
     virtual void close();
 
+    /// Goes over all documents from now on, deleted ones too.
+    void includeDeletedDocs();
+
     /// Returns the current document number.
     virtual int32_t doc();
 
diff --git a/src/core/index/SegmentTermDocs.cpp b/src/core/index/SegmentTermDocs.cpp
index 7e17b9e..d8aa727 100644
--- a/src/core/index/SegmentTermDocs.cpp
+++ b/src/core/index/SegmentTermDocs.cpp
@@ -49,6 +49,11 @@ SegmentTermDocs::SegmentTermDocs(const SegmentReaderPtr& parent) {
 SegmentTermDocs::~SegmentTermDocs() {
 }
 
+void SegmentTermDocs::includeDeletedDocs() {
+    deletedDocs.reset();
+    __deletedDocs = NULL;
+}
+
 void SegmentTermDocs::seek(const TermPtr& term) {
     TermInfoPtr ti(__parent->core->getTermsReader()->get(term));
     seek(ti, term);
diff --git a/src/core/search/FieldCacheImpl.cpp b/src/core/search/FieldCacheImpl.cpp
index aabcbff..aee968c 100644
--- a/src/core/search/FieldCacheImpl.cpp
+++ b/src/core/search/FieldCacheImpl.cpp
@@ -11,12 +11,23 @@
 #include "InfoStream.h"
 #include "TermEnum.h"
 #include "TermDocs.h"
+#include "SegmentTermDocs.h"
 #include "Term.h"
 #include "StringUtils.h"
 #include "VariantUtils.h"
 
 namespace Lucene {
 
+/// The values are shared by all readers of a segment, whatever documents they see as deleted.
+static TermDocsPtr allTermDocs(const IndexReaderPtr& reader) {
+    TermDocsPtr termDocs(reader->termDocs());
+    SegmentTermDocsPtr segmentTermDocs(boost::dynamic_pointer_cast<SegmentTermDocs>(termDocs));
+    if (segmentTermDocs) {
+        segmentTermDocs->includeDeletedDocs();
+    }
+    return termDocs;
+}
+
 FieldCacheImpl::FieldCacheImpl() {
 }
 
@@ -220,7 +231,7 @@ boost::any ByteCache::createValue(const IndexReaderPtr& reader, const EntryPtr&
         return FieldCachePtr(_wrapper)->getBytes(reader, field, FieldCache::DEFAULT_BYTE_PARSER());
     }
     Collection<uint8_t> retArray(Collection<uint8_t>::newInstance(reader->maxDoc()));
-    TermDocsPtr termDocs(reader->termDocs());
+    TermDocsPtr termDocs(allTermDocs(reader));
     TermEnumPtr termEnum(reader->terms(newLucene<Term>(field)));
     LuceneException finally;
     try {
@@ -266,7 +277,7 @@ boost::any IntCache::createValue(const IndexReaderPtr& reader, const EntryPtr& k
         return ints;
     }
     Collection<int32_t> retArray;
-    TermDocsPtr termDocs(reader->termDocs());
+    TermDocsPtr termDocs(allTermDocs(reader));
     TermEnumPtr termEnum(reader->terms(newLucene<Term>(field)));
     LuceneException finally;
     try {
@@ -318,7 +329,7 @@ boost::any LongCache::createValue(const IndexReaderPtr& reader, const EntryPtr&
         return longs;
     }
     Collection<int64_t> retArray;
-    TermDocsPtr termDocs(reader->termDocs());
+    TermDocsPtr termDocs(allTermDocs(reader));
     TermEnumPtr termEnum(reader->terms(newLucene<Term>(field)));
     LuceneException finally;
     try {
@@ -370,7 +381,7 @@ boost::any DoubleCache::createValue(const IndexReaderPtr& reader, const EntryPtr
         return doubles;
     }
     Collection<double> retArray;
-    TermDocsPtr termDocs(reader->termDocs());
+    TermDocsPtr termDocs(allTermDocs(reader));
     TermEnumPtr termEnum(reader->terms(newLucene<Term>(field)));
     LuceneException finally;
     try {
@@ -411,7 +422,7 @@ boost::any StringCache::createValue(const IndexReaderPtr& reader, const EntryPtr
     EntryPtr entry(key);
     String field(entry->field);
     Collection<String> retArray(Collection<String>::newInstance(reader->maxDoc()));
-    TermDocsPtr termDocs(reader->termDocs());
+    TermDocsPtr termDocs(allTermDocs(reader));
     TermEnumPtr termEnum(reader->terms(newLucene<Term>(field)));
     LuceneException finally;
     try {
@@ -446,7 +457,7 @@ boost::any StringIndexCache::createValue(const IndexReaderPtr& reader, const Ent
     String field(entry->field);
     Collection<int32_t> retArray(Collection<int32_t>::newInstance(reader->maxDoc()));
     Collection<String> mterms(Collection<String>::newInstance(reader->maxDoc() + 1));
-    TermDocsPtr termDocs(reader->termDocs());
+    TermDocsPtr termDocs(allTermDocs(reader));
     TermEnumPtr termEnum(reader->terms(newLucene<Term>(field)));
     int32_t t = 0; // current term number
 
-- 
2.43.0


From 701cccb9cb03e040af5c413ca6d415e6c1eb40a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:53 +0000
Subject: [PATCH 58/94] fix: cached filters were not recomputed after more
 deletions through the same reader

---
 include/lucene++/SegmentReader.h | 3 +++
 src/core/index/SegmentReader.cpp | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/lucene++/SegmentReader.h b/include/lucene++/SegmentReader.h
index 445262a..7e0714a 100644
--- a/include/lucene++/SegmentReader.h
+++ b/include/lucene++/SegmentReader.h
@@ -25,6 +25,9 @@ protected:
 INTERNAL:
     BitVectorPtr deletedDocs;
     SegmentReaderRefPtr deletedDocsRef;
+
+    /// Identifies the deleted documents for caches, replaced whenever they change.
+    LuceneObjectPtr deletesCacheKey;
     CoreReadersPtr core;
     FieldsReaderLocalPtr fieldsReaderLocal;
     SegmentInfoPtr rollbackSegmentInfo;
diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 21be946..55edeff 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -108,6 +108,7 @@ void SegmentReader::loadDeletedDocs() {
     if (hasDeletions(si)) {
         deletedDocs = newLucene<BitVector>(directory(), si->getDelFileName());
         deletedDocsRef = newLucene<SegmentReaderRef>();
+        deletesCacheKey = newLucene<SegmentReaderRef>();
         BOOST_ASSERT(checkDeletedCounts());
     } else {
         BOOST_ASSERT(si->getDelCount() == 0);
@@ -195,6 +196,7 @@ SegmentReaderPtr SegmentReader::reopenSegment(const SegmentInfoPtr& si, bool doC
                 deletedDocsRef->incRef();
                 clone->deletedDocs = deletedDocs;
                 clone->deletedDocsRef = deletedDocsRef;
+                clone->deletesCacheKey = deletesCacheKey;
             }
         } else {
             if (!deletionsUpToDate) {
@@ -205,6 +207,7 @@ SegmentReaderPtr SegmentReader::reopenSegment(const SegmentInfoPtr& si, bool doC
                 deletedDocsRef->incRef();
                 clone->deletedDocs = deletedDocs;
                 clone->deletedDocsRef = deletedDocsRef;
+                clone->deletesCacheKey = deletesCacheKey;
             }
         }
 
@@ -356,6 +359,7 @@ void SegmentReader::doDelete(int32_t docNum) {
     deletedDocsDirty = true;
     if (!deletedDocs->getAndSet(docNum)) {
         ++pendingDeleteCount;
+        deletesCacheKey = newLucene<SegmentReaderRef>();
     }
 }
 
@@ -366,6 +370,7 @@ void SegmentReader::doUndeleteAll() {
         deletedDocsRef->decRef();
         deletedDocs.reset();
         deletedDocsRef.reset();
+        deletesCacheKey.reset();
         pendingDeleteCount = 0;
         si->clearDelGen();
         si->setDelCount(0);
@@ -706,7 +711,8 @@ LuceneObjectPtr SegmentReader::getFieldCacheKey() {
 }
 
 LuceneObjectPtr SegmentReader::getDeletesCacheKey() {
-    return deletedDocs;
+    SyncLock syncLock(this);
+    return deletesCacheKey;
 }
 
 int64_t SegmentReader::getUniqueTermCount() {
-- 
2.43.0


From ecb43b54129ba14537acbb4ffc6063470356378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:53 +0000
Subject: [PATCH 59/94] fix: putting a key of an LRU cache again kept the old
 entry, whose eviction lost the new one

---
 include/lucene++/SimpleLRUCache.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lucene++/SimpleLRUCache.h b/include/lucene++/SimpleLRUCache.h
index 8db6707..b09847b 100644
--- a/include/lucene++/SimpleLRUCache.h
+++ b/include/lucene++/SimpleLRUCache.h
@@ -38,6 +38,10 @@ protected:
 
 public:
     void put(const KEY& key, const VALUE& value) {
+        map_iterator find = cacheMap.find(key);
+        if (find != cacheMap.end()) {
+            cacheList.erase(find->second);
+        }
         cacheList.push_front(std::make_pair(key, value));
         cacheMap[key] = cacheList.begin();
 
-- 
2.43.0


From 2075d323ba76c536d0efa599f86736954b32f10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:53 +0000
Subject: [PATCH 60/94] fix: the filter manager returned a different filter
 with the same hash code

---
 src/core/search/FilterManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/search/FilterManager.cpp b/src/core/search/FilterManager.cpp
index c598bc4..727b951 100644
--- a/src/core/search/FilterManager.cpp
+++ b/src/core/search/FilterManager.cpp
@@ -53,7 +53,7 @@ void FilterManager::setCleanThreadSleepTime(int64_t cleanSleepTime) {
 FilterPtr FilterManager::getFilter(const FilterPtr& filter) {
     SyncLock parentLock(&cache);
     FilterItemPtr fi(cache.get(filter->hashCode()));
-    if (fi) {
+    if (fi && fi->filter->equals(filter)) {
         fi->timestamp = MiscUtils::currentTimeMillis();
         return fi->filter;
     }
-- 
2.43.0


From 05ce1066289f19f720dd9e7ce00d5347a9c78eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:21 +0000
Subject: [PATCH 61/94] fix: field cache filters matched documents deleted
 since the cache was filled

---
 src/core/include/_FieldCacheTermsFilter.h | 19 +++++++++++++++++++
 src/core/search/FieldCacheRangeFilter.cpp |  6 +++---
 src/core/search/FieldCacheTermsFilter.cpp | 20 +++++++++++++++++++-
 3 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/core/include/_FieldCacheTermsFilter.h b/src/core/include/_FieldCacheTermsFilter.h
index 68708bd..15a160b 100644
--- a/src/core/include/_FieldCacheTermsFilter.h
+++ b/src/core/include/_FieldCacheTermsFilter.h
@@ -9,6 +9,7 @@
 
 #include "DocIdSet.h"
 #include "DocIdSetIterator.h"
+#include "FilteredDocIdSet.h"
 
 namespace Lucene {
 
@@ -30,6 +31,24 @@ public:
     virtual bool isCacheable();
 };
 
+/// Leaves out the deleted documents of a reader.
+class FieldCacheTermsFilterLiveDocIdSet : public FilteredDocIdSet {
+public:
+    FieldCacheTermsFilterLiveDocIdSet(const IndexReaderPtr& reader, const DocIdSetPtr& innerSet);
+    virtual ~FieldCacheTermsFilterLiveDocIdSet();
+
+    LUCENE_CLASS(FieldCacheTermsFilterLiveDocIdSet);
+
+protected:
+    IndexReaderPtr reader;
+
+public:
+    virtual bool isCacheable();
+
+protected:
+    virtual bool match(int32_t docid);
+};
+
 class FieldCacheTermsFilterDocIdSetIterator : public DocIdSetIterator {
 public:
     FieldCacheTermsFilterDocIdSetIterator(const StringIndexPtr& fcsi, const OpenBitSetPtr& openBitSet);
diff --git a/src/core/search/FieldCacheRangeFilter.cpp b/src/core/search/FieldCacheRangeFilter.cpp
index 86367a2..5ba48c1 100644
--- a/src/core/search/FieldCacheRangeFilter.cpp
+++ b/src/core/search/FieldCacheRangeFilter.cpp
@@ -243,13 +243,13 @@ FieldCacheDocIdSet::~FieldCacheDocIdSet() {
 }
 
 bool FieldCacheDocIdSet::isCacheable() {
-    return !(mayUseTermDocs && reader->hasDeletions());
+    return !reader->hasDeletions();
 }
 
 DocIdSetIteratorPtr FieldCacheDocIdSet::iterator() {
     // Synchronization needed because deleted docs BitVector can change after call to hasDeletions until
-    // TermDocs creation.  We only use an iterator with termDocs, when this was requested (eg. range
-    // contains 0) and the index has deletions
+    // TermDocs creation.  We only use an iterator with termDocs, when the index has deletions: the
+    // field cache has values for deleted documents too
     TermDocsPtr termDocs;
     {
         SyncLock instancesLock(reader);
diff --git a/src/core/search/FieldCacheTermsFilter.cpp b/src/core/search/FieldCacheTermsFilter.cpp
index 32ca0a4..6374ab0 100644
--- a/src/core/search/FieldCacheTermsFilter.cpp
+++ b/src/core/search/FieldCacheTermsFilter.cpp
@@ -8,6 +8,7 @@
 #include "FieldCacheTermsFilter.h"
 #include "_FieldCacheTermsFilter.h"
 #include "FieldCache.h"
+#include "IndexReader.h"
 #include "OpenBitSet.h"
 
 namespace Lucene {
@@ -25,7 +26,24 @@ FieldCachePtr FieldCacheTermsFilter::getFieldCache() {
 }
 
 DocIdSetPtr FieldCacheTermsFilter::getDocIdSet(const IndexReaderPtr& reader) {
-    return newLucene<FieldCacheTermsFilterDocIdSet>(terms, getFieldCache()->getStringIndex(reader, field));
+    DocIdSetPtr docIdSet(newLucene<FieldCacheTermsFilterDocIdSet>(terms, getFieldCache()->getStringIndex(reader, field)));
+    // the field cache has values for deleted documents too
+    return reader->hasDeletions() ? newLucene<FieldCacheTermsFilterLiveDocIdSet>(reader, docIdSet) : docIdSet;
+}
+
+FieldCacheTermsFilterLiveDocIdSet::FieldCacheTermsFilterLiveDocIdSet(const IndexReaderPtr& reader, const DocIdSetPtr& innerSet) : FilteredDocIdSet(innerSet) {
+    this->reader = reader;
+}
+
+FieldCacheTermsFilterLiveDocIdSet::~FieldCacheTermsFilterLiveDocIdSet() {
+}
+
+bool FieldCacheTermsFilterLiveDocIdSet::isCacheable() {
+    return false;
+}
+
+bool FieldCacheTermsFilterLiveDocIdSet::match(int32_t docid) {
+    return !reader->isDeleted(docid);
 }
 
 FieldCacheTermsFilterDocIdSet::FieldCacheTermsFilterDocIdSet(Collection<String> terms, const StringIndexPtr& fcsi) {
-- 
2.43.0


From 7c8da88243773845820eb7f8b52b3362883af2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:27 +0000
Subject: [PATCH 62/94] fix: field cache of a composite reader lacked documents
 brought back by undeleteAll

---
 src/core/index/IndexReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/index/IndexReader.cpp b/src/core/index/IndexReader.cpp
index a6cd337..d80f2b9 100644
--- a/src/core/index/IndexReader.cpp
+++ b/src/core/index/IndexReader.cpp
@@ -8,6 +8,7 @@
 #include <boost/filesystem/fstream.hpp>
 #include <iostream>
 #include "IndexReader.h"
+#include "FieldCache.h"
 #include "_IndexReader.h"
 #include "DirectoryReader.h"
 #include "IndexDeletionPolicy.h"
@@ -250,6 +251,9 @@ void IndexReader::undeleteAll() {
     acquireWriteLock();
     _hasChanges = true;
     doUndeleteAll();
+
+    // field cache entries of a composite reader do not have values for the documents that were deleted
+    FieldCache::DEFAULT()->purge(shared_from_this());
 }
 
 void IndexReader::acquireWriteLock() {
-- 
2.43.0


From 2f45e5fdbc7448f9aa1e506e2ca01a71b523ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:42 +0000
Subject: [PATCH 63/94] fix: cached field cache filters followed the deletions
 of the reader they were made for

---
 src/core/include/_FieldCacheRangeFilter.h |  1 +
 src/core/search/CachingWrapperFilter.cpp  |  3 ++-
 src/core/search/FieldCacheRangeFilter.cpp | 14 +++++---------
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/core/include/_FieldCacheRangeFilter.h b/src/core/include/_FieldCacheRangeFilter.h
index 8c69947..86fe5fa 100644
--- a/src/core/include/_FieldCacheRangeFilter.h
+++ b/src/core/include/_FieldCacheRangeFilter.h
@@ -44,6 +44,7 @@ public:
 protected:
     IndexReaderPtr reader;
     bool mayUseTermDocs;
+    bool hasDeletions;
 
 public:
     /// This method checks, if a doc is a hit, should throw ArrayIndexOutOfBounds, when position invalid
diff --git a/src/core/search/CachingWrapperFilter.cpp b/src/core/search/CachingWrapperFilter.cpp
index c04f965..0c4110c 100644
--- a/src/core/search/CachingWrapperFilter.cpp
+++ b/src/core/search/CachingWrapperFilter.cpp
@@ -26,7 +26,8 @@ DocIdSetPtr CachingWrapperFilter::docIdSetToCache(const DocIdSetPtr& docIdSet, c
     if (!docIdSet) {
         // this is better than returning null, as the nonnull result can be cached
         return DocIdSet::EMPTY_DOCIDSET();
-    } else if (docIdSet->isCacheable()) {
+    } else if (docIdSet->isCacheable() && !reader->hasDeletions()) {
+        // a set that still looks at the deletions of its reader must not be shared with other readers
         return docIdSet;
     } else {
         DocIdSetIteratorPtr it(docIdSet->iterator());
diff --git a/src/core/search/FieldCacheRangeFilter.cpp b/src/core/search/FieldCacheRangeFilter.cpp
index 5ba48c1..b351fcd 100644
--- a/src/core/search/FieldCacheRangeFilter.cpp
+++ b/src/core/search/FieldCacheRangeFilter.cpp
@@ -237,24 +237,20 @@ Collection<double> FieldCacheRangeFilterDouble::getValues(const IndexReaderPtr&
 FieldCacheDocIdSet::FieldCacheDocIdSet(const IndexReaderPtr& reader, bool mayUseTermDocs) {
     this->reader = reader;
     this->mayUseTermDocs = mayUseTermDocs;
+    this->hasDeletions = reader->hasDeletions();
 }
 
 FieldCacheDocIdSet::~FieldCacheDocIdSet() {
 }
 
 bool FieldCacheDocIdSet::isCacheable() {
-    return !reader->hasDeletions();
+    return !(mayUseTermDocs && hasDeletions);
 }
 
 DocIdSetIteratorPtr FieldCacheDocIdSet::iterator() {
-    // Synchronization needed because deleted docs BitVector can change after call to hasDeletions until
-    // TermDocs creation.  We only use an iterator with termDocs, when the index has deletions: the
-    // field cache has values for deleted documents too
-    TermDocsPtr termDocs;
-    {
-        SyncLock instancesLock(reader);
-        termDocs = isCacheable() ? TermDocsPtr() : reader->termDocs(TermPtr());
-    }
+    // We only use an iterator with termDocs, when the index had deletions: the field cache has values for
+    // deleted documents too
+    TermDocsPtr termDocs(hasDeletions ? reader->termDocs(TermPtr()) : TermDocsPtr());
     if (termDocs) {
         // a DocIdSetIterator using TermDocs to iterate valid docIds
         return newLucene<FieldDocIdSetIteratorTermDocs>(shared_from_this(), termDocs);
-- 
2.43.0


From 0abefd040ea670253bd352a52275a25a36551e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:13 +0000
Subject: [PATCH 64/94] fix: a RAM file that grew was read beyond the length
 its input had been opened with

---
 src/core/store/RAMInputStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/store/RAMInputStream.cpp b/src/core/store/RAMInputStream.cpp
index ed8db01..5b302a2 100644
--- a/src/core/store/RAMInputStream.cpp
+++ b/src/core/store/RAMInputStream.cpp
@@ -75,7 +75,7 @@ void RAMInputStream::readBytes(uint8_t* b, int32_t offset, int32_t length) {
 }
 
 void RAMInputStream::switchCurrentBuffer(bool enforceEOF) {
-    if (currentBufferIndex >= file->numBuffers()) {
+    if (currentBufferIndex >= file->numBuffers() || (int64_t)BUFFER_SIZE * (int64_t)currentBufferIndex >= _length) {
         // end of file reached, no more buffers left
         if (enforceEOF) {
             boost::throw_exception(IOException(L"Read past EOF"));
-- 
2.43.0


From bd488511807584faa52064b84efc516d55e4f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:13 +0000
Subject: [PATCH 65/94] fix: StringReader lost the text after a null character
 and read beyond a closed string

---
 src/core/util/StringReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/util/StringReader.cpp b/src/core/util/StringReader.cpp
index 81f83e1..db4f5c9 100644
--- a/src/core/util/StringReader.cpp
+++ b/src/core/util/StringReader.cpp
@@ -18,7 +18,7 @@ StringReader::~StringReader() {
 }
 
 int32_t StringReader::read() {
-    return position == (int32_t)str.length() ? READER_EOF : (int32_t)str[position++];
+    return position >= (int32_t)str.length() ? READER_EOF : (int32_t)str[position++];
 }
 
 int32_t StringReader::read(wchar_t* buffer, int32_t offset, int32_t length) {
@@ -26,7 +26,7 @@ int32_t StringReader::read(wchar_t* buffer, int32_t offset, int32_t length) {
         return READER_EOF;
     }
     int32_t readChars = std::min(length, (int32_t)str.length() - position);
-    std::wcsncpy(buffer + offset, str.c_str() + position, readChars);
+    str.copy(buffer + offset, readChars, position);
     position += readChars;
     return readChars;
 }
-- 
2.43.0


From faa6c3665710d87cd98627cc64f9ffa8de66b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:13 +0000
Subject: [PATCH 66/94] fix: a reset InputStreamReader went on with the bytes
 it had buffered

---
 src/core/util/InputStreamReader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/util/InputStreamReader.cpp b/src/core/util/InputStreamReader.cpp
index ceefafd..3eda374 100644
--- a/src/core/util/InputStreamReader.cpp
+++ b/src/core/util/InputStreamReader.cpp
@@ -12,16 +12,16 @@
 namespace Lucene {
 
 InputStreamReader::InputStreamReader(const ReaderPtr& reader) {
-    this->reader = reader;
-    this->decoder = newLucene<UTF8DecoderStream>(newLucene<BufferedReader>(reader, 1024));
+    this->reader = newLucene<BufferedReader>(reader, 1024);
+    this->decoder = newLucene<UTF8DecoderStream>(this->reader);
 }
 
 InputStreamReader::~InputStreamReader() {
 }
 
 int32_t InputStreamReader::read() {
-    int32_t buffer;
-    return read((wchar_t*)&buffer, 0, 1) == READER_EOF ? READER_EOF : buffer;
+    wchar_t buffer;
+    return read(&buffer, 0, 1) == READER_EOF ? READER_EOF : (int32_t)buffer;
 }
 
 int32_t InputStreamReader::read(wchar_t* b, int32_t offset, int32_t length) {
-- 
2.43.0


From 77459e93bc1267b440c41ea170fe03f54adaa83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:13 +0000
Subject: [PATCH 67/94] fix: numbers converted to a small base were cut at 32
 digits, negative ones read beyond the digits

---
 src/core/util/StringUtils.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/util/StringUtils.cpp b/src/core/util/StringUtils.cpp
index 7647410..e3cade5 100644
--- a/src/core/util/StringUtils.cpp
+++ b/src/core/util/StringUtils.cpp
@@ -181,16 +181,20 @@ int32_t StringUtils::hashCode(const String& value) {
 String StringUtils::toString(int64_t value, int32_t base) {
     static const wchar_t* digits = L"0123456789abcdefghijklmnopqrstuvwxyz";
 
-    int32_t bufferSize = (sizeof(int32_t) << 3) + 1;
+    int32_t bufferSize = (sizeof(int64_t) << 3) + 2; // sign, digits and terminator
     CharArray baseOutput(CharArray::newInstance(bufferSize));
 
     wchar_t* ptr = baseOutput.get() + bufferSize - 1;
     *ptr = L'\0';
 
+    uint64_t remaining = value < 0 ? 0 - (uint64_t)value : (uint64_t)value;
     do {
-        *--ptr = digits[value % base];
-        value /= base;
-    } while (ptr > baseOutput.get() && value > 0);
+        *--ptr = digits[remaining % (uint64_t)base];
+        remaining /= (uint64_t)base;
+    } while (remaining > 0);
+    if (value < 0) {
+        *--ptr = L'-';
+    }
 
     return String(ptr, (baseOutput.get() + bufferSize - 1) - ptr);
 }
-- 
2.43.0


From 4228d4ba94fed93fd2faeda12a00234bc31b73d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:14 +0000
Subject: [PATCH 68/94] fix: DateField cut the leading digits of a time that is
 too late

---
 src/core/document/DateField.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/document/DateField.cpp b/src/core/document/DateField.cpp
index 6cbc92a..e25db82 100644
--- a/src/core/document/DateField.cpp
+++ b/src/core/document/DateField.cpp
@@ -51,7 +51,11 @@ String DateField::timeToString(int64_t time) {
     }
 
     String timeString(DATE_LEN(), L'0');
-    timeString += StringUtils::toString(time, StringUtils::CHARACTER_MAX_RADIX);
+    String digits(StringUtils::toString(time, StringUtils::CHARACTER_MAX_RADIX));
+    if ((int32_t)digits.length() > DATE_LEN()) {
+        boost::throw_exception(RuntimeException(L"time '" + StringUtils::toString(time) + L"' is too late, length of string must be <= " + StringUtils::toString(DATE_LEN())));
+    }
+    timeString += digits;
 
     return timeString.substr(timeString.length() - DATE_LEN(), DATE_LEN());
 }
-- 
2.43.0


From 8fd67b174ec4c688e293f7a9d1883cfebc8c2ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:30 +0000
Subject: [PATCH 69/94] fix: text with one invalid or noncharacter code point,
 or one damaged UTF-8 sequence, was dropped as a whole

---
 include/lucene++/UTF8Stream.h        |   8 ++
 src/core/index/TermsHashPerField.cpp |   4 +-
 src/core/util/UTF8Stream.cpp         | 136 +++++++++++++++++----------
 3 files changed, 94 insertions(+), 54 deletions(-)

diff --git a/include/lucene++/UTF8Stream.h b/include/lucene++/UTF8Stream.h
index 0a56f01..467d1b7 100644
--- a/include/lucene++/UTF8Stream.h
+++ b/include/lucene++/UTF8Stream.h
@@ -13,6 +13,7 @@ namespace Lucene {
 
 class LPPAPI UTF8Base : public LuceneObject {
 public:
+    UTF8Base();
     virtual ~UTF8Base();
     LUCENE_CLASS(UTF8Base);
 
@@ -29,8 +30,14 @@ public:
     static const wchar_t UNICODE_TERMINATOR;
 
 protected:
+    bool hasPending; // a character was put back
+    uint32_t pending;
+
     virtual uint32_t readNext() = 0;
 
+    uint32_t nextChar();
+    void pushBack(uint32_t c);
+
     uint8_t mask8(uint32_t b);
     uint16_t mask16(uint32_t c);
     bool isTrail(uint32_t b);
@@ -62,6 +69,7 @@ protected:
     virtual uint32_t readNext();
 
     uint8_t* appendChar(uint8_t* utf8, uint32_t cp);
+    int32_t encodedLength(uint32_t cp);
 };
 
 class UTF8EncoderStream : public UTF8Encoder {
diff --git a/src/core/index/TermsHashPerField.cpp b/src/core/index/TermsHashPerField.cpp
index 0a3fa06..d82a0b5 100644
--- a/src/core/index/TermsHashPerField.cpp
+++ b/src/core/index/TermsHashPerField.cpp
@@ -307,8 +307,8 @@ void TermsHashPerField::add() {
             tokenText[downto] = ch;
         }
 #else
-        if (ch == UTF8Base::UNICODE_TERMINATOR) {
-            // Unpaired or UTF8Base::UNICODE_TERMINATOR
+        if ((uint32_t)ch > UTF8Base::CODE_POINT_MAX || (ch >= UTF8Base::LEAD_SURROGATE_MIN && ch <= UTF8Base::TRAIL_SURROGATE_MAX)) {
+            // Not a character (UTF8Base::UNICODE_TERMINATOR included)
             ch = UTF8Base::UNICODE_REPLACEMENT_CHAR;
             tokenText[downto] = ch;
         }
diff --git a/src/core/util/UTF8Stream.cpp b/src/core/util/UTF8Stream.cpp
index 3762469..e1b71b7 100644
--- a/src/core/util/UTF8Stream.cpp
+++ b/src/core/util/UTF8Stream.cpp
@@ -24,13 +24,31 @@ const uint32_t UTF8Base::CODE_POINT_MAX = 0x0010ffffu;
 const wchar_t UTF8Base::UNICODE_REPLACEMENT_CHAR = (wchar_t)0xfffd;
 const wchar_t UTF8Base::UNICODE_TERMINATOR = (wchar_t)0xffff;
 #else
-const wchar_t UTF8Base::UNICODE_REPLACEMENT_CHAR = (wchar_t)0x0001fffd;
-const wchar_t UTF8Base::UNICODE_TERMINATOR = (wchar_t)0x0001ffff;
+const wchar_t UTF8Base::UNICODE_REPLACEMENT_CHAR = (wchar_t)0x0000fffd;
+const wchar_t UTF8Base::UNICODE_TERMINATOR = (wchar_t)0x7fffffff;  // not a code point
 #endif
 
+UTF8Base::UTF8Base() {
+    hasPending = false;
+    pending = 0;
+}
+
 UTF8Base::~UTF8Base() {
 }
 
+inline uint32_t UTF8Base::nextChar() {
+    if (hasPending) {
+        hasPending = false;
+        return pending;
+    }
+    return readNext();
+}
+
+inline void UTF8Base::pushBack(uint32_t c) {
+    hasPending = true;
+    pending = c;
+}
+
 inline uint8_t UTF8Base::mask8(uint32_t b) {
     return static_cast<uint8_t>(0xff & b);
 }
@@ -56,7 +74,7 @@ inline bool UTF8Base::isTrailSurrogate(uint32_t cp) {
 }
 
 inline bool UTF8Base::isValidCodePoint(uint32_t cp) {
-    return (cp <= CODE_POINT_MAX && !isSurrogate(cp) && cp != 0xfffe && cp != 0xffff);
+    return (cp <= CODE_POINT_MAX && !isSurrogate(cp) && cp != (uint32_t)UNICODE_TERMINATOR);
 }
 
 inline bool UTF8Base::isOverlongSequence(uint32_t cp, int32_t length) {
@@ -107,54 +125,64 @@ inline uint8_t* UTF8Encoder::appendChar(uint8_t* utf8, uint32_t cp) {
     return utf8;
 }
 
+inline int32_t UTF8Encoder::encodedLength(uint32_t cp) {
+    return cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
+}
+
 int32_t UTF8Encoder::utf16to8(uint8_t* utf8, int32_t length) {
     uint8_t* start = utf8;
-    uint32_t next = readNext();
+    uint32_t next = nextChar();
 
-    while (next != UNICODE_TERMINATOR) {
+    while (next != (uint32_t)UNICODE_TERMINATOR) {
         uint32_t cp = mask16(next);
         if (isLeadSurrogate(cp)) {
-            next = readNext();
-            if (next == UNICODE_TERMINATOR) {
-                return 0;
-            }
+            next = nextChar();
             uint32_t trail_surrogate = mask16(next);
-            if (!isTrailSurrogate(trail_surrogate)) {
-                return 0;
+            if (next != (uint32_t)UNICODE_TERMINATOR && isTrailSurrogate(trail_surrogate)) {
+                cp = (cp << 10) + trail_surrogate + SURROGATE_OFFSET;
+            } else {
+                cp = UNICODE_REPLACEMENT_CHAR;
+                if (next != (uint32_t)UNICODE_TERMINATOR) {
+                    pushBack(next);
+                }
             }
-            cp = (cp << 10) + trail_surrogate + SURROGATE_OFFSET;
-        } else if (isTrailSurrogate(cp)) {
-            return 0;
         }
         if (!isValidCodePoint(cp)) {
-            return 0;
+            cp = UNICODE_REPLACEMENT_CHAR;
+        }
+        if ((utf8 - start) + encodedLength(cp) > length) {
+            // no room for the whole character
+            break;
         }
         utf8 = appendChar(utf8, cp);
         if ((utf8 - start) >= length) {
             break;
         }
-        next = readNext();
+        next = nextChar();
     }
 
-    return ((utf8 - start) == 0 && next == UNICODE_TERMINATOR) ? Reader::READER_EOF : (utf8 - start);
+    return ((utf8 - start) == 0 && next == (uint32_t)UNICODE_TERMINATOR) ? Reader::READER_EOF : (utf8 - start);
 }
 
 int32_t UTF8Encoder::utf32to8(uint8_t* utf8, int32_t length) {
     uint8_t* start = utf8;
-    uint32_t next = readNext();
+    uint32_t next = nextChar();
 
-    while (next != UNICODE_TERMINATOR) {
-        if (!isValidCodePoint(next)) {
-            return 0;
+    while (next != (uint32_t)UNICODE_TERMINATOR) {
+        uint32_t cp = isValidCodePoint(next) ? next : (uint32_t)UNICODE_REPLACEMENT_CHAR;
+        if ((utf8 - start) + encodedLength(cp) > length) {
+            // no room for the whole character
+            pushBack(next);
+            break;
         }
-        utf8 = appendChar(utf8, next);
+        utf8 = appendChar(utf8, cp);
         if ((utf8 - start) >= length) {
             break;
         }
-        next = readNext();
+        next = nextChar();
     }
 
-    return ((utf8 - start) == 0 && next == UNICODE_TERMINATOR) ? Reader::READER_EOF : (utf8 - start);
+    return ((utf8 - start) == 0 && next == (uint32_t)UNICODE_TERMINATOR) ? Reader::READER_EOF : (utf8 - start);
 }
 
 int32_t UTF8Encoder::encode(uint8_t* utf8, int32_t length) {
@@ -208,11 +236,12 @@ inline bool UTF8Decoder::getSequence(uint32_t& cp, int32_t length) {
     if (length == 1) {
         return true;
     }
-    uint32_t next = readNext();
-    if (next == UNICODE_TERMINATOR) {
+    uint32_t next = nextChar();
+    if (next == (uint32_t)UNICODE_TERMINATOR) {
         return false;
     }
     if (!isTrail(next)) {
+        pushBack(next); // start of the next character
         return false;
     }
     if (length == 2) {
@@ -224,11 +253,12 @@ inline bool UTF8Decoder::getSequence(uint32_t& cp, int32_t length) {
     } else {
         cp = ((cp << 18) & 0x1fffff) + ((mask8(next) << 12) & 0x3ffff);
     }
-    next = readNext();
-    if (next == UNICODE_TERMINATOR) {
+    next = nextChar();
+    if (next == (uint32_t)UNICODE_TERMINATOR) {
         return false;
     }
     if (!isTrail(next)) {
+        pushBack(next); // start of the next character
         return false;
     }
     if (length == 3) {
@@ -236,11 +266,12 @@ inline bool UTF8Decoder::getSequence(uint32_t& cp, int32_t length) {
         return true;
     }
     cp += (mask8(next) << 6) & 0xfff;
-    next = readNext();
-    if (next == UNICODE_TERMINATOR) {
+    next = nextChar();
+    if (next == (uint32_t)UNICODE_TERMINATOR) {
         return false;
     }
     if (!isTrail(next)) {
+        pushBack(next); // start of the next character
         return false;
     }
     cp += next & 0x3f;
@@ -265,11 +296,11 @@ inline bool UTF8Decoder::isValidNext(uint32_t& cp) {
 
 int32_t UTF8Decoder::utf8to16(wchar_t* unicode, int32_t length) {
     int32_t position = 0;
-    uint32_t next = readNext();
+    uint32_t next = nextChar();
 
-    while (next != UNICODE_TERMINATOR) {
+    while (next != (uint32_t)UNICODE_TERMINATOR) {
         if (!isValidNext(next)) {
-            return 0;
+            next = UNICODE_REPLACEMENT_CHAR;
         }
         if (next > 0xffff) { // make a surrogate pair
             unicode[position++] = static_cast<uint16_t>((next >> 10) + LEAD_OFFSET);
@@ -280,28 +311,28 @@ int32_t UTF8Decoder::utf8to16(wchar_t* unicode, int32_t length) {
         if (position >= length) {
             break;
         }
-        next = readNext();
+        next = nextChar();
     }
 
-    return (position == 0 && next == UNICODE_TERMINATOR) ? Reader::READER_EOF : position;
+    return (position == 0 && next == (uint32_t)UNICODE_TERMINATOR) ? Reader::READER_EOF : position;
 }
 
 int32_t UTF8Decoder::utf8to32(wchar_t* unicode, int32_t length) {
     int32_t position = 0;
-    uint32_t next = readNext();
+    uint32_t next = nextChar();
 
-    while (next != UNICODE_TERMINATOR) {
+    while (next != (uint32_t)UNICODE_TERMINATOR) {
         if (!isValidNext(next)) {
-            return 0;
+            next = UNICODE_REPLACEMENT_CHAR;
         }
         unicode[position++] = static_cast<wchar_t>(next);
         if (position >= length) {
             break;
         }
-        next = readNext();
+        next = nextChar();
     }
 
-    return (position == 0 && next == UNICODE_TERMINATOR) ? Reader::READER_EOF : position;
+    return (position == 0 && next == (uint32_t)UNICODE_TERMINATOR) ? Reader::READER_EOF : position;
 }
 
 int32_t UTF8Decoder::decode(wchar_t* unicode, int32_t length) {
@@ -338,32 +369,33 @@ uint32_t UTF16Decoder::readNext() {
 
 int32_t UTF16Decoder::utf16to32(wchar_t* unicode, int32_t length) {
     int32_t position = 0;
-    uint32_t next = readNext();
+    uint32_t next = nextChar();
 
-    while (next != UNICODE_TERMINATOR) {
+    while (next != (uint32_t)UNICODE_TERMINATOR) {
         uint32_t cp = mask16(next);
         if (isLeadSurrogate(cp)) {
-            next = readNext();
-            if (next == UNICODE_TERMINATOR) {
-                return 0;
-            }
+            next = nextChar();
             uint32_t trail_surrogate = mask16(next);
-            if (!isTrailSurrogate(trail_surrogate)) {
-                return 0;
+            if (next == (uint32_t)UNICODE_TERMINATOR) {
+                unicode[position++] = UNICODE_REPLACEMENT_CHAR;
+            } else if (!isTrailSurrogate(trail_surrogate)) {
+                unicode[position++] = UNICODE_REPLACEMENT_CHAR;
+                pushBack(next);
+            } else {
+                unicode[position++] = static_cast<wchar_t>(((cp - LEAD_SURROGATE_MIN) << 10) + (trail_surrogate - TRAIL_SURROGATE_MIN) + 0x0010000);
             }
-            unicode[position++] = static_cast<wchar_t>(((cp - LEAD_SURROGATE_MIN) << 10) + (trail_surrogate - TRAIL_SURROGATE_MIN) + 0x0010000);
         } else if (isTrailSurrogate(cp)) {
-            return 0;
+            unicode[position++] = UNICODE_REPLACEMENT_CHAR;
         } else {
             unicode[position++] = static_cast<wchar_t>(cp);
         }
         if (position >= length) {
             break;
         }
-        next = readNext();
+        next = nextChar();
     }
 
-    return (position == 0 && next == UNICODE_TERMINATOR) ? Reader::READER_EOF : position;
+    return (position == 0 && next == (uint32_t)UNICODE_TERMINATOR) ? Reader::READER_EOF : position;
 }
 
 int32_t UTF16Decoder::utf16to16(wchar_t* unicode, int32_t length) {
-- 
2.43.0


From d1ad688803100e746777168cd33154f73a4a1652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:30 +0000
Subject: [PATCH 70/94] fix: compression tools returned a null array for empty
 data and leaked a stream failure for truncated data

---
 src/core/document/CompressionTools.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/document/CompressionTools.cpp b/src/core/document/CompressionTools.cpp
index 227fb61..94e4f40 100644
--- a/src/core/document/CompressionTools.cpp
+++ b/src/core/document/CompressionTools.cpp
@@ -89,6 +89,9 @@ ByteArray CompressionTools::compress(uint8_t* value, int32_t offset, int32_t len
         boost::throw_exception(CompressionException(L"deflate failure: " + ZLibToMessage(err.error())));
     }
 
+    if (position == 0) {
+        return ByteArray::newInstance(0);
+    }
     buffer.resize((int32_t)position);
 
     return buffer;
@@ -129,8 +132,14 @@ ByteArray CompressionTools::decompress(ByteArray value) {
         boost::iostreams::copy(source, outStream);
     } catch (boost::iostreams::zlib_error& err) {
         boost::throw_exception(CompressionException(L"deflate failure: " + ZLibToMessage(err.error())));
+    } catch (std::ios_base::failure&) {
+        // truncated input
+        boost::throw_exception(CompressionException(L"deflate failure: " + ZLibToMessage(boost::iostreams::zlib::buf_error)));
     }
 
+    if (position == 0) {
+        return ByteArray::newInstance(0);
+    }
     buffer.resize((int32_t)position);
 
     return buffer;
-- 
2.43.0


From 7ca7bc76a3dea8ed8dfb9015bb12681ec3f81f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:30 +0000
Subject: [PATCH 71/94] fix: Base64 decoding wrote beyond its buffer for short
 input, accepted non-ASCII letters, returned a null array

---
 src/core/util/Base64.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/core/util/Base64.cpp b/src/core/util/Base64.cpp
index be00413..5b7485a 100644
--- a/src/core/util/Base64.cpp
+++ b/src/core/util/Base64.cpp
@@ -70,7 +70,7 @@ ByteArray Base64::decode(const String& str) {
     int32_t i = 0;
     int32_t charIndex = 0;
 
-    ByteArray result(ByteArray::newInstance(length / 2));
+    ByteArray result(ByteArray::newInstance(((length + 3) / 4) * 3));
     int32_t resultIndex = 0;
 
     while (length-- && str[charIndex] != L'=' && isBase64(str[charIndex])) {
@@ -84,9 +84,6 @@ ByteArray Base64::decode(const String& str) {
             byteArray3[2] = ((byteArray4[2] & 0x3) << 6) + byteArray4[3];
 
             for (i = 0; i < 3; ++i) {
-                if (resultIndex >= result.size()) {
-                    result.resize((int32_t)((double)result.size() * 1.5));
-                }
                 result[resultIndex++] = byteArray3[i];
             }
 
@@ -96,7 +93,7 @@ ByteArray Base64::decode(const String& str) {
 
     if (i != 0) {
         for (int32_t j = i; j < 4; ++j) {
-            byteArray4[j] = 0;
+            byteArray4[j] = L'A';
         }
         for (int32_t j = 0; j < 4; ++j) {
             byteArray4[j] = static_cast<uint8_t>(BASE64_CHARS.find(byteArray4[j]));
@@ -106,20 +103,20 @@ ByteArray Base64::decode(const String& str) {
         byteArray3[2] = ((byteArray4[2] & 0x3) << 6) + byteArray4[3];
 
         for (int32_t j = 0; j < i - 1; ++j) {
-            if (resultIndex >= result.size()) {
-                result.resize((int32_t)((double)result.size() * 1.5));
-            }
             result[resultIndex++] = byteArray3[j];
         }
     }
 
+    if (resultIndex == 0) {
+        return ByteArray::newInstance(0);
+    }
     result.resize(resultIndex);
 
     return result;
 }
 
 bool Base64::isBase64(wchar_t ch) {
-    return (UnicodeUtil::isAlnum(ch) || ch == L'+' || ch == L'/');
+    return (ch < 0x80 && (UnicodeUtil::isAlnum(ch) || ch == L'+' || ch == L'/'));
 }
 
 }
-- 
2.43.0


From d93984d783b3225c791146f15398bf8ca4d3a74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:30 +0000
Subject: [PATCH 72/94] fix: NumberTools gave negative numbers of the wrong
 length

---
 src/core/document/NumberTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/document/NumberTools.cpp b/src/core/document/NumberTools.cpp
index 35d990f..db413e3 100644
--- a/src/core/document/NumberTools.cpp
+++ b/src/core/document/NumberTools.cpp
@@ -55,8 +55,9 @@ String NumberTools::longToString(int64_t l) {
     if (l < 0) {
         buf += NEGATIVE_PREFIX;
         l = std::numeric_limits<int64_t>::max() + l + 1;
+    } else {
+        buf += POSITIVE_PREFIX;
     }
-    buf += POSITIVE_PREFIX;
 
     String num(StringUtils::toString(l, RADIX));
 
-- 
2.43.0


From 210c506f1fa7e429acbdeaef23ef27e505acad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:30 +0000
Subject: [PATCH 73/94] fix: arrays compared only part of their content, or a
 truncated address

---
 include/lucene++/Array.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/lucene++/Array.h b/include/lucene++/Array.h
index f868341..5ff780a 100644
--- a/include/lucene++/Array.h
+++ b/include/lucene++/Array.h
@@ -92,7 +92,7 @@ public:
         if (array->size != other.array->size) {
             return false;
         }
-        return (std::memcmp(array->data, other.array->data, array->size) == 0);
+        return (std::memcmp(array->data, other.array->data, array->size * sizeof(TYPE)) == 0);
     }
 
     int32_t hashCode() const {
@@ -111,11 +111,11 @@ public:
         return !container;
     }
 
-    bool operator== (const Array<TYPE>& other) {
+    bool operator== (const Array<TYPE>& other) const {
         return (container == other.container);
     }
 
-    bool operator!= (const Array<TYPE>& other) {
+    bool operator!= (const Array<TYPE>& other) const {
         return (container != other.container);
     }
 };
@@ -125,11 +125,6 @@ inline std::size_t hash_value(const Array<TYPE>& value) {
     return (std::size_t)value.hashCode();
 }
 
-template <class TYPE>
-inline bool operator== (const Array<TYPE>& value1, const Array<TYPE>& value2) {
-    return (value1.hashCode() == value2.hashCode());
-}
-
 }
 
 #endif
-- 
2.43.0


From 92d873297ed7991b87bfca21a5dab4029fe366f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:12 +0000
Subject: [PATCH 74/94] fix: an empty array could not be compressed

---
 src/core/document/CompressionTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/document/CompressionTools.cpp b/src/core/document/CompressionTools.cpp
index 94e4f40..085139a 100644
--- a/src/core/document/CompressionTools.cpp
+++ b/src/core/document/CompressionTools.cpp
@@ -81,7 +81,7 @@ ByteArray CompressionTools::compress(uint8_t* value, int32_t offset, int32_t len
     outStream.push(BufferArraySink(buffer, position, COMPRESS_BUFFER));
 
     // setup the source stream, and then copy it to the outStream
-    boost::iostreams::stream< boost::iostreams::array_source > source((char*)(value + offset), length);
+    boost::iostreams::stream< boost::iostreams::array_source > source(length == 0 ? "" : (const char*)(value + offset), length);
 
     try {
         boost::iostreams::copy(source, outStream);
-- 
2.43.0


From 8a6a3647aae5614161d93ad5be86d80bac60e6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:25 +0000
Subject: [PATCH 75/94] fix: some of the smallest positive norms were encoded
 as zero

---
 src/core/util/SmallDouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/SmallDouble.cpp b/src/core/util/SmallDouble.cpp
index 032611b..81d1dc6 100644
--- a/src/core/util/SmallDouble.cpp
+++ b/src/core/util/SmallDouble.cpp
@@ -29,7 +29,7 @@ uint8_t SmallDouble::doubleToByte(double f) {
         exponent = 31;
         mantissa = 7;
     }
-    if (exponent < 0) { // underflow: use min value
+    if (exponent < 0 || (exponent == 0 && mantissa == 0)) { // underflow: use min value
         exponent = 0;
         mantissa = 1;
     }
-- 
2.43.0


From 1443dfd64f8f63e42bfafd9b8b227481cb447d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:53 +0000
Subject: [PATCH 76/94] fix: the special case table was addressed through a
 pointer outside of it

---
 src/core/util/unicode/guniprop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/util/unicode/guniprop.cpp b/src/core/util/unicode/guniprop.cpp
index 97c0552..a1fc5a5 100644
--- a/src/core/util/unicode/guniprop.cpp
+++ b/src/core/util/unicode/guniprop.cpp
@@ -457,7 +457,7 @@ g_unichar_toupper (gunichar c) {
     if (t == G_UNICODE_LOWERCASE_LETTER) {
         gunichar val = ATTTABLE (c >> 8, c & 0xff);
         if (val >= 0x1000000) {
-            const gchar* p = special_case_table + val - 0x1000000;
+            const gchar* p = special_case_table + (val - 0x1000000);
             val = g_utf8_get_char (p);
         }
         /* Some lowercase letters, e.g., U+000AA, FEMININE ORDINAL INDICATOR,
@@ -492,7 +492,7 @@ g_unichar_tolower (gunichar c) {
     if (t == G_UNICODE_UPPERCASE_LETTER) {
         gunichar val = ATTTABLE (c >> 8, c & 0xff);
         if (val >= 0x1000000) {
-            const gchar* p = special_case_table + val - 0x1000000;
+            const gchar* p = special_case_table + (val - 0x1000000);
             return g_utf8_get_char (p);
         } else {
             /* Not all uppercase letters are guaranteed to have a lowercase
-- 
2.43.0


From d095998bbae92ded3451e5dc521be73b77f34fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:00 +0000
Subject: [PATCH 77/94] fix: the merged segment warmer got readers without doc
 stores

---
 src/core/index/IndexWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 71ba0f2..bfe5a94 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2966,7 +2966,7 @@ int32_t IndexWriter::mergeMiddle(const OneMergePtr& merge) {
 
         // if the merged segment warmer was not installed when this merge was started, causing us
         // to not force the docStores to close, we can't warm it now
-        bool canWarm = (merge->info->getDocStoreSegment().empty() || currentDocStoreSegment.empty() || merge->info->getDocStoreSegment() == currentDocStoreSegment);
+        bool canWarm = (merge->info->getDocStoreSegment().empty() || currentDocStoreSegment.empty() || merge->info->getDocStoreSegment() != currentDocStoreSegment);
 
         if (poolReaders && mergedSegmentWarmer && canWarm) {
             // Load terms index & doc stores so the segment warmer can run searches, load documents/term vectors
@@ -2977,7 +2977,7 @@ int32_t IndexWriter::mergeMiddle(const OneMergePtr& merge) {
         SegmentReaderPtr mergedReader(readerPool->get(merge->info, loadDocStores, BufferedIndexInput::BUFFER_SIZE, termsIndexDivisor));
 
         try {
-            if (poolReaders && mergedSegmentWarmer) {
+            if (poolReaders && mergedSegmentWarmer && canWarm) {
                 mergedSegmentWarmer->warm(mergedReader);
             }
             if (!commitMerge(merge, merger, mergedDocCount, mergedReader)) {
-- 
2.43.0


From b6beef294541ce41fd756bb65ff933d46de33b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:00 +0000
Subject: [PATCH 78/94] fix: a commit read before the first segment when a
 flush came in between that left only segments with open doc stores

---
 src/core/index/IndexWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index bfe5a94..6d11598 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3197,7 +3197,7 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
 
                 String dss(docWriter->getDocStoreSegment());
                 if (!dss.empty()) {
-                    while (true) {
+                    while (!toSync->empty()) {
                         String dss2(toSync->info(toSync->size() - 1)->getDocStoreSegment());
                         if (dss2.empty() || dss2 != dss) {
                             break;
-- 
2.43.0


From 5b94ce3462faf1f5164aee070b7cdf9fe5f91033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:27 +0000
Subject: [PATCH 79/94] fix: a commit in another thread could write its
 segments file after a rollback

---
 src/core/index/IndexWriter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 6d11598..976c633 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1432,6 +1432,8 @@ void IndexWriter::rollback() {
 
     // Ensure that only one thread actually gets to do the closing
     if (shouldClose()) {
+        // A commit that is under way ends first, or it would write its segments file after the rollback
+        SyncLock messageLock(commitLock);
         rollbackInternal();
     }
 }
@@ -1479,12 +1481,12 @@ void IndexWriter::rollbackInternal() {
             // Ask deleter to locate unreferenced files & remove them
             deleter->checkpoint(segmentInfos, false);
             deleter->refresh();
-        }
 
-        // Don't bother saving any changes in our segmentInfos
-        readerPool->clear(SegmentInfosPtr());
+            // Don't bother saving any changes in our segmentInfos
+            readerPool->clear(SegmentInfosPtr());
 
-        lastCommitChangeCount = changeCount;
+            lastCommitChangeCount = changeCount;
+        }
 
         success = true;
     } catch (std::bad_alloc& oom) {
-- 
2.43.0


From 867a8661ef4b7f071676a14c390d348c7050ef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:27 +0000
Subject: [PATCH 80/94] fix: a commit left out documents flushed by another
 thread but kept the deletions of those they replace

---
 src/core/index/IndexWriter.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 976c633..b3976aa 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3172,6 +3172,14 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
             BOOST_ASSERT(!hasExternalSegments());
 
             try {
+                // It's possible another flush (that did not close the open doc stores) snuck in after the flush we
+                // just did.  The segments it made can't be committed before their doc stores are closed, and they
+                // can't be left out as the documents they replace are deleted in the other segments already.
+                String dss(docWriter->getDocStoreSegment());
+                if (!dss.empty() && !segmentInfos->empty() && segmentInfos->info(segmentInfos->size() - 1)->getDocStoreSegment() == dss) {
+                    doFlush(true, true);
+                }
+
                 BOOST_ASSERT(lastCommitChangeCount <= changeCount);
                 myChangeCount = changeCount;
 
@@ -3192,23 +3200,8 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
 
                 readerPool->commit();
 
-                // It's possible another flush (that did not close the open do stores) snook in after the flush we
-                // just did, so we remove any tail segments referencing the open doc store from the SegmentInfos
-                // we are about to sync (the main SegmentInfos will keep them)
                 toSync = boost::dynamic_pointer_cast<SegmentInfos>(segmentInfos->clone());
 
-                String dss(docWriter->getDocStoreSegment());
-                if (!dss.empty()) {
-                    while (!toSync->empty()) {
-                        String dss2(toSync->info(toSync->size() - 1)->getDocStoreSegment());
-                        if (dss2.empty() || dss2 != dss) {
-                            break;
-                        }
-                        toSync->remove(toSync->size() - 1);
-                        ++changeCount;
-                    }
-                }
-
                 if (commitUserData) {
                     toSync->setUserData(commitUserData);
                 }
-- 
2.43.0


From c913c5b4e1c38c33c665574d24ff2ecbc4b379f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:14 +0000
Subject: [PATCH 81/94] fix: addDocument reported success when a failed
 document could not be skipped

---
 src/core/index/DocumentsWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/DocumentsWriter.cpp b/src/core/index/DocumentsWriter.cpp
index 67d107e..a98f58a 100644
--- a/src/core/index/DocumentsWriter.cpp
+++ b/src/core/index/DocumentsWriter.cpp
@@ -698,7 +698,7 @@ bool DocumentsWriter::updateDocument(const DocumentPtr& doc, const AnalyzerPtr&
                 state->isIdle = true;
                 notifyAll();
                 abort();
-                return false;
+                finally.throwException();
             }
 
             state->isIdle = true;
-- 
2.43.0


From e40615bbf7a943578fe4dcf2d93f131544563e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:05 +0000
Subject: [PATCH 82/94] fix: the merged segment warmer got a reader without doc
 stores when readers became pooled meanwhile

---
 src/core/index/IndexWriter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index b3976aa..173f4ea 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2970,7 +2970,10 @@ int32_t IndexWriter::mergeMiddle(const OneMergePtr& merge) {
         // to not force the docStores to close, we can't warm it now
         bool canWarm = (merge->info->getDocStoreSegment().empty() || currentDocStoreSegment.empty() || merge->info->getDocStoreSegment() != currentDocStoreSegment);
 
-        if (poolReaders && mergedSegmentWarmer && canWarm) {
+        // (readers may become pooled at any moment)
+        bool doWarm = (poolReaders && mergedSegmentWarmer && canWarm);
+
+        if (doWarm) {
             // Load terms index & doc stores so the segment warmer can run searches, load documents/term vectors
             termsIndexDivisor = readerTermsIndexDivisor;
             loadDocStores = true;
@@ -2979,7 +2982,7 @@ int32_t IndexWriter::mergeMiddle(const OneMergePtr& merge) {
         SegmentReaderPtr mergedReader(readerPool->get(merge->info, loadDocStores, BufferedIndexInput::BUFFER_SIZE, termsIndexDivisor));
 
         try {
-            if (poolReaders && mergedSegmentWarmer && canWarm) {
+            if (doWarm) {
                 mergedSegmentWarmer->warm(mergedReader);
             }
             if (!commitMerge(merge, merger, mergedDocCount, mergedReader)) {
-- 
2.43.0


From 88c12f7ee3271b6270a84ac50149da86b257707c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:33 +0000
Subject: [PATCH 83/94] fix: an aborting exception dropped the deletions of
 segments flushed before, bringing back failed and replaced documents

---
 include/lucene++/DocumentsWriter.h | 3 +++
 src/core/index/DocumentsWriter.cpp | 7 ++++++-
 src/core/index/IndexWriter.cpp     | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/lucene++/DocumentsWriter.h b/include/lucene++/DocumentsWriter.h
index a33a29e..3f82bcf 100644
--- a/include/lucene++/DocumentsWriter.h
+++ b/include/lucene++/DocumentsWriter.h
@@ -245,6 +245,9 @@ public:
     /// currently buffered docs.  This resets our state, discarding any docs added since last flush.
     void abort();
 
+    /// Forgets the buffered deletes of segments that were flushed; called when these segments are dropped.
+    void clearFlushedDeletes();
+
     /// Returns true if an abort is in progress
     bool pauseAllThreads();
     void resumeAllThreads();
diff --git a/src/core/index/DocumentsWriter.cpp b/src/core/index/DocumentsWriter.cpp
index a98f58a..d58091e 100644
--- a/src/core/index/DocumentsWriter.cpp
+++ b/src/core/index/DocumentsWriter.cpp
@@ -357,8 +357,8 @@ void DocumentsWriter::abort() {
                 _abortedFiles.reset();
             }
 
+            // Deletes that were flushed together with their segments stay: these segments do
             deletesInRAM->clear();
-            deletesFlushed->clear();
             _openFiles.clear();
 
             for (Collection<DocumentsWriterThreadStatePtr>::iterator threadState = threadStates.begin(); threadState != threadStates.end(); ++threadState) {
@@ -396,6 +396,11 @@ void DocumentsWriter::abort() {
     finally.throwException();
 }
 
+void DocumentsWriter::clearFlushedDeletes() {
+    SyncLock syncLock(this);
+    deletesFlushed->clear();
+}
+
 void DocumentsWriter::doAfterFlush() {
     // All ThreadStates should be idle when we are called
     BOOST_ASSERT(allThreadsIdle());
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 173f4ea..2d51185 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1474,6 +1474,7 @@ void IndexWriter::rollbackInternal() {
             BOOST_ASSERT(!hasExternalSegments());
 
             docWriter->abort();
+            docWriter->clearFlushedDeletes();
 
             bool test = testPoint(L"rollback before checkpoint");
             BOOST_ASSERT(test);
@@ -1522,6 +1523,7 @@ void IndexWriter::deleteAll() {
 
         // Remove any buffered docs
         docWriter->abort();
+        docWriter->clearFlushedDeletes();
         docWriter->setFlushedDocCount(0);
 
         // Remove all segments
-- 
2.43.0


From 7a15adc1a9885f20dd68100e8b60837217e7ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:17 +0000
Subject: [PATCH 84/94] fix: a commit could contain a document flushed by
 another thread together with the one it replaces

---
 src/core/index/IndexWriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 2d51185..0c5ee1a 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -3179,9 +3179,10 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
             try {
                 // It's possible another flush (that did not close the open doc stores) snuck in after the flush we
                 // just did.  The segments it made can't be committed before their doc stores are closed, and they
-                // can't be left out as the documents they replace are deleted in the other segments already.
+                // can't be left out as the documents they replace are deleted in the other segments already.  Nor can
+                // they be committed as long as the deletions that came with them have not been applied.
                 String dss(docWriter->getDocStoreSegment());
-                if (!dss.empty() && !segmentInfos->empty() && segmentInfos->info(segmentInfos->size() - 1)->getDocStoreSegment() == dss) {
+                if (docWriter->hasDeletes() || (!dss.empty() && !segmentInfos->empty() && segmentInfos->info(segmentInfos->size() - 1)->getDocStoreSegment() == dss)) {
                     doFlush(true, true);
                 }
 
-- 
2.43.0


From c06d746285c69ab4b5b0f635ad40e74fd5fa485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:17 +0000
Subject: [PATCH 85/94] fix: cloning a pooled reader for a merge compared its
 info with itself while a commit advanced it

---
 src/core/index/SegmentReader.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 55edeff..b493430 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -142,7 +142,10 @@ LuceneObjectPtr SegmentReader::clone(bool openReadOnly, const LuceneObjectPtr& o
 SegmentReaderPtr SegmentReader::reopenSegment(const SegmentInfoPtr& si, bool doClone, bool openReadOnly) {
     SyncLock syncLock(this);
 
-    bool deletionsUpToDate = (this->si->hasDeletions() == si->hasDeletions() &&
+    // a reader of a writer is cloned with its own info, which can be advanced by a commit at the same time
+    bool sameInfo = (this->si == si);
+
+    bool deletionsUpToDate = sameInfo || (this->si->hasDeletions() == si->hasDeletions() &&
                               (!si->hasDeletions() || this->si->getDelFileName() == si->getDelFileName()));
     if (!doClone && deletedDocsDirty) {
         // our deletions were handed over to a clone, which may not have committed them
@@ -154,7 +157,7 @@ SegmentReaderPtr SegmentReader::reopenSegment(const SegmentInfoPtr& si, bool doC
 
     for (int32_t i = 0; i < fieldCount; ++i) {
         NormPtr norm(this->_norms.get(core->fieldInfos->fieldInfo(i)->name));
-        if (this->si->getNormFileName(i) != si->getNormFileName(i) || (!doClone && norm && norm->dirty)) {
+        if ((!sameInfo && this->si->getNormFileName(i) != si->getNormFileName(i)) || (!doClone && norm && norm->dirty)) {
             normsUpToDate = false;
             fieldNormsChanged[i] = true;
         }
-- 
2.43.0


From 2019e593d1efda9b60de12aec672ce66ac0593b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:42 +0000
Subject: [PATCH 86/94] fix: optimize, expungeDeletes and waitForMerges waited
 forever for merges that were pending when one before them failed

---
 src/core/index/IndexWriter.cpp | 70 +++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 0c5ee1a..a38da31 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -470,13 +470,16 @@ MergePolicyPtr IndexWriter::getMergePolicy() {
 }
 
 void IndexWriter::setMergeScheduler(const MergeSchedulerPtr& mergeScheduler) {
-    SyncLock syncLock(this);
     ensureOpen();
     if (!mergeScheduler) {
         boost::throw_exception(NullPointerException(L"MergeScheduler must be non-null"));
     }
     if (this->mergeScheduler != mergeScheduler) {
         finishMerges(true);
+    }
+    SyncLock syncLock(this);
+    ensureOpen();
+    if (this->mergeScheduler != mergeScheduler) {
         this->mergeScheduler->close();
     }
     this->mergeScheduler = mergeScheduler;
@@ -1108,9 +1111,9 @@ void IndexWriter::optimize(int32_t maxNumSegments, bool doWait) {
     maybeMerge(maxNumSegments, true);
 
     if (doWait) {
-        {
-            SyncLock syncLock(this);
-            while (true) {
+        while (true) {
+            {
+                SyncLock syncLock(this);
                 if (hitOOM) {
                     boost::throw_exception(IllegalStateException(L"this writer hit an OutOfMemoryError; cannot complete optimize"));
                 }
@@ -1127,12 +1130,17 @@ void IndexWriter::optimize(int32_t maxNumSegments, bool doWait) {
                     }
                 }
 
-                if (optimizeMergesPending()) {
-                    IndexWriter::doWait();
-                } else {
+                if (!optimizeMergesPending()) {
                     break;
                 }
+                if (!runningMerges.empty()) {
+                    IndexWriter::doWait();
+                    continue;
+                }
             }
+
+            // A merge failed and nobody is left to run those that were pending after it
+            mergeScheduler->merge(shared_from_this());
         }
 
         // If close is called while we are still running, throw an exception so the calling thread will know the
@@ -1182,17 +1190,16 @@ void IndexWriter::expungeDeletes(bool doWait) {
     mergeScheduler->merge(shared_from_this());
 
     if (doWait) {
-        {
-            SyncLock syncLock(this);
-            bool running = true;
-            while (running) {
+        while (true) {
+            {
+                SyncLock syncLock(this);
                 if (hitOOM) {
                     boost::throw_exception(IllegalStateException(L"this writer hit an OutOfMemoryError; cannot complete expungeDeletes"));
                 }
 
                 // Check each merge that MergePolicy asked us to do, to see if any of them are still running and
                 // if any of them have hit an exception.
-                running = false;
+                bool running = false;
                 for (Collection<OneMergePtr>::iterator merge = spec->merges.begin(); merge != spec->merges.end(); ++merge) {
                     if (pendingMerges.contains(*merge) || runningMerges.contains(*merge)) {
                         running = true;
@@ -1204,10 +1211,17 @@ void IndexWriter::expungeDeletes(bool doWait) {
                 }
 
                 // If any of our merges are still running, wait
-                if (running) {
+                if (!running) {
+                    break;
+                }
+                if (!runningMerges.empty()) {
                     IndexWriter::doWait();
+                    continue;
                 }
             }
+
+            // A merge failed and nobody is left to run those that were pending after it
+            mergeScheduler->merge(shared_from_this());
         }
     }
 
@@ -1555,8 +1569,8 @@ void IndexWriter::deleteAll() {
 }
 
 void IndexWriter::finishMerges(bool waitForMerges) {
-    SyncLock syncLock(this);
     if (!waitForMerges) {
+        SyncLock syncLock(this);
         stopMerges = true;
 
         // Abort all pending and running merges
@@ -1608,17 +1622,27 @@ void IndexWriter::finishMerges(bool waitForMerges) {
 }
 
 void IndexWriter::waitForMerges() {
-    SyncLock syncLock(this);
-    // Ensure any running addIndexes finishes.
-    acquireRead();
-    releaseRead();
+    while (true) {
+        {
+            SyncLock syncLock(this);
+            // Ensure any running addIndexes finishes.
+            acquireRead();
+            releaseRead();
 
-    while (!pendingMerges.empty() || !runningMerges.empty()) {
-        doWait();
-    }
+            while (!runningMerges.empty()) {
+                doWait();
+            }
+
+            if (pendingMerges.empty()) {
+                // sanity check
+                BOOST_ASSERT(mergingSegments.empty());
+                return;
+            }
+        }
 
-    // sanity check
-    BOOST_ASSERT(mergingSegments.empty());
+        // A merge failed and nobody is left to run those that were pending after it
+        mergeScheduler->merge(shared_from_this());
+    }
 }
 
 void IndexWriter::checkpoint() {
-- 
2.43.0


From 04db14f816ee5fe0463d3207142d9ef1368b4978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:40 +0000
Subject: [PATCH 87/94] fix: a half written term vectors entry at the end of a
 shared doc store counted as a document, failing merges

---
 src/core/index/TermVectorsReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/index/TermVectorsReader.cpp b/src/core/index/TermVectorsReader.cpp
index c0051f9..057bb0e 100644
--- a/src/core/index/TermVectorsReader.cpp
+++ b/src/core/index/TermVectorsReader.cpp
@@ -76,10 +76,10 @@ void TermVectorsReader::ConstructReader(const DirectoryPtr& d, const String& seg
             // A shared doc store can end in a partial entry, if writing it failed after this segment was flushed
             if (format >= FORMAT_VERSION2) {
                 BOOST_ASSERT(docStoreOffset != -1 || (tvx->length() - FORMAT_SIZE) % 16 == 0);
-                numTotalDocs = (int32_t)(tvx->length() >> 4);
+                numTotalDocs = (int32_t)((tvx->length() - FORMAT_SIZE) >> 4);
             } else {
                 BOOST_ASSERT(docStoreOffset != -1 || (tvx->length() - FORMAT_SIZE) % 8 == 0);
-                numTotalDocs = (int32_t)(tvx->length() >> 3);
+                numTotalDocs = (int32_t)((tvx->length() - FORMAT_SIZE) >> 3);
             }
 
             if (docStoreOffset == -1) {
-- 
2.43.0


From 247d55c68d64d318c772da80b05d8b8e740f0876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:22 +0000
Subject: [PATCH 88/94] fix: bit sets with equal content had different hash
 codes, clearing the bit after the last was out of bounds

---
 src/core/util/BitSet.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/util/BitSet.cpp b/src/core/util/BitSet.cpp
index 0cbe753..9a8208a 100644
--- a/src/core/util/BitSet.cpp
+++ b/src/core/util/BitSet.cpp
@@ -31,7 +31,7 @@ void BitSet::clear() {
 }
 
 void BitSet::clear(uint32_t bitIndex) {
-    if (bitIndex <= bitSet.size()) {
+    if (bitIndex < bitSet.size()) {
         bitSet.set(bitIndex, false);
     }
 }
@@ -232,12 +232,13 @@ bool BitSet::equals(const LuceneObjectPtr& other) {
 int32_t BitSet::hashCode() {
     // Start with a zero hash and use a mix that results in zero if the input is zero.
     // This effectively truncates trailing zeros without an explicit check.
-    int64_t hash = 0;
-    auto computeHash = [&hash](bitset_type::block_type block) {
-        hash ^= block;
+    uint64_t hash = 0;
+    std::vector<bitset_type::block_type> blocks;
+    to_block_range(bitSet, std::back_inserter(blocks));
+    for (size_t i = blocks.size(); i-- > 0;) {
+        hash ^= blocks[i];
         hash = (hash << 1) | (hash >> 63); // rotate left
-    };
-    to_block_range(bitSet, boost::make_function_output_iterator(std::ref(computeHash)));
+    }
     // Fold leftmost bits into right and add a constant to prevent empty sets from
     // returning 0, which is too common.
     return (int32_t)((hash >> 32) ^ hash) + 0x98761234;
-- 
2.43.0


From 0d831657c0c5f6e3db461c358cb9d3c6da74a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:22 +0000
Subject: [PATCH 89/94] fix: numeric ranges reported their lower bound as the
 upper one

---
 src/core/search/NumericRangeFilter.cpp | 2 +-
 src/core/search/NumericRangeQuery.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/search/NumericRangeFilter.cpp b/src/core/search/NumericRangeFilter.cpp
index 562f8d1..544fbd7 100644
--- a/src/core/search/NumericRangeFilter.cpp
+++ b/src/core/search/NumericRangeFilter.cpp
@@ -65,7 +65,7 @@ NumericValue NumericRangeFilter::getMin() {
 }
 
 NumericValue NumericRangeFilter::getMax() {
-    return boost::static_pointer_cast<NumericRangeQuery>(query)->min;
+    return boost::static_pointer_cast<NumericRangeQuery>(query)->max;
 }
 
 }
diff --git a/src/core/search/NumericRangeQuery.cpp b/src/core/search/NumericRangeQuery.cpp
index 03d84ca..c8b50ef 100644
--- a/src/core/search/NumericRangeQuery.cpp
+++ b/src/core/search/NumericRangeQuery.cpp
@@ -110,7 +110,7 @@ NumericValue NumericRangeQuery::getMin() {
 }
 
 NumericValue NumericRangeQuery::getMax() {
-    return min;
+    return max;
 }
 
 LuceneObjectPtr NumericRangeQuery::clone(const LuceneObjectPtr& other) {
-- 
2.43.0


From 94b121497abb87712cc2525a990c9e0f2f1d88b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:32:50 +0000
Subject: [PATCH 90/94] fix: a background thread could use the lock factory
 mutex after its destruction and abort an exiting process

---
 src/core/util/Synchronize.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/util/Synchronize.cpp b/src/core/util/Synchronize.cpp
index 4790107..f4b3780 100644
--- a/src/core/util/Synchronize.cpp
+++ b/src/core/util/Synchronize.cpp
@@ -20,8 +20,9 @@ Synchronize::~Synchronize() {
 }
 
 void Synchronize::createSync(SynchronizePtr& sync) {
-    static boost::mutex lockMutex;
-    boost::mutex::scoped_lock syncLock(lockMutex);
+    // never destroyed, since background threads may still run while the process exits
+    static boost::mutex* lockMutex = new boost::mutex;
+    boost::mutex::scoped_lock syncLock(*lockMutex);
     if (!sync) {
         sync = newInstance<Synchronize>();
     }
-- 
2.43.0


From 5edfccf610d7f9274ae86a40bccdf13b2daf9448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:31 +0000
Subject: [PATCH 91/94] fix: different names of one directory got different
 locks in a common lock directory, long names the same

---
 src/core/store/FSDirectory.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/core/store/FSDirectory.cpp b/src/core/store/FSDirectory.cpp
index 2cb257a..1b5bccf 100644
--- a/src/core/store/FSDirectory.cpp
+++ b/src/core/store/FSDirectory.cpp
@@ -20,6 +20,7 @@
 #else
     #include <unistd.h>
 #endif
+#include <boost/filesystem/operations.hpp>
 #include <boost/iostreams/device/file_descriptor.hpp>
 
 extern "C"
@@ -29,6 +30,19 @@ extern "C"
 
 namespace Lucene {
 
+/// One spelling for all the names of a directory, so that they get the same locks.
+static String canonicalPath(const String& directory) {
+    try {
+        String canonical(boost::filesystem::weakly_canonical(boost::filesystem::absolute(directory)).wstring().c_str());
+        while (canonical.size() > 1 && (canonical[canonical.size() - 1] == L'/' || canonical[canonical.size() - 1] == L'\\')) {
+            canonical.resize(canonical.size() - 1);
+        }
+        return canonical;
+    } catch (std::exception&) {
+        return directory;
+    }
+}
+
 /// Default read chunk size.  This is a conditional default based on operating system.
 #ifdef LPP_BUILD_64
 const int32_t FSDirectory::DEFAULT_READ_CHUNK_SIZE = INT_MAX;
@@ -62,7 +76,7 @@ FSDirectory::FSDirectory(const String& path, const LockFactoryPtr& lockFactory)
         if (lf->getLockDir().empty()) {
             lf->setLockDir(directory);
             lf->setLockPrefix(L"");
-        } else if (lf->getLockDir() == directory) {
+        } else if (lf->getLockDir() == directory || canonicalPath(lf->getLockDir()) == canonicalPath(directory)) {
             lf->setLockPrefix(L"");
         }
     }
@@ -200,7 +214,8 @@ String FSDirectory::getLockID() {
     md5_byte_t digest[16];
 
     md5_init(&state);
-    md5_append(&state, (const md5_byte_t*)StringUtils::toUTF8(directory).c_str(), directory.size());
+    SingleString path(StringUtils::toUTF8(canonicalPath(directory)));
+    md5_append(&state, (const md5_byte_t*)path.c_str(), (int32_t)path.size());
     md5_finish(&state, digest);
 
     static const wchar_t* hexDigits = L"0123456789abcdef";
-- 
2.43.0


From 29ecfcc2c64e9256cbee719cd9135e19ad271468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:58 +0000
Subject: [PATCH 92/94] fix: boosts lost their decimals in the string form of
 queries

---
 src/core/search/Query.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/core/search/Query.cpp b/src/core/search/Query.cpp
index 5c1515e..9ce5618 100644
--- a/src/core/search/Query.cpp
+++ b/src/core/search/Query.cpp
@@ -160,11 +160,21 @@ String Query::boostString() {
     if (boost == 1.0) {
         return L"";
     }
-    StringStream boostString;
-    boostString.precision(1);
-    boostString.setf(std::ios::fixed);
-    boostString << L"^" << boost;
-    return boostString.str();
+    // as many decimals as it takes to tell the boost from others
+    String boostString;
+    for (int32_t precision = 1; precision <= 17; ++precision) {
+        StringStream buffer;
+        buffer.precision(precision);
+        buffer.setf(std::ios::fixed);
+        buffer << boost;
+        boostString = buffer.str();
+        std::wistringstream reader(boostString);
+        double value = 0.0;
+        if (reader >> value && value == boost) {
+            break;
+        }
+    }
+    return L"^" + boostString;
 }
 
 }
-- 
2.43.0


From f484112beb5ad59b7aa424e95b595a17b6c10392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:58 +0000
Subject: [PATCH 93/94] fix: supplementary characters read past the bit vectors
 of the query parser

---
 src/core/queryparser/QueryParserTokenManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/queryparser/QueryParserTokenManager.cpp b/src/core/queryparser/QueryParserTokenManager.cpp
index cd43c7e..050f486 100644
--- a/src/core/queryparser/QueryParserTokenManager.cpp
+++ b/src/core/queryparser/QueryParserTokenManager.cpp
@@ -1116,6 +1116,9 @@ bool QueryParserTokenManager::jjCanMove_1(int32_t hiByte, int32_t i1, int32_t i2
     case 0:
         return ((jjbitVec3[i2] & l2) != 0);
     default:
+        if (hiByte > 0xff) {
+            return true; // supplementary character: the bit vectors end at 0xffff
+        }
         if ((jjbitVec1[i1] & l1) != 0) {
             return true;
         }
@@ -1130,6 +1133,9 @@ bool QueryParserTokenManager::jjCanMove_2(int32_t hiByte, int32_t i1, int32_t i2
     case 48:
         return ((jjbitVec1[i2] & l2) != 0);
     default:
+        if (hiByte > 0xff) {
+            return true; // supplementary character: the bit vectors end at 0xffff
+        }
         if ((jjbitVec4[i1] & l1) != 0) {
             return true;
         }
-- 
2.43.0


From 7387f11abd1c60dd9c5447ab9d967d36267ebf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:04 +0000
Subject: [PATCH 94/94] fix: a fuzzy similarity of 1 escaped from the query
 parser as an IllegalArgumentException

---
 src/core/queryparser/QueryParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/queryparser/QueryParser.cpp b/src/core/queryparser/QueryParser.cpp
index f05f7b6..e13a96e 100644
--- a/src/core/queryparser/QueryParser.cpp
+++ b/src/core/queryparser/QueryParser.cpp
@@ -941,8 +941,8 @@ QueryPtr QueryParser::ParseTerm(const String& field) {
                     fms = StringUtils::toDouble(fuzzySlop->image.substr(1));
                 } catch (...) {
                 }
-                if (fms < 0.0 || fms > 1.0) {
-                    boost::throw_exception(QueryParserError(L"Minimum similarity for a FuzzyQuery has to be between 0.0 and 1.0"));
+                if (fms < 0.0 || fms >= 1.0) {
+                    boost::throw_exception(QueryParserError(L"Minimum similarity for a FuzzyQuery has to be at least 0.0 and less than 1.0"));
                 }
                 q = getFuzzyQuery(field, termImage, fms);
             } else {
-- 
2.43.0

