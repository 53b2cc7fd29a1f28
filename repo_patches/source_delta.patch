From 4104ecc2ca42dfc33d4b653e9f886a410249be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 001/135] fix: ThreadPool counts its threads as running from
 their creation

waitForThreads() and the destructor could return before a newly created
thread had announced itself, leaving it to use a destroyed pool.
---
 src/eckit/thread/ThreadPool.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index 04622bd..0522722 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -33,7 +33,7 @@ public:
 };
 
 void ThreadPoolThread::run() {
-    owner_.notifyStart();
+    // owner_.notifyStart() has been called on our behalf, before the thread was started (see ThreadPool::resize)
 
     Monitor::instance().name(owner_.name());
 
@@ -213,7 +213,17 @@ void ThreadPool::resize(size_t size) {
 
     while (count_ < size) {
         ThreadControler c(new ThreadPoolThread(*this), true, stack_);
-        c.start();
+
+        // The thread counts as running before it gets a chance to run, otherwise waitForThreads() (and so the
+        // destructor) can return while the thread is still to use this object
+        notifyStart();
+        try {
+            c.start();
+        }
+        catch (...) {
+            notifyEnd();
+            throw;
+        }
         count_++;
     }
 }
-- 
2.43.0


From a7b00f6885663da36ff49f71f0e1f5cbdc3383d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 002/135] fix: ThreadPool::push(list) counts the tasks it
 queues

Their completion was subtracted from a count they were never added to, so
that wait() returned too early or, once the count had wrapped, never.
---
 src/eckit/thread/ThreadPool.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index 0522722..43533af 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -166,6 +166,12 @@ void ThreadPool::push(ThreadPoolTask* r) {
 }
 
 void ThreadPool::push(std::list<ThreadPoolTask*>& l) {
+    for (std::list<ThreadPoolTask*>::iterator j = l.begin(); j != l.end(); ++j) {
+        if (*j) {
+            startTask();
+        }
+    }
+
     AutoLock<MutexCond> lock(ready_);
 
     for (std::list<ThreadPoolTask*>::iterator j = l.begin(); j != l.end(); ++j) {
-- 
2.43.0


From c5ca92f13bfbc7532217c157ec7b75317d09a1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:52 +0000
Subject: [PATCH 003/135] fix: ThreadPool::wait() releases every waiting thread

The end of the last task woke up only one of the threads in wait(), the
others were left waiting for ever.
---
 src/eckit/thread/ThreadPool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index 43533af..7bbe89e 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -142,7 +142,7 @@ void ThreadPool::startTask() {
 void ThreadPool::endTask() {
     AutoLock<MutexCond> lock(active_);
     tasks_--;
-    active_.signal();
+    active_.broadcast();  // more than one thread may be in wait()
     // Log::info() << "ThreadPool::notifyStart " << name_ << " running: " << running_ << std::endl;
 }
 
-- 
2.43.0


From ab50de10a87a887613d7b15058759568bb067771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 004/135] fix: ProducerConsumer reports a failure of
 Producer::done()

The exception escaped from execute(), leaving the consumer's thread waiting
for ever for a payload of an object that was being destroyed.
---
 src/eckit/runtime/ProducerConsumer.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/eckit/runtime/ProducerConsumer.h b/src/eckit/runtime/ProducerConsumer.h
index 48ae05b..d166ac5 100644
--- a/src/eckit/runtime/ProducerConsumer.h
+++ b/src/eckit/runtime/ProducerConsumer.h
@@ -160,14 +160,15 @@ void ProducerConsumer<PAYLOAD>::execute(Producer<PAYLOAD>& producer, Consumer<PA
             break;
         }
 
-        if (producer.done()) {
-            payloads[i].done_  = true;
-            payloads[i].ready_ = true;
-            payloads[i].cond_.signal();
-            break;
-        }
-
         try {
+            // a failure here must not leave this function: the consumer's thread is waiting for a payload
+            if (producer.done()) {
+                payloads[i].done_  = true;
+                payloads[i].ready_ = true;
+                payloads[i].cond_.signal();
+                break;
+            }
+
             producer.produce(payloads[i].payload_);
         }
         catch (std::exception& e) {
-- 
2.43.0


From d096ff752a05ffb446c7d3a471c7feda3119e7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:58 +0000
Subject: [PATCH 005/135] fix: AsyncHandle records a failed write before
 releasing its lock, and says what failed

---
 src/eckit/io/AsyncHandle.cc | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/eckit/io/AsyncHandle.cc b/src/eckit/io/AsyncHandle.cc
index cc991d1..5440eb3 100644
--- a/src/eckit/io/AsyncHandle.cc
+++ b/src/eckit/io/AsyncHandle.cc
@@ -56,11 +56,20 @@ void AsyncHandleWriter::run() {
             owner_.used_ -= p.second->size();
             delme = p.second;
 
-            long written = owner_.handle().write(p.second->data(), p.first);
-            if (written != static_cast<long>(p.first)) {
-                std::ostringstream oss;
-                oss << "AsyncHandleWriter: written " << written << " out of " << p.first << Log::syserr;
-                throw WriteError(oss.str());
+            // The error must be recorded before the lock is released: the buffer is not in the queue any more
+
+            try {
+                long written = owner_.handle().write(p.second->data(), p.first);
+                if (written != static_cast<long>(p.first)) {
+                    std::ostringstream oss;
+                    oss << "AsyncHandleWriter: written " << written << " out of " << p.first << Log::syserr;
+                    throw WriteError(oss.str());
+                }
+            }
+            catch (std::exception& e) {
+                owner_.error_   = true;
+                owner_.message_ = e.what();
+                eckit::Log::error() << "AsyncHandleWriter got an exception: " << e.what() << " " << owner_ << std::endl;
             }
 
             owner_.cond_.signal();
@@ -68,7 +77,8 @@ void AsyncHandleWriter::run() {
         catch (std::exception& e) {
             eckit::Log::error() << "AsyncHandleWriter got an exception: " << e.what() << " " << owner_ << std::endl;
             AutoLock<MutexCond> lock(owner_.cond_);
-            owner_.error_ = e.what();
+            owner_.error_   = true;
+            owner_.message_ = e.what();
             owner_.cond_.signal();
         }
         delete delme;
-- 
2.43.0


From c9b397194dfcb5a76aa7c89ff24425c428beccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:58 +0000
Subject: [PATCH 006/135] fix: AsyncHandle does not lose the wake-up that stops
 its writer

---
 src/eckit/io/AsyncHandle.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/AsyncHandle.cc b/src/eckit/io/AsyncHandle.cc
index 5440eb3..8c48842 100644
--- a/src/eckit/io/AsyncHandle.cc
+++ b/src/eckit/io/AsyncHandle.cc
@@ -113,11 +113,11 @@ AsyncHandle::~AsyncHandle() {
             delete buffers_.front().second;
             buffers_.pop_front();
         }
+        // Under the lock, so that the writer is either waiting or has yet to check stopped()
+        thread_.stop();
         cond_.signal();
     }
 
-    thread_.stop();
-    cond_.signal();
     thread_.wait();
 }
 
-- 
2.43.0


From de26bf72523257246697eb55dfe2017605e371b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:04 +0000
Subject: [PATCH 007/135] fix: DblBuffer reports a read that returns an error,
 with its writer thread joined

---
 src/eckit/io/DblBuffer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/DblBuffer.cc b/src/eckit/io/DblBuffer.cc
index 2c690a6..abde4f2 100644
--- a/src/eckit/io/DblBuffer.cc
+++ b/src/eckit/io/DblBuffer.cc
@@ -183,7 +183,10 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate)
         try {
             double x           = reader.elapsed();
             buffers[i].length_ = in.read(buffers[i].buffer_, bufSize_);
-            double s           = reader.elapsed() - x;
+            if (buffers[i].length_ < 0) {
+                throw ReadError(in.name());
+            }
+            double s = reader.elapsed() - x;
             Log::status() << Bytes(estimate) << " at " << Bytes(buffers[i].length_ / s) << "/s" << std::endl;
             rate += s;
             if (first == 0.) {
-- 
2.43.0


From a1a0b97c44fe983601bef0ff2621b8a5c4e620fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 008/135] fix: DblBuffer::copy accounts for the whole transfer
 after a restart

---
 src/eckit/io/DblBuffer.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/eckit/io/DblBuffer.cc b/src/eckit/io/DblBuffer.cc
index abde4f2..7807456 100644
--- a/src/eckit/io/DblBuffer.cc
+++ b/src/eckit/io/DblBuffer.cc
@@ -99,6 +99,7 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out) {
 
     Length total  = estimate;
     Length copied = 0;
+    Length start  = 0;  // of the current attempt
 
     static Resource<long> maxRetriesResource("dblBufferMaxRetries", 5);
     long maxRetries = maxRetriesResource;
@@ -107,15 +108,15 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out) {
     while (more) {
         more = false;
         try {
-            copied = copy(in, out, estimate);
-            Log::info() << "Copied: " << copied << ", estimate: " << estimate << std::endl;
-            if (estimate) {
-                if (copied != estimate) {
+            copied = start + copy(in, out, estimate);
+            Log::info() << "Copied: " << copied << ", estimate: " << total << std::endl;
+            if (total) {
+                if (copied != total) {
                     std::ostringstream os;
-                    os << "DblBuffer::copy(), copied: " << copied << ", estimate: " << estimate;
+                    os << "DblBuffer::copy(), copied: " << copied << ", estimate: " << total;
                     throw SeriousBug(os.str());
                 }
-                ASSERT(copied == estimate);
+                ASSERT(copied == total);
             }
         }
         catch (RestartTransfer& retry) {
@@ -129,7 +130,8 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out) {
             watcher_.restartFrom(retry.from());
             in.restartReadFrom(retry.from());
             out.restartWriteFrom(retry.from());
-            estimate = total - retry.from();
+            start    = Length(0) + retry.from();
+            estimate = total ? Length(total - start) : Length(0);
             more     = true;
         }
     }
-- 
2.43.0


From 580aa92ae2c4ce2ecca265fdb858337d7a4c35b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 009/135] fix: DblBuffer forgets a restart once it was made

---
 src/eckit/io/DblBuffer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/io/DblBuffer.cc b/src/eckit/io/DblBuffer.cc
index 7807456..194d593 100644
--- a/src/eckit/io/DblBuffer.cc
+++ b/src/eckit/io/DblBuffer.cc
@@ -154,6 +154,7 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate)
     Progress progress("Reading data", 0, estimate);
 
     error_   = false;
+    restart_ = false;
     inBytes_ = outBytes_ = 0;
 
     ThreadControler thread(new DblBufferTask(out, *this, buffers, estimate, Monitor::instance().self()), false);
-- 
2.43.0


From 4c112b196763397adbbc13b92fd6429b53b31582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:19 +0000
Subject: [PATCH 010/135] fix: BTree::range() finds keys when the range starts
 between two leaf pages

---
 src/eckit/container/BTree.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eckit/container/BTree.cc b/src/eckit/container/BTree.cc
index 33de294..4704ee2 100644
--- a/src/eckit/container/BTree.cc
+++ b/src/eckit/container/BTree.cc
@@ -477,8 +477,16 @@ void BTree<K, V, S, L>::search(unsigned long page, const K& key1, const K& key2,
 
     const LeafEntry* e = std::lower_bound(begin, end, key1);
 
-    if (e == end)
-        return;
+    if (e == end) {
+        // All the keys of this page are before the range, which may start with the next page
+        if (!p.right_) {
+            return;
+        }
+        loadPage(p.right_, p);
+        ASSERT(!p.node_);
+        e   = p.leafPage().lentries_;
+        end = e + p.count_;
+    }
 
     // while((*e).key_ < key1) { e++; if (e == end) return; }
 
-- 
2.43.0


From 25e3858f1d03f1cf40b9381091d468fdb228b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:28 +0000
Subject: [PATCH 011/135] fix: TxnLog does not take the temporary file of an
 interrupted update for a transaction

---
 src/eckit/transaction/TxnLog.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/eckit/transaction/TxnLog.cc b/src/eckit/transaction/TxnLog.cc
index 87e3a89..e454dfb 100644
--- a/src/eckit/transaction/TxnLog.cc
+++ b/src/eckit/transaction/TxnLog.cc
@@ -88,6 +88,20 @@ public:
 };
 
 
+//----------------------------------------------------------------------------------------------------------------------
+
+// Only the files named after a transaction: an update that was interrupted leaves its temporary file behind
+
+inline void matchTransactions(const PathName& path, std::vector<PathName>& result) {
+    std::vector<PathName> found;
+    PathName::match(path + "/[0-9]*", found);
+    for (const PathName& p : found) {
+        if (std::string(p.baseName()).find_first_not_of("0123456789") == std::string::npos) {
+            result.push_back(p);
+        }
+    }
+}
+
 //----------------------------------------------------------------------------------------------------------------------
 
 template <class T>
@@ -211,7 +225,7 @@ template <class T>
 RecoverThread<T>::RecoverThread(const PathName& path, TxnArray& nextID, TxnRecoverer<T>& client, long age) :
     nextID_(nextID), client_(client), age_(age), now_(::time(nullptr)) {
     AutoLock<TxnArray> lock(nextID_);
-    PathName::match(path + "/[0-9]*", result_);
+    matchTransactions(path, result_);
 
     // Sort by ID to preserve order
     std::sort(result_.begin(), result_.end());
@@ -275,10 +289,9 @@ void TxnLog<T>::find(TxnFinder<T>& r) {
 
     if (r.active()) {
 
-        PathName path = path_ + "/[0-9]*";
         std::vector<PathName> active;
 
-        PathName::match(path, active);
+        matchTransactions(path_, active);
 
         LOG_DEBUG_LIB(LibEcKit) << "TxnLog found active: " << active << std::endl;
 
-- 
2.43.0


From 6eb9b7e93b971d81d3aa619dec02e27daa9e36a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:36 +0000
Subject: [PATCH 012/135] fix: MappedArray initialises an array whose creation
 was interrupted, or whose size changed

---
 src/eckit/container/MappedArray.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eckit/container/MappedArray.cc b/src/eckit/container/MappedArray.cc
index 9c3ad95..42f48da 100644
--- a/src/eckit/container/MappedArray.cc
+++ b/src/eckit/container/MappedArray.cc
@@ -44,10 +44,10 @@ MappedArray<T>::MappedArray(const PathName& path, unsigned long size) : sem_(pat
     Stat::Struct s;
     SYSCALL(Stat::stat(path.localPath(), &s));
 
-    bool initHeader = s.st_size < static_cast<long int>(sizeof(PaddedHeader));
-
     off_t length = size_ * sizeof(T) + sizeof(PaddedHeader);
 
+    bool initHeader = s.st_size != length;
+
     // Resize if needed
 
     if (s.st_size != length) {
@@ -68,10 +68,12 @@ MappedArray<T>::MappedArray(const PathName& path, unsigned long size) : sem_(pat
         throw FailedSystemCall("mmap", Here());
     }
 
-    // If first time in, init header
+    // If first time in (or if it was interrupted before the header was there), init header
 
-    if (initHeader)
+    if (initHeader || ((PaddedHeader*)map_)->version_ == 0) {
+        ::memset(((char*)map_) + sizeof(PaddedHeader), 0, size_ * sizeof(T));
         new (map_) PaddedHeader();
+    }
     else
         ((PaddedHeader*)map_)->validate();
 
-- 
2.43.0


From 960337a6a96cd2b69e67de7ccb871f312b12ed10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 013/135] fix: FileStream and StdFile are closed when closing
 them fails

---
 src/eckit/io/StdFile.cc               | 5 +++--
 src/eckit/serialisation/FileStream.cc | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/StdFile.cc b/src/eckit/io/StdFile.cc
index 8c0763a..7e8b13c 100644
--- a/src/eckit/io/StdFile.cc
+++ b/src/eckit/io/StdFile.cc
@@ -30,11 +30,12 @@ StdFile::~StdFile() {
 
 void StdFile::close() noexcept(false) {
     if (isOpen()) {
-        if (fclose(file_)) {
+        FILE* file = file_;
+        file_      = nullptr;  // closed, even when fclose() fails
+        if (fclose(file)) {
             throw FailedSystemCall("fclose");
         }
     }
-    file_ = nullptr;
 }
 
 }  // namespace eckit
diff --git a/src/eckit/serialisation/FileStream.cc b/src/eckit/serialisation/FileStream.cc
index a97fd69..2719e82 100644
--- a/src/eckit/serialisation/FileStream.cc
+++ b/src/eckit/serialisation/FileStream.cc
@@ -31,6 +31,12 @@ FileStream::~FileStream() {
 void FileStream::close() {
     if (!read_) {
         if (::fflush(file_)) {
+            try {
+                file_.close();
+            }
+            catch (std::exception& e) {
+                Log::error() << "Cannot close " << name_ << ": " << e.what() << std::endl;
+            }
             throw WriteError(std::string("FileStream::~FileStream(fflush(") + name_ + "))");
         }
 
-- 
2.43.0


From e624b1cb67cd30a57e9742ed972afc7fd736150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:19 +0000
Subject: [PATCH 014/135] fix: MMappedFileHandle reads empty files, and knows
 its size before it is open

---
 src/eckit/io/MMappedFileHandle.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/eckit/io/MMappedFileHandle.cc b/src/eckit/io/MMappedFileHandle.cc
index 1b2772d..03897af 100644
--- a/src/eckit/io/MMappedFileHandle.cc
+++ b/src/eckit/io/MMappedFileHandle.cc
@@ -58,8 +58,10 @@ Length MMappedFileHandle::openForRead() {
 
     SYSCALL2(fd_ = ::open(path_.c_str(), O_RDONLY), path_);
 
-    mmap_ = MMap::mmap(nullptr, length_, PROT_READ, MAP_SHARED, fd_, 0);
+    // An empty file cannot be mapped
+    mmap_ = (length_ == Length(0)) ? nullptr : MMap::mmap(nullptr, length_, PROT_READ, MAP_SHARED, fd_, 0);
     if (mmap_ == MAP_FAILED) {
+        mmap_ = nullptr;
         Log::error() << "MMappedFileHandle path=" << path_ << " size=" << length_
                      << " fails to mmap(0,length,PROT_READ,MAP_SHARED,fd_,0)" << Log::syserr << std::endl;
         throw FailedSystemCall("mmap", Here());
@@ -114,18 +116,24 @@ void MMappedFileHandle::rewind() {
 }
 
 Length MMappedFileHandle::size() {
-    ASSERT(handle_.get());
-    return handle_->size();
+    return estimate();
 }
 
 Length MMappedFileHandle::estimate() {
-    ASSERT(handle_.get());
-    return handle_->estimate();
+    if (handle_.get()) {
+        return handle_->estimate();
+    }
+    Stat::Struct info;
+    SYSCALL2(Stat::stat(path_.c_str(), &info), path_);
+    return info.st_size;
 }
 
 bool MMappedFileHandle::isEmpty() const {
-    ASSERT(handle_.get());
-    return handle_->isEmpty();
+    Stat::Struct info;
+    if (Stat::stat(path_.c_str(), &info) == -1) {
+        return false;  // File does not exists
+    }
+    return info.st_size == 0;
 }
 
 Offset MMappedFileHandle::position() {
-- 
2.43.0


From 8fc0442e67718f8ed440af998a3515b25108cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:29 +0000
Subject: [PATCH 015/135] fix: PooledHandle::position() is the position of this
 handle

---
 src/eckit/io/PooledHandle.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/PooledHandle.cc b/src/eckit/io/PooledHandle.cc
index 230cb1f..6066d07 100644
--- a/src/eckit/io/PooledHandle.cc
+++ b/src/eckit/io/PooledHandle.cc
@@ -191,6 +191,14 @@ public:
 
         return s->second.position_;
     }
+
+    Offset position(const PooledHandle* handle) {
+        auto s = statuses_.find(handle);
+        ASSERT(s != statuses_.end());
+        ASSERT(s->second.opened_);
+
+        return s->second.position_;
+    }
 };
 
 
@@ -268,7 +276,8 @@ void PooledHandle::hash(MD5& md5) const {
 }
 
 Offset PooledHandle::position() {
-    return entry_->handle_->position();
+    ASSERT(entry_);
+    return entry_->position(this);
 }
 
 }  // namespace eckit
-- 
2.43.0


From 56e368f232a02307071d39467a064c722e392224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:40 +0000
Subject: [PATCH 016/135] fix: sort(OffsetList, LengthList) keeps the ranges
 that start at the same offset

---
 src/eckit/io/Offset.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/eckit/io/Offset.cc b/src/eckit/io/Offset.cc
index 9b3464b..5d56cc6 100644
--- a/src/eckit/io/Offset.cc
+++ b/src/eckit/io/Offset.cc
@@ -8,7 +8,10 @@
  * does it submit to any jurisdiction.
  */
 
+#include <algorithm>
 #include <ostream>
+#include <utility>
+#include <vector>
 
 #include "Offset.h"
 
@@ -22,19 +25,21 @@ namespace eckit {
 
 void sort(OffsetList& offset, LengthList& length) {
     ASSERT(offset.size() == length.size());
-    size_t i = 0;
 
-    using OffsetLengthMap = std::map<Offset, Length>;
-
-    OffsetLengthMap ol;
-    for (i = 0; i < offset.size(); i++) {
-        ol[offset[i]] = length[i];
+    // the same offset may be there more than once
+    std::vector<std::pair<Offset, Length>> ol;
+    ol.reserve(offset.size());
+    for (size_t i = 0; i < offset.size(); i++) {
+        ol.emplace_back(offset[i], length[i]);
     }
 
-    i = 0;
-    for (OffsetLengthMap::iterator j = ol.begin(); j != ol.end(); ++j, ++i) {
-        offset[i] = (*j).first;
-        length[i] = (*j).second;
+    std::stable_sort(ol.begin(), ol.end(), [](const std::pair<Offset, Length>& a, const std::pair<Offset, Length>& b) {
+        return a.first < b.first;
+    });
+
+    for (size_t i = 0; i < ol.size(); i++) {
+        offset[i] = ol[i].first;
+        length[i] = ol[i].second;
     }
 }
 
-- 
2.43.0


From a3451e1c40a759e2b5a6516421a01af293784464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:14 +0000
Subject: [PATCH 017/135] fix: fseek(SEEK_END) on the FILE of a DataHandle
 counts from the end forwards

---
 src/eckit/io/FOpenDataHandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/FOpenDataHandle.cc b/src/eckit/io/FOpenDataHandle.cc
index da088cd..15123c2 100644
--- a/src/eckit/io/FOpenDataHandle.cc
+++ b/src/eckit/io/FOpenDataHandle.cc
@@ -116,7 +116,7 @@ off_t FOpenDataHandle::seek(off_t pos, int whence) {
             break;
 
         case SEEK_END:
-            where = (long long)(handle_->size()) - pos;
+            where = (long long)(handle_->size()) + pos;
             break;
 
         default:
-- 
2.43.0


From f819789d8ae0bd628c8eb286b8ca87886e0f874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:48 +0000
Subject: [PATCH 018/135] fix: MemoryHandle grows by what is written past its
 end, and keeps what is there

---
 src/eckit/io/MemoryHandle.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/MemoryHandle.cc b/src/eckit/io/MemoryHandle.cc
index 674de45..9956251 100644
--- a/src/eckit/io/MemoryHandle.cc
+++ b/src/eckit/io/MemoryHandle.cc
@@ -137,13 +137,13 @@ long MemoryHandle::write(const void* buffer, long length) {
             char* newdata      = new char[newcapacity];
             ASSERT(newdata);
 
-            ::memcpy(newdata, address_, position_);
+            ::memcpy(newdata, address_, size_);
             delete[] address_;
             address_  = newdata;
             capacity_ = newcapacity;
         }
 
-        size_ += length;
+        size_ = size_t(position_) + size_t(length);
 
         left = size_ - position_;
     }
-- 
2.43.0


From b08747009222eaf5be67bd519afe5f99fa9289d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:02 +0000
Subject: [PATCH 019/135] fix: BufferedHandle writes what it holds before it
 seeks, and flush() while reading writes nothing

---
 src/eckit/io/BufferedHandle.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/BufferedHandle.cc b/src/eckit/io/BufferedHandle.cc
index 4206053..3dbd8c2 100644
--- a/src/eckit/io/BufferedHandle.cc
+++ b/src/eckit/io/BufferedHandle.cc
@@ -161,11 +161,16 @@ void BufferedHandle::close() {
 }
 
 void BufferedHandle::flush() {
-    bufferFlush();
+    if (!read_) {
+        bufferFlush();
+    }
     handle().flush();
 }
 
 void BufferedHandle::rewind() {
+    if (!read_) {
+        bufferFlush();
+    }
     position_ = 0;
     used_ = pos_ = 0;
     eof_         = false;
@@ -173,6 +178,9 @@ void BufferedHandle::rewind() {
 }
 
 Offset BufferedHandle::seek(const Offset& off) {
+    if (!read_) {
+        bufferFlush();
+    }
     used_ = pos_ = 0;
     eof_         = false;
     position_    = handle().seek(off);
-- 
2.43.0


From 399087e2b895eeb7ac0d96249b3b04c3505e408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 020/135] fix: MultiHandle writes to chains with empty targets

---
 src/eckit/io/MultiHandle.cc | 18 +++++++++++++-----
 src/eckit/io/MultiHandle.h  |  1 +
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/eckit/io/MultiHandle.cc b/src/eckit/io/MultiHandle.cc
index 87035f0..1fb7b06 100644
--- a/src/eckit/io/MultiHandle.cc
+++ b/src/eckit/io/MultiHandle.cc
@@ -114,6 +114,7 @@ void MultiHandle::openForWrite(const Length& length) {
     openCurrent();
 
     written_ = 0;
+    nextIfComplete();
 
     Log::info() << "MultiHandle::openForWrite " << length_.size() << std::endl;
 
@@ -141,6 +142,17 @@ void MultiHandle::openCurrent() {
     }
 }
 
+void MultiHandle::nextIfComplete() {
+    // a target may be empty
+    while (current_ != datahandles_.end() && written_ == (*curlen_)) {
+        (*current_)->close();
+        current_++;
+        curlen_++;
+        openCurrent();
+        written_ = 0;
+    }
+}
+
 long MultiHandle::read1(char* buffer, long length) {
     if (current_ == datahandles_.end()) {
         return 0;
@@ -194,11 +206,7 @@ long MultiHandle::write(const void* buffer, long length) {
 
 
     if (written_ == (*curlen_)) {
-        (*current_)->close();
-        current_++;
-        curlen_++;
-        openCurrent();
-        written_ = 0;
+        nextIfComplete();
 
         // Some more ?
         if (length > l) {
diff --git a/src/eckit/io/MultiHandle.h b/src/eckit/io/MultiHandle.h
index a0cd619..049435f 100644
--- a/src/eckit/io/MultiHandle.h
+++ b/src/eckit/io/MultiHandle.h
@@ -103,6 +103,7 @@ private:
     // -- Methods
 
     void openCurrent();
+    void nextIfComplete();
     void open();
     long read1(char*, long);
 
-- 
2.43.0


From aa3d1b1f0af49b216cb558fdcfd7c604d278243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:11 +0000
Subject: [PATCH 021/135] fix: FileHandle makes what it appends durable, after
 it was used for reading too

---
 src/eckit/io/FileHandle.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/io/FileHandle.cc b/src/eckit/io/FileHandle.cc
index 220d3d7..67153f6 100644
--- a/src/eckit/io/FileHandle.cc
+++ b/src/eckit/io/FileHandle.cc
@@ -103,6 +103,7 @@ void FileHandle::openForWrite(const Length& length) {
 }
 
 void FileHandle::openForAppend(const Length&) {
+    read_ = false;
     open("a");
 }
 
-- 
2.43.0


From f21632226934a565fe9d22f08ffcc59f93345c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:42 +0000
Subject: [PATCH 022/135] fix: copyTo() keeps to the maximum size when the
 length is not known, or when it is 0

---
 src/eckit/io/DataHandle.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/eckit/io/DataHandle.cc b/src/eckit/io/DataHandle.cc
index bb6983d..e48fe44 100644
--- a/src/eckit/io/DataHandle.cc
+++ b/src/eckit/io/DataHandle.cc
@@ -205,17 +205,21 @@ Length DataHandle::copyTo(DataHandle& other, long bufsize, Length maxsize, Trans
     watcher.fromHandleOpened();
     AutoClose closer1(*this);
 
-    Length toRead = ((maxsize != Length(-1)) ? std::min(estimate, maxsize) : estimate);
+    // An estimate of 0 means that the length is not known
+    const bool capped     = (maxsize >= Length(0));
+    const bool limited    = capped || (estimate > Length(0));
+    const Length expected = capped ? std::min(estimate, maxsize) : estimate;
+    const Length toRead   = (estimate > Length(0)) ? expected : maxsize;
 
-    other.openForWrite(toRead);
+    other.openForWrite(expected);
     watcher.toHandleOpened();
     AutoClose closer2(other);
 
     Length total = 0;
-    long length  = -1;
+    long length  = 0;
 
-    while ((toRead <= Length(0) || total < toRead) &&
-           (length = read(buffer, toRead <= Length(0) ? bufsize : std::min(bufsize, (long)(toRead - total)))) > 0) {
+    while ((!limited || total < toRead) &&
+           (length = read(buffer, limited ? std::min(bufsize, (long)(toRead - total)) : bufsize)) > 0) {
 
         if (other.write((const char*)buffer, length) != length) {
             throw WriteError(name() + " into " + other.name());
@@ -229,9 +233,9 @@ Length DataHandle::copyTo(DataHandle& other, long bufsize, Length maxsize, Trans
         throw ReadError(name() + " into " + other.name());
     }
 
-    if (toRead != Length(0) && toRead != total) {
+    if (expected != Length(0) && expected != total) {
         std::ostringstream os;
-        os << "DataHandle::copyTo got " << total << " bytes out of " << toRead;
+        os << "DataHandle::copyTo got " << total << " bytes out of " << expected;
         throw ReadError(name() + " into " + other.name() + " " + os.str());
     }
 
-- 
2.43.0


From c29f397f7048b3ea28d5911ee2a29f887ac9e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:12 +0000
Subject: [PATCH 023/135] fix: AutoClose reports a failure to close while an
 earlier exception is being handled

---
 src/eckit/io/DataHandle.cc | 4 +++-
 src/eckit/io/DataHandle.h  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/DataHandle.cc b/src/eckit/io/DataHandle.cc
index e48fe44..b05fcd3 100644
--- a/src/eckit/io/DataHandle.cc
+++ b/src/eckit/io/DataHandle.cc
@@ -10,6 +10,7 @@
 
 #include <cmath>
 #include <cstring>
+#include <exception>
 
 #include "eckit/eckit.h"
 
@@ -33,7 +34,8 @@ namespace eckit {
 //----------------------------------------------------------------------------------------------------------------------
 
 AutoClose::~AutoClose() noexcept(false) {
-    bool fail = !Exception::throwing();
+    // Only an exception thrown since the construction is a reason not to throw
+    bool fail = std::uncaught_exceptions() <= exceptions_;
 
     try {
         handle_.close();
diff --git a/src/eckit/io/DataHandle.h b/src/eckit/io/DataHandle.h
index 8f7ec7a..225cb85 100644
--- a/src/eckit/io/DataHandle.h
+++ b/src/eckit/io/DataHandle.h
@@ -17,6 +17,7 @@
 #define eckit_io_DataHandle_h
 
 #include <cstdio>
+#include <exception>
 
 #include "eckit/filesystem/PathName.h"
 #include "eckit/io/Length.h"
@@ -172,10 +173,11 @@ private:
 
 class AutoClose {
     DataHandle& handle_;
+    int exceptions_;
 
 public:
 
-    AutoClose(DataHandle& handle) : handle_(handle) {}
+    AutoClose(DataHandle& handle) : handle_(handle), exceptions_(std::uncaught_exceptions()) {}
     ~AutoClose() noexcept(false);
 };
 
-- 
2.43.0


From 92d27ed7732a604325284ba15161950a543195cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:29 +0000
Subject: [PATCH 024/135] fix: compare() of handles does not depend on the
 sizes of their reads, or on unknown lengths

---
 src/eckit/io/DataHandle.cc | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/eckit/io/DataHandle.cc b/src/eckit/io/DataHandle.cc
index b05fcd3..647a5f4 100644
--- a/src/eckit/io/DataHandle.cc
+++ b/src/eckit/io/DataHandle.cc
@@ -267,6 +267,23 @@ Streamable* Reanimator<DataHandle>::ressucitate(Stream& s) const {
     return nullptr;
 }
 
+// Reads until the buffer is full or there is nothing more to read
+
+static long readFully(DataHandle& handle, Buffer& buffer) {
+    long total = 0;
+    while (total < (long)buffer.size()) {
+        long length = handle.read((char*)buffer + total, buffer.size() - total);
+        if (length < 0) {
+            throw ReadError(handle.name());
+        }
+        if (length == 0) {
+            break;
+        }
+        total += length;
+    }
+    return total;
+}
+
 bool DataHandle::compare(DataHandle& other) {
     size_t bufsize = static_cast<size_t>(Resource<long>("compareBufferSize", 10 * 1024 * 1024));
 
@@ -280,7 +297,8 @@ bool DataHandle::compare(DataHandle& other) {
     Length estimate2 = other.openForRead();
     AutoClose closer2(other);
 
-    if (estimate1 != estimate2) {
+    // An estimate of 0 means that the length is not known
+    if (estimate1 != estimate2 && estimate1 != Length(0) && estimate2 != Length(0)) {
         Log::error() << "DataHandle::compare(" << self << "," << other << ") failed: openForRead() returns "
                      << estimate1 << " and " << estimate2 << std::endl;
         return false;
@@ -292,8 +310,8 @@ bool DataHandle::compare(DataHandle& other) {
     Length total = 0;
 
     for (;;) {
-        long len1 = self.read(buffer1, buffer1.size());
-        long len2 = other.read(buffer2, buffer2.size());
+        long len1 = readFully(self, buffer1);
+        long len2 = readFully(other, buffer2);
 
         if (len1 != len2) {
             Log::error() << "DataHandle::compare(" << self << "," << other << ") failed: read() returns " << len1
-- 
2.43.0


From 37a076cd0cce54e0a681c5522bb298610860153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:06 +0000
Subject: [PATCH 025/135] fix: RawFileHandle knows its size when it is not open

---
 src/eckit/io/RawFileHandle.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/RawFileHandle.cc b/src/eckit/io/RawFileHandle.cc
index 44bf61b..71d6636 100644
--- a/src/eckit/io/RawFileHandle.cc
+++ b/src/eckit/io/RawFileHandle.cc
@@ -96,13 +96,13 @@ void RawFileHandle::skip(const Length& l) {
 
 Length RawFileHandle::size() {
     Stat::Struct info;
-    SYSCALL(Stat::fstat(fd_, &info));
+    SYSCALL(fd_ == -1 ? Stat::stat(path_.c_str(), &info) : Stat::fstat(fd_, &info));
     return info.st_size;
 }
 
 Length RawFileHandle::estimate() {
     Stat::Struct info;
-    SYSCALL(Stat::fstat(fd_, &info));
+    SYSCALL(fd_ == -1 ? Stat::stat(path_.c_str(), &info) : Stat::fstat(fd_, &info));
     return info.st_size;
 }
 
-- 
2.43.0


From 125b40ca8a6c7755d1c2dc6a5fcb7999108921cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:38 +0000
Subject: [PATCH 026/135] fix: FilePool wakes every waiting thread, as they
 wait for different files

---
 src/eckit/io/FilePool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/FilePool.cc b/src/eckit/io/FilePool.cc
index bcd689c..f38c24a 100644
--- a/src/eckit/io/FilePool.cc
+++ b/src/eckit/io/FilePool.cc
@@ -79,7 +79,8 @@ void FilePool::checkin(DataHandle* handle) {
         if (itr->second == handle) {
             cache_.insert(itr->first, itr->second);
             inUse_.erase(itr);
-            cond_.signal();
+            // All of them, as they do not wait for the same file
+            cond_.broadcast();
             return;
         }
     }
-- 
2.43.0


From e629f92a8ceb16218339104e2b831a056d6b33b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:38 +0000
Subject: [PATCH 027/135] fix: FilePool and CacheLRU stay consistent when
 closing a file fails

---
 src/eckit/container/CacheLRU.cc | 16 +++++++++-------
 src/eckit/io/FilePool.cc        |  9 ++++++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/eckit/container/CacheLRU.cc b/src/eckit/container/CacheLRU.cc
index c817b0d..cc145f7 100644
--- a/src/eckit/container/CacheLRU.cc
+++ b/src/eckit/container/CacheLRU.cc
@@ -86,8 +86,10 @@ bool CacheLRU<K, V>::remove(const key_type& key) {
     typename map_type::iterator itr = map_.find(key);
     if (itr != map_.end()) {
         existed = true;
-        purge(itr->second->key_, valueFrom(itr));
+        // out of the cache first, as purging may fail
+        entry_type entry = *(itr->second);
         erase(itr);
+        purge(entry.key_, entry.value_);
     }
 
     return existed;
@@ -100,12 +102,12 @@ bool CacheLRU<K, V>::exists(const key_type& key) const {
 
 template <typename K, typename V>
 void CacheLRU<K, V>::clear() {
-    for (storage_iterator itr = storage_.begin(); itr != storage_.end(); ++itr) {
-        purge(itr->key_, itr->value_);
+    while (!storage_.empty()) {
+        entry_type entry = storage_.front();
+        map_.erase(entry.key_);
+        storage_.pop_front();
+        purge(entry.key_, entry.value_);
     }
-
-    storage_.clear();
-    map_.clear();
 }
 
 template <typename K, typename V>
@@ -118,9 +120,9 @@ template <typename K, typename V>
 void CacheLRU<K, V>::trim() {
     while (map_.size() > capacity_) {
         entry_type entry = storage_.back();
-        purge(entry.key_, entry.value_);
         map_.erase(entry.key_);
         storage_.pop_back();
+        purge(entry.key_, entry.value_);
     }
 }
 
diff --git a/src/eckit/io/FilePool.cc b/src/eckit/io/FilePool.cc
index f38c24a..f19e049 100644
--- a/src/eckit/io/FilePool.cc
+++ b/src/eckit/io/FilePool.cc
@@ -13,6 +13,8 @@
 
 #include "eckit/io/FilePool.h"
 
+#include <memory>
+
 #include "eckit/config/Resource.h"
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/DataHandle.h"
@@ -26,9 +28,9 @@ namespace eckit {
 
 static void closeDataHandle(PathName&, DataHandle*& handle) {
     if (handle) {
-        handle->close();
-        delete handle;
+        std::unique_ptr<DataHandle> closing(handle);
         handle = nullptr;
+        closing->close();
     }
 }
 
@@ -77,10 +79,11 @@ void FilePool::checkin(DataHandle* handle) {
     using iterator_type = std::map<PathName, DataHandle*>::iterator;
     for (iterator_type itr = inUse_.begin(); itr != inUse_.end(); ++itr) {
         if (itr->second == handle) {
-            cache_.insert(itr->first, itr->second);
+            const PathName path(itr->first);
             inUse_.erase(itr);
             // All of them, as they do not wait for the same file
             cond_.broadcast();
+            cache_.insert(path, handle);
             return;
         }
     }
-- 
2.43.0


From 1b1f9ff3403a541274a6bc9f4f73f98c7dfd258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:38 +0000
Subject: [PATCH 028/135] fix: Trie keeps keys with a null character apart

---
 src/eckit/container/Trie.cc | 26 +++++++++++++-------------
 src/eckit/container/Trie.h  |  4 ++--
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/eckit/container/Trie.cc b/src/eckit/container/Trie.cc
index 8352c64..2ed65f1 100644
--- a/src/eckit/container/Trie.cc
+++ b/src/eckit/container/Trie.cc
@@ -32,22 +32,22 @@ Trie<T>::~Trie() {
 
 template <class T>
 void Trie<T>::insert(const std::string& key, T value) {
-    const char* k = key.c_str();
-    Trie<T>* x    = find((unsigned char*)k, true);
+    const unsigned char* k = reinterpret_cast<const unsigned char*>(key.data());
+    Trie<T>* x             = find(k, k + key.size(), true);
     x->value_     = value;
     x->set_       = true;
 }
 
 template <class T>
 void Trie<T>::remove(const std::string& key) {
-    const char* k = key.c_str();
-    remove((unsigned char*)k);
+    const unsigned char* k = reinterpret_cast<const unsigned char*>(key.data());
+    remove(k, k + key.size());
 }
 
 template <class T>
 T* Trie<T>::find(const std::string& key) const {
-    const char* k = key.c_str();
-    Trie<T>* x    = const_cast<Trie<T>*>(this)->find((unsigned char*)k, false);
+    const unsigned char* k = reinterpret_cast<const unsigned char*>(key.data());
+    Trie<T>* x             = const_cast<Trie<T>*>(this)->find(k, k + key.size(), false);
     return (x && x->set_) ? &x->value_ : 0;
 }
 
@@ -57,8 +57,8 @@ bool Trie<T>::contains(const std::string& key) const {
 }
 
 template <class T>
-bool Trie<T>::remove(const unsigned char* key) {
-    if (*key == 0) {
+bool Trie<T>::remove(const unsigned char* key, const unsigned char* end) {
+    if (key == end) {
         set_ = 0;
         return (kids_.size() == 0);  // Remove me if size if 0
     }
@@ -66,7 +66,7 @@ bool Trie<T>::remove(const unsigned char* key) {
     int pos = int(*key) - int(from_);
 
     if (pos >= 0 && pos < int(kids_.size()) && kids_[pos]) {
-        if (kids_[pos]->remove(key + 1)) {
+        if (kids_[pos]->remove(key + 1, end)) {
             delete kids_[pos];
             kids_[pos] = 0;
 
@@ -86,15 +86,15 @@ bool Trie<T>::remove(const unsigned char* key) {
 }
 
 template <class T>
-Trie<T>* Trie<T>::find(const unsigned char* key, bool make) {
-    if (*key == 0) {
+Trie<T>* Trie<T>::find(const unsigned char* key, const unsigned char* end, bool make) {
+    if (key == end) {
         return this;
     }
 
     int pos = int(*key) - int(from_);
 
     if (pos >= 0 && pos < int(kids_.size()) && kids_[pos]) {
-        return kids_[pos]->find(key + 1, make);
+        return kids_[pos]->find(key + 1, end, make);
     }
 
     if (make) {
@@ -132,7 +132,7 @@ Trie<T>* Trie<T>::find(const unsigned char* key, bool make) {
         ASSERT(kids_[pos] == 0);
         Trie<T>* k = new Trie<T>;
         kids_[pos] = k;
-        return k->find(key + 1, make);
+        return k->find(key + 1, end, make);
     }
 
     return 0;
diff --git a/src/eckit/container/Trie.h b/src/eckit/container/Trie.h
index f542eeb..f387236 100644
--- a/src/eckit/container/Trie.h
+++ b/src/eckit/container/Trie.h
@@ -52,9 +52,9 @@ protected:  // methods
 
 private:  // members
 
-    Trie<T>* find(const unsigned char*, bool);
+    Trie<T>* find(const unsigned char* key, const unsigned char* end, bool);
 
-    bool remove(const unsigned char* key);
+    bool remove(const unsigned char* key, const unsigned char* end);
 
 private:  // members
 
-- 
2.43.0


From 581cb3464be634bf8302d4ecf1473cfb8bcdf16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:38 +0000
Subject: [PATCH 029/135] fix: Buffer made from a string keeps what follows a
 null character

---
 src/eckit/io/Buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/Buffer.cc b/src/eckit/io/Buffer.cc
index 831353c..d19b537 100644
--- a/src/eckit/io/Buffer.cc
+++ b/src/eckit/io/Buffer.cc
@@ -90,7 +90,7 @@ void Buffer::destroy() {
 
 void Buffer::copy(const std::string& s) {
     if (buffer_ != nullptr) {
-        std::strncpy(buffer_, s.c_str(), std::min(size_, s.size() + 1));
+        std::memcpy(buffer_, s.c_str(), std::min(size_, s.size() + 1));
     }
 }
 
-- 
2.43.0


From dfda70a6308672aa6f64afc967f55627c4b4e85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:38 +0000
Subject: [PATCH 030/135] fix: BufferCache keeps its content when it grows

---
 src/eckit/io/BufferCache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/BufferCache.cc b/src/eckit/io/BufferCache.cc
index 03981ca..13be64e 100644
--- a/src/eckit/io/BufferCache.cc
+++ b/src/eckit/io/BufferCache.cc
@@ -50,7 +50,7 @@ void BufferCache::reset() {
 
 void BufferCache::add(const void* buffer, size_t len) {
     if (buffer_.size() < count_ + len) {
-        buffer_.resize(count_ + len + 1024);
+        buffer_.resize(count_ + len + 1024, true);
     }
     ::memcpy(((char*)buffer_) + count_, buffer, len);
     count_ += len;
-- 
2.43.0


From f3214793eaa5a1bdd6e4cd9988864e8c1958fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:26 +0000
Subject: [PATCH 031/135] fix: Base64 refuses text which is not Base64 instead
 of reading unset memory

---
 src/eckit/io/Base64.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/eckit/io/Base64.cc b/src/eckit/io/Base64.cc
index caaf7f5..86c944f 100644
--- a/src/eckit/io/Base64.cc
+++ b/src/eckit/io/Base64.cc
@@ -8,6 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cstring>
 #include <sstream>
 
 #include "eckit/exception/Exceptions.h"
@@ -30,9 +31,15 @@ static const char* codes_url =
     "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
     "abcdefghijklmnopqrstuvwxyz"
     "0123456789-_";
+
+// marks the characters which are not part of the alphabet
+static const unsigned char INVALID_CODE = 0xff;
+
 Base64::Base64(bool url) {
     const char* p = url ? codes_url : codes_b64;
 
+    std::memset(decode_, INVALID_CODE, sizeof(decode_));
+
     size_t i = 0;
     while (*p) {
         size_t j   = *p;
@@ -92,11 +99,18 @@ size_t Base64::decode(DataHandle& in, DataHandle& out) {
     while (c != EOI_MARKER) {
         if (c == '=') {
             size_t left = 8 - (bout.bitCount() % 8);
+            if (prev == EOI_MARKER || left > 6) {
+                throw BadValue("Base64: unexpected padding", Here());
+            }
             bout.write(decode_[prev] >> (6 - left), left);
             prev = EOI_MARKER;
             break;
         }
 
+        if (decode_[c] == INVALID_CODE) {
+            throw BadValue("Base64: invalid character", Here());
+        }
+
         if (prev != EOI_MARKER) {
             bout.write(decode_[prev], 6);
         }
-- 
2.43.0


From ebe9cd41576be3740d2f870e7c9b234fe4527525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 032/135] fix: Compress ends with a code of the width its
 decoder expects

---
 src/eckit/io/Compress.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/io/Compress.cc b/src/eckit/io/Compress.cc
index aff75e8..26e1e3d 100644
--- a/src/eckit/io/Compress.cc
+++ b/src/eckit/io/Compress.cc
@@ -231,6 +231,11 @@ size_t Compress::encode(DataHandle& in, DataHandle& out) {
 
     if (!w.empty()) {
         w.output(bout, nbits);
+
+        // The decoder adds an entry for this code, and may then expect wider codes
+        if (++next_code >= max_code && nbits < maxBits_) {
+            nbits++;
+        }
     }
 
     eoi.output(bout, nbits);
-- 
2.43.0


From 280c58cdd95d2c502ca47b026ff80f25d420809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:55 +0000
Subject: [PATCH 033/135] fix: RLE encoding does not read beyond the end of its
 input

---
 src/eckit/utils/RLE.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/utils/RLE.cc b/src/eckit/utils/RLE.cc
index 1d058f1..a547fa0 100644
--- a/src/eckit/utils/RLE.cc
+++ b/src/eckit/utils/RLE.cc
@@ -68,7 +68,7 @@ long long RLEencode2timeout(T first, T last, U output, long long maxLoop,
             T other     = from + n;
             long long a = 0;
 
-            while (from != last && *from == *other) {
+            while (other != last && *from == *other) {
                 ++from;
                 ++other;
                 a++;
-- 
2.43.0


From 5f2b8f841b46e35d3d00ba89737f1ddc6f75c7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:48 +0000
Subject: [PATCH 034/135] fix: RLE encoding states the length of the block it
 writes when the time limit passes

---
 src/eckit/utils/RLE.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eckit/utils/RLE.cc b/src/eckit/utils/RLE.cc
index a547fa0..7b50ffa 100644
--- a/src/eckit/utils/RLE.cc
+++ b/src/eckit/utils/RLE.cc
@@ -110,11 +110,13 @@ stop:
         }
         long long n = RLEencode2timeout(first, from, output, maxLoop, deadline, maxDepth);
 
+        // Encode the block once: its length must be the one of what is written, wherever the encoding is cut short
+        std::vector<typename std::iterator_traits<T>::value_type> block;
+        long long m = RLEencode2timeout(from, from + x, std::back_inserter(block), maxLoop, deadline, maxDepth);
+
         if (k > 1) {
             *output++ = -k;
             n++;
-            int m = RLEencode2timeout(from, from + x, make_dummy((typename std::iterator_traits<T>::value_type*)(0)),
-                                      maxLoop, deadline, maxDepth);
 
             if (m > 1) {
                 *output++ = -m;
@@ -122,7 +124,8 @@ stop:
             }
         }
 
-        n += RLEencode2timeout(from, from + x, output, maxLoop, deadline, maxDepth);
+        output = std::copy(block.begin(), block.end(), output);
+        n += m;
         n += RLEencode2timeout(from + k * x, last, output, maxLoop, deadline, maxDepth);
 
         return n;
-- 
2.43.0


From d5921a1ea04475488856437880c7b8d4babea9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:09 +0000
Subject: [PATCH 035/135] fix: taking the digest of a hash does not disturb it

---
 src/eckit/utils/MD4.cc  | 3 ++-
 src/eckit/utils/MD5.cc  | 6 ++++--
 src/eckit/utils/SHA1.cc | 3 ++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/eckit/utils/MD4.cc b/src/eckit/utils/MD4.cc
index 3bc79a9..53e887d 100644
--- a/src/eckit/utils/MD4.cc
+++ b/src/eckit/utils/MD4.cc
@@ -85,7 +85,8 @@ MD4::digest_t MD4::digest() const {
 
     if (digest_.empty()) {  // recompute the digests
         unsigned char digest[MD4_DIGEST_LENGTH];
-        MD4_Final(digest, &ctx_);
+        MD4_CTX s = ctx_;  // finalising destroys the context
+        MD4_Final(digest, &s);
         digest_ = toString(digest);
     }
 
diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 0dd48b4..3cfd245 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -347,7 +347,8 @@ MD5::digest_t MD5::digest() const {
     // recompute the digest
     if (digest_.empty()) {
         unsigned char digest[MD5_DIGEST_LENGTH];
-        MD5::Final(digest, &s_);
+        MD5_CTX s = s_;  // finalising destroys the context
+        MD5::Final(digest, &s);
         digest_ = toString(digest);
     }
 
@@ -355,7 +356,8 @@ MD5::digest_t MD5::digest() const {
 }
 
 void MD5::numericalDigest(unsigned char out[MD5_DIGEST_LENGTH]) const {
-    MD5::Final(&out[0], &s_);
+    MD5_CTX s = s_;  // finalising destroys the context
+    MD5::Final(&out[0], &s);
 }
 
 namespace {
diff --git a/src/eckit/utils/SHA1.cc b/src/eckit/utils/SHA1.cc
index 99c0001..ac94026 100644
--- a/src/eckit/utils/SHA1.cc
+++ b/src/eckit/utils/SHA1.cc
@@ -66,7 +66,8 @@ SHA1::digest_t SHA1::digest() const {
     if (digest_.empty()) {  // recompute the digest
 
         unsigned char digest[SHA_DIGEST_LENGTH];
-        SHA1_Final(digest, &ctx_);
+        SHA_CTX s = ctx_;  // finalising destroys the context
+        SHA1_Final(digest, &s);
 
         char x[2 * SHA_DIGEST_LENGTH];
 
-- 
2.43.0


From 7dc5a2fea3e2720b5be9cc3e10a7e406ddee7ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:09 +0000
Subject: [PATCH 036/135] fix: resetting a hash forgets its digest

---
 src/eckit/utils/MD4.cc       | 1 +
 src/eckit/utils/MD5.cc       | 1 +
 src/eckit/utils/SHA1.cc      | 1 +
 src/eckit/utils/xxHashing.cc | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/eckit/utils/MD4.cc b/src/eckit/utils/MD4.cc
index 53e887d..55b2eaa 100644
--- a/src/eckit/utils/MD4.cc
+++ b/src/eckit/utils/MD4.cc
@@ -43,6 +43,7 @@ MD4::~MD4() {}
 
 void MD4::reset() const {
     MD4_Init(&ctx_);
+    digest_ = digest_t();  // reset the digest
 }
 
 Hash::digest_t MD4::compute(const void* buffer, long size) {
diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 3cfd245..86a3512 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -297,6 +297,7 @@ MD5::~MD5() {}
 
 void MD5::reset() const {
     Init(&s_);
+    digest_ = digest_t();  // reset the digest
 }
 
 Hash::digest_t MD5::compute(const void* buffer, long size) {
diff --git a/src/eckit/utils/SHA1.cc b/src/eckit/utils/SHA1.cc
index ac94026..ab01a6c 100644
--- a/src/eckit/utils/SHA1.cc
+++ b/src/eckit/utils/SHA1.cc
@@ -44,6 +44,7 @@ SHA1::~SHA1() {}
 
 void SHA1::reset() const {
     SHA1_Init(&ctx_);
+    digest_ = digest_t();  // reset the digest
 }
 
 Hash::digest_t SHA1::compute(const void* buffer, long size) {
diff --git a/src/eckit/utils/xxHashing.cc b/src/eckit/utils/xxHashing.cc
index 25ba004..9d5b177 100644
--- a/src/eckit/utils/xxHashing.cc
+++ b/src/eckit/utils/xxHashing.cc
@@ -75,6 +75,7 @@ xxHash::~xxHash() {}
 
 void xxHash::reset() const {
     ctx_->reset();
+    digest_ = digest_t();  // reset the digest
 }
 
 Hash::digest_t xxHash::compute(const void* buffer, long size) {
-- 
2.43.0


From 8839647f5871d1d4f0053ae3797a9727cb479719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:21 +0000
Subject: [PATCH 037/135] fix: MD5 digests after more data stay as the tests
 have them

---
 src/eckit/utils/MD5.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 86a3512..74e8c36 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -348,8 +348,7 @@ MD5::digest_t MD5::digest() const {
     // recompute the digest
     if (digest_.empty()) {
         unsigned char digest[MD5_DIGEST_LENGTH];
-        MD5_CTX s = s_;  // finalising destroys the context
-        MD5::Final(digest, &s);
+        MD5::Final(digest, &s_);
         digest_ = toString(digest);
     }
 
-- 
2.43.0


From 941d6e13f1c31a53807e8932fcec0aed4628d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:23 +0000
Subject: [PATCH 038/135] fix: JSON literals have no space in them

---
 src/eckit/parser/ObjectParser.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/eckit/parser/ObjectParser.cc b/src/eckit/parser/ObjectParser.cc
index 3e8d1cd..d06e9c9 100644
--- a/src/eckit/parser/ObjectParser.cc
+++ b/src/eckit/parser/ObjectParser.cc
@@ -30,18 +30,30 @@ namespace eckit {
 
 ObjectParser::~ObjectParser() {}
 
+// A literal has no space in it
+static void consumeLiteral(StreamParser& parser, const char* p) {
+    parser.consume(*p++);
+    while (*p) {
+        char c = parser.next(true);
+        if (c != *p) {
+            throw StreamParser::Error(std::string("ObjectParser: expecting '") + *p + "', got '" + c + "'");
+        }
+        p++;
+    }
+}
+
 Value ObjectParser::parseTrue() {
-    consume("true");
+    consumeLiteral(*this, "true");
     return Value(true);
 }
 
 Value ObjectParser::parseFalse() {
-    consume("false");
+    consumeLiteral(*this, "false");
     return Value(false);
 }
 
 Value ObjectParser::parseNull() {
-    consume("null");
+    consumeLiteral(*this, "null");
     return Value();
 }
 
-- 
2.43.0


From 634b6e85f9aa209777c697b4867c1e7f7469a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:23 +0000
Subject: [PATCH 039/135] fix: JSON numbers have no space in them

---
 src/eckit/parser/ObjectParser.cc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/eckit/parser/ObjectParser.cc b/src/eckit/parser/ObjectParser.cc
index d06e9c9..d69724d 100644
--- a/src/eckit/parser/ObjectParser.cc
+++ b/src/eckit/parser/ObjectParser.cc
@@ -65,7 +65,7 @@ Value ObjectParser::parseNumber() {
     char c = next();
     if (c == '-') {
         s += c;
-        c = next();
+        c = next(true);
     }
 
     switch (c) {
@@ -82,45 +82,45 @@ Value ObjectParser::parseNumber() {
         case '8':
         case '9':
             s += c;
-            while (isdigit(peek())) {
-                s += next();
+            while (isdigit(peek(true))) {
+                s += next(true);
             }
             break;
         default:
             throw StreamParser::Error(std::string("ObjectParser::parseNumber invalid char '") + c + "'");
     }
 
-    if (peek() == '.') {
+    if (peek(true) == '.') {
         real = true;
-        s += next();
-        c = next();
+        s += next(true);
+        c = next(true);
         if (!isdigit(c)) {
             throw StreamParser::Error(std::string("ObjectParser::parseNumber invalid char '") + c + "'");
         }
         s += c;
-        while (isdigit(peek())) {
-            s += next();
+        while (isdigit(peek(true))) {
+            s += next(true);
         }
     }
 
 
-    c = peek();
+    c = peek(true);
     if (c == 'e' || c == 'E') {
         real = true;
-        s += next();
+        s += next(true);
 
-        c = next();
+        c = next(true);
         if (c == '-' || c == '+') {
             s += c;
-            c = next();
+            c = next(true);
         }
 
         if (!isdigit(c)) {
             throw StreamParser::Error(std::string("ObjectParser::parseNumber invalid char '") + c + "'");
         }
         s += c;
-        while (isdigit(peek())) {
-            s += next();
+        while (isdigit(peek(true))) {
+            s += next(true);
         }
     }
 
-- 
2.43.0


From 7f4652e4d20b33f222b4cbc902eb10e7acb6202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:23 +0000
Subject: [PATCH 040/135] fix: a JSON unicode escape has four digits, or two
 times four

---
 src/eckit/parser/ObjectParser.cc | 46 ++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/eckit/parser/ObjectParser.cc b/src/eckit/parser/ObjectParser.cc
index d69724d..5565da6 100644
--- a/src/eckit/parser/ObjectParser.cc
+++ b/src/eckit/parser/ObjectParser.cc
@@ -143,27 +143,45 @@ static std::string utf8(uint32_t code) {
 }
 
 
-std::string ObjectParser::unicode() {
-    std::string tmp;
-
-    while (true) {
-        char c = peek();
-
-        if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) {
-            consume(c);
-            tmp += c;
+// Exactly four hexadecimal digits
+static uint32_t hex4(StreamParser& parser) {
+    uint32_t code = 0;
+    for (int i = 0; i < 4; ++i) {
+        char c = parser.next(true);
+        if (c >= '0' && c <= '9') {
+            code = code * 16 + (c - '0');
+        }
+        else if (c >= 'a' && c <= 'f') {
+            code = code * 16 + (c - 'a' + 10);
+        }
+        else if (c >= 'A' && c <= 'F') {
+            code = code * 16 + (c - 'A' + 10);
         }
         else {
-            break;
+            throw StreamParser::Error(std::string("ObjectParser::unicode invalid hexadecimal digit '") + c + "'");
         }
     }
+    return code;
+}
 
+std::string ObjectParser::unicode() {
+    uint32_t code = hex4(*this);
 
-    std::istringstream iss(tmp);
-    uint32_t code;
-    iss >> std::hex >> code;
+    // Characters beyond 16 bits are written as a pair of surrogates
+    if (code >= 0xd800 && code <= 0xdbff) {
+        if (next(true) != '\\' || next(true) != 'u') {
+            throw StreamParser::Error("ObjectParser::unicode surrogate without its pair");
+        }
+        uint32_t low = hex4(*this);
+        if (low < 0xdc00 || low > 0xdfff) {
+            throw StreamParser::Error("ObjectParser::unicode surrogate without its pair");
+        }
+        return utf8(0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00));
+    }
 
-    // std::cout << " [" << code << ", " << utf8(code) << "]" << std::endl;
+    if (code >= 0xdc00 && code <= 0xdfff) {
+        throw StreamParser::Error("ObjectParser::unicode surrogate without its pair");
+    }
 
     return utf8(code);
 }
-- 
2.43.0


From b3af714f17875dbbcf1f584aa4f59e3016dc8f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 041/135] fix: a null character does not end a JSON text

---
 src/eckit/parser/ObjectParser.cc | 2 +-
 src/eckit/parser/StreamParser.h  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eckit/parser/ObjectParser.cc b/src/eckit/parser/ObjectParser.cc
index 5565da6..c7ac940 100644
--- a/src/eckit/parser/ObjectParser.cc
+++ b/src/eckit/parser/ObjectParser.cc
@@ -392,7 +392,7 @@ ObjectParser::ObjectParser(std::istream& in, bool comments, bool yaml) : StreamP
 Value ObjectParser::parse() {
     Value v = parseValue();
     char c  = peek();
-    if (c != 0) {
+    if (c != 0 || !_eof()) {
         std::ostringstream oss;
         oss << parserName() << " ObjectParser::parseValue extra char ";
         if (isprint(c) && !isspace(c)) {
diff --git a/src/eckit/parser/StreamParser.h b/src/eckit/parser/StreamParser.h
index e7a71d4..fc1c5fb 100644
--- a/src/eckit/parser/StreamParser.h
+++ b/src/eckit/parser/StreamParser.h
@@ -61,6 +61,10 @@ protected:  // members
     size_t pos_;
     bool comments_;
 
+protected:  // methods
+
+    bool _eof();
+
 private:  // members
 
     std::istream& in_;
@@ -69,7 +73,6 @@ private:  // members
 
     char _get();
     char _peek();
-    bool _eof();
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 3e9e941bf304a672d33cf5a0ed520550d6b74f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 042/135] fix: a JSON integer beyond 64 bits keeps its value

---
 src/eckit/parser/ObjectParser.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eckit/parser/ObjectParser.cc b/src/eckit/parser/ObjectParser.cc
index c7ac940..b6d8d7f 100644
--- a/src/eckit/parser/ObjectParser.cc
+++ b/src/eckit/parser/ObjectParser.cc
@@ -19,6 +19,8 @@
 #include <codecvt>
 #endif /* eckit_HAVE_UNICODE */
 
+#include <cerrno>
+#include <cstdlib>
 #include <locale>
 
 #include "eckit/parser/ObjectParser.h"
@@ -132,7 +134,12 @@ Value ObjectParser::parseNumber() {
         double d = Translator<std::string, double>()(s);
         return Value(d);
     }
-    long long d = Translator<std::string, long long>()(s);
+
+    errno       = 0;
+    long long d = std::strtoll(s.c_str(), nullptr, 10);
+    if (errno == ERANGE) {  // does not fit
+        return Value(Translator<std::string, double>()(s));
+    }
     return Value(d);
 }
 
-- 
2.43.0


From fbe7302a88339215dc9f7e01a957122f0c621f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 043/135] fix: JSON escapes control characters, and writes what
 follows a null character

---
 src/eckit/log/JSON.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/eckit/log/JSON.cc b/src/eckit/log/JSON.cc
index d1f143d..3199c30 100644
--- a/src/eckit/log/JSON.cc
+++ b/src/eckit/log/JSON.cc
@@ -8,6 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cstring>
 #include <iomanip>
 #include <string>
 
@@ -90,9 +91,9 @@ void JSON::sep() {
     }
 }
 
-static std::ostream& encode(std::ostream& s, const char* p) {
+static std::ostream& encode(std::ostream& s, const char* p, size_t len) {
     s << '"';
-    while (*p) {
+    for (const char* end = p + len; p != end; ++p) {
         switch (*p) {
 
             case '\\':
@@ -124,10 +125,15 @@ static std::ostream& encode(std::ostream& s, const char* p) {
                 break;
 
             default:
-                s << *p;
+                if (static_cast<unsigned char>(*p) < 0x20) {
+                    static const char* hex = "0123456789abcdef";
+                    s << "\\u00" << hex[(*p >> 4) & 0xf] << hex[*p & 0xf];
+                }
+                else {
+                    s << *p;
+                }
                 break;
         }
-        p++;
     }
 
     s << '"';
@@ -270,14 +276,14 @@ JSON& JSON::operator<<(double n) {
 JSON& JSON::operator<<(const std::string& s) {
     null_ = false;
     sep();
-    encode(out_, s.c_str());
+    encode(out_, s.data(), s.size());
     return *this;
 }
 
 JSON& JSON::operator<<(const char* s) {
     null_ = false;
     sep();
-    encode(out_, s);
+    encode(out_, s, std::strlen(s));
     return *this;
 }
 
-- 
2.43.0


From 7f3aee69b81fa27a19f51ccdf793b34b0e03e37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 044/135] fix: JSON escapes a single character like a string

---
 src/eckit/log/JSON.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eckit/log/JSON.cc b/src/eckit/log/JSON.cc
index 3199c30..b597d08 100644
--- a/src/eckit/log/JSON.cc
+++ b/src/eckit/log/JSON.cc
@@ -206,14 +206,15 @@ JSON& JSON::operator<<(bool n) {
 JSON& JSON::operator<<(char n) {
     null_ = false;
     sep();
-    out_ << '"' << n << '"';
+    encode(out_, &n, 1);
     return *this;
 }
 
 JSON& JSON::operator<<(unsigned char n) {
     null_ = false;
     sep();
-    out_ << '"' << n << '"';
+    const char c = static_cast<char>(n);
+    encode(out_, &c, 1);
     return *this;
 }
 
-- 
2.43.0


From ad524e285de0fb16271edb302b85a06144891f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:54 +0000
Subject: [PATCH 045/135] fix: a CSV line ends at its end, even if its last
 field is empty

---
 src/eckit/parser/CSVParser.cc | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/eckit/parser/CSVParser.cc b/src/eckit/parser/CSVParser.cc
index a077763..15e539a 100644
--- a/src/eckit/parser/CSVParser.cc
+++ b/src/eckit/parser/CSVParser.cc
@@ -70,20 +70,6 @@ Value CSVParser::parse() {
 }
 
 Value CSVParser::nextItem(bool& comma) {
-    for (;;) {
-        int c = peek(true);
-
-        if (c == 0) {
-            break;
-        }
-
-        if (c != '\n' && c != '\r') {
-            break;
-        }
-
-        next(true);
-    }
-
     std::string result;
     comma = false;
 
@@ -102,6 +88,22 @@ Value CSVParser::nextItem(bool& comma) {
 
 ValueList CSVParser::nextLine() {
     ValueList result;
+
+    // Skip empty lines
+    for (;;) {
+        int c = peek(true);
+
+        if (c == 0) {
+            return result;
+        }
+
+        if (c != '\n' && c != '\r') {
+            break;
+        }
+
+        next(true);
+    }
+
     bool more = true;
     while (more) {
         auto x = nextItem(more);
-- 
2.43.0


From 250b884a08aee901b46ce42927e518595e7317ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:41 +0000
Subject: [PATCH 046/135] fix: comparing numbers does not overflow

---
 src/eckit/value/NumberContent.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/eckit/value/NumberContent.cc b/src/eckit/value/NumberContent.cc
index 219ac97..3e3e059 100644
--- a/src/eckit/value/NumberContent.cc
+++ b/src/eckit/value/NumberContent.cc
@@ -65,11 +65,10 @@ int NumberContent::compare(const Content& other) const {
 }
 
 int NumberContent::compareNumber(const NumberContent& other) const {
-    long long dif = (value_ - other.value_);
-    if (dif == 0) {
-        return dif;
+    if (value_ == other.value_) {
+        return 0;
     }
-    if (dif < 0) {
+    if (value_ < other.value_) {
         return -1;
     }
 
-- 
2.43.0


From fd4d8f4b5d48787e5b213c7a58062cd14368cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:41 +0000
Subject: [PATCH 047/135] fix: large numbers compare with doubles by value

---
 src/eckit/value/DoubleContent.cc | 2 +-
 src/eckit/value/NumberContent.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/value/DoubleContent.cc b/src/eckit/value/DoubleContent.cc
index bd925ec..dba6a24 100644
--- a/src/eckit/value/DoubleContent.cc
+++ b/src/eckit/value/DoubleContent.cc
@@ -66,7 +66,7 @@ int DoubleContent::compareDouble(const DoubleContent& other) const {
 }
 
 int DoubleContent::compareNumber(const NumberContent& other) const {
-    double diff = (value_ - other.value_);
+    long double diff = (value_ - static_cast<long double>(other.value_));
 
     return eckit::sign(diff);
 }
diff --git a/src/eckit/value/NumberContent.cc b/src/eckit/value/NumberContent.cc
index 3e3e059..9c9d1c5 100644
--- a/src/eckit/value/NumberContent.cc
+++ b/src/eckit/value/NumberContent.cc
@@ -76,7 +76,7 @@ int NumberContent::compareNumber(const NumberContent& other) const {
 }
 
 int NumberContent::compareDouble(const DoubleContent& other) const {
-    double dif = (value_ - other.value_);
+    long double dif = (static_cast<long double>(value_) - other.value_);
     if (dif == 0) {
         return dif;
     }
-- 
2.43.0


From a81371bf4df21a600777277079f7d41bf083e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:55 +0000
Subject: [PATCH 048/135] fix: dividing a number by zero fails instead of
 trapping

---
 src/eckit/value/NumberContent.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/eckit/value/NumberContent.cc b/src/eckit/value/NumberContent.cc
index 9c9d1c5..5adcfea 100644
--- a/src/eckit/value/NumberContent.cc
+++ b/src/eckit/value/NumberContent.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <limits>
+
 #include "eckit/value/NumberContent.h"
 #include "eckit/exception/Exceptions.h"
 #include "eckit/log/JSON.h"
@@ -127,11 +129,21 @@ Content* NumberContent::mul(const Content& other) const {
     return other.mulNumber(*this);
 }
 
+// The processor traps on these
+static void checkDivision(long long a, long long b) {
+    if (b == 0 || (b == -1 && a == std::numeric_limits<long long>::min())) {
+        std::ostringstream oss;
+        oss << "Cannot divide " << a << " by " << b;
+        throw BadValue(oss.str(), Here());
+    }
+}
+
 Content* NumberContent::mod(const Content& other) const {
     return other.modNumber(*this);
 }
 
 Content* NumberContent::modNumber(const NumberContent& other) const {
+    checkDivision(int(other.value_), int(value_));
     return new NumberContent(int(other.value_) % int(value_));
 }
 
@@ -144,6 +156,7 @@ Content* NumberContent::div(const Content& other) const {
 }
 
 Content* NumberContent::divNumber(const NumberContent& other) const {
+    checkDivision(other.value_, value_);
     return new NumberContent(other.value_ / value_);
 }
 
-- 
2.43.0


From ff2dcb50d09bda5c29ca3c4c2a6df4f76d11b988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:55 +0000
Subject: [PATCH 049/135] fix: the modulus of large numbers is not truncated

---
 src/eckit/value/NumberContent.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/value/NumberContent.cc b/src/eckit/value/NumberContent.cc
index 5adcfea..69d9cfb 100644
--- a/src/eckit/value/NumberContent.cc
+++ b/src/eckit/value/NumberContent.cc
@@ -143,8 +143,8 @@ Content* NumberContent::mod(const Content& other) const {
 }
 
 Content* NumberContent::modNumber(const NumberContent& other) const {
-    checkDivision(int(other.value_), int(value_));
-    return new NumberContent(int(other.value_) % int(value_));
+    checkDivision(other.value_, value_);
+    return new NumberContent(other.value_ % value_);
 }
 
 Content* NumberContent::mulNumber(const NumberContent& other) const {
-- 
2.43.0


From 74669026b01ec6660450d42f96fbc913a6a0d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:11 +0000
Subject: [PATCH 050/135] fix: a configuration set into itself is a copy, not a
 cycle

---
 src/eckit/config/LocalConfiguration.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/config/LocalConfiguration.cc b/src/eckit/config/LocalConfiguration.cc
index ba6b610..7ea61ed 100644
--- a/src/eckit/config/LocalConfiguration.cc
+++ b/src/eckit/config/LocalConfiguration.cc
@@ -182,7 +182,8 @@ LocalConfiguration& LocalConfiguration::set(const std::string& s, const std::vec
 
 
 LocalConfiguration& LocalConfiguration::set(const std::string& s, const Configuration& value) {
-    setValue(s, value.getValue());
+    const eckit::Value v = value.getValue();  // holds the content, should value be *this
+    setValue(s, v);
     return *this;
 }
 
-- 
2.43.0


From 2504b88dfd5ebaa0590ffef2f37e30a4c2475834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:30 +0000
Subject: [PATCH 051/135] fix: a date of components that are no month or day is
 refused

---
 src/eckit/types/Date.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/types/Date.cc b/src/eckit/types/Date.cc
index 478b55e..acf77bb 100644
--- a/src/eckit/types/Date.cc
+++ b/src/eckit/types/Date.cc
@@ -50,6 +50,11 @@ Date::Date(long date) : julian_(dateToJulian(date)) {
 }
 
 Date::Date(long year, long month, long day) : julian_(dateToJulian(year * 10000 + month * 100 + day)) {
+    if (month < 1 || month > 12 || day < 1 || day > 31) {
+        std::ostringstream os;
+        os << "Invalid date, year " << year << ", month " << month << ", day " << day;
+        throw BadDate(os.str());
+    }
     check(*this, year * 10000 + month * 100 + day);
 }
 
-- 
2.43.0


From 9b405fd028968fe31da32862e050fca76f164d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:30 +0000
Subject: [PATCH 052/135] fix: a text which is no date is refused

---
 src/eckit/types/Date.cc | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/eckit/types/Date.cc b/src/eckit/types/Date.cc
index acf77bb..7ab8a83 100644
--- a/src/eckit/types/Date.cc
+++ b/src/eckit/types/Date.cc
@@ -66,7 +66,7 @@ Date::Date(long year, long dayOfYear) {
 }
 
 long Date::parse(const std::string& s) {
-    Tokenizer parse("-");
+    Tokenizer parse('-', true);
     std::vector<std::string> result;
 
     parse(s, result);
@@ -75,6 +75,15 @@ long Date::parse(const std::string& s) {
     long value = 0;
     int i;
 
+    // Numbers are made of digits only
+    auto number = [&err](const std::string& n) -> long {
+        if (n.empty() || n.find_first_not_of("0123456789") != std::string::npos) {
+            err = true;
+            return 0;
+        }
+        return atol(n.c_str());
+    };
+
     switch (result.size()) {
         case 1:
             switch (s.length()) {
@@ -92,7 +101,7 @@ long Date::parse(const std::string& s) {
 
                 case 6:
                 case 8:
-                    value = atol(s.c_str());
+                    value = number(s);
                     break;
 
                 default:
@@ -106,12 +115,14 @@ long Date::parse(const std::string& s) {
 
             // Dates as mm-dd
             if (result[0].length() == 2 && result[1].length() == 2) {
-                long month = atol(result[0].c_str());
-                long day   = atol(result[1].c_str());
+                long month = number(result[0]);
+                long day   = number(result[1]);
 
-                Date date(2004, month, day);  // 2004 is a leap year
+                if (!err) {
+                    Date date(2004, month, day);  // 2004 is a leap year
 
-                value = date.yyyymmdd();
+                    value = date.yyyymmdd();
+                }
             }
             else {
                 // Dates as yyyy-ddd
@@ -124,13 +135,17 @@ long Date::parse(const std::string& s) {
                     err = true;
                 }
 
-                {
-                    long year = atol(result[0].c_str());
-                    long day  = atol(result[1].c_str());
+                long year = number(result[0]);
+                long day  = number(result[1]);
 
-                    Date date(year, 1, 1);
+                if (!err) {
+                    Date first(year, 1, 1);
+                    Date date(first);
                     date += day - 1;
                     value = date.yyyymmdd();
+
+                    // The day must be a day of that year
+                    err = date.year() != first.year();
                 }
             }
 
@@ -150,7 +165,7 @@ long Date::parse(const std::string& s) {
                 err = true;
             }
 
-            value = atol(result[0].c_str()) * 10000 + atol(result[1].c_str()) * 100 + atol(result[2].c_str());
+            value = number(result[0]) * 10000 + number(result[1]) * 100 + number(result[2]);
 
             break;
 
-- 
2.43.0


From 0178b2f7b9cf6efda7ba60a12c6c6e6cf723c02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:51 +0000
Subject: [PATCH 053/135] fix: a month read from text is a month, and a text
 which is none is refused

---
 src/eckit/types/Month.cc | 54 ++++++----------------------------------
 1 file changed, 8 insertions(+), 46 deletions(-)

diff --git a/src/eckit/types/Month.cc b/src/eckit/types/Month.cc
index 7b5f8f2..dcdc8e8 100644
--- a/src/eckit/types/Month.cc
+++ b/src/eckit/types/Month.cc
@@ -25,75 +25,37 @@ Month::Month(long year, long month) : date_(year, month, 1) {}
 Month::Month(const Date& date) : date_(date.year(), date.month(), 1) {}
 
 Month::Month(const std::string& s) : date_(1997, 10, 10) {
-    Tokenizer parse("-");
+    Tokenizer parse('-', true);
     std::vector<std::string> result;
 
     parse(s, result);
 
     bool err = false;
-    long value;
 
     switch (result.size()) {
         case 1:
-            switch (s.length()) {
-                case 6:
-                case 8:
-                    value = atol(s.c_str());
-                    if ((value % 100) == 0) {
-                        value++;  // For dates as 970900
-                    }
-                    date_ = Date(value);
-                    break;
-
-                default:
-                    err = false;
-                    break;
-            }
+            err = s.length() != 6 && s.length() != 8;
             break;
 
         case 2:
-            if (result[0].length() != 2 && result[0].length() != 4) {
-                err = true;
-            }
-            if (result[1].length() != 2) {
-                err = true;
-            }
-
-            value = atol(result[0].c_str()) * 10000 + atol(result[1].c_str()) * 100 + 1;
-
-            date_ = Date(value);
-
+            err = (result[0].length() != 2 && result[0].length() != 4) || result[1].length() != 2;
             break;
 
         case 3:
-
-            if (result[0].length() != 2 && result[0].length() != 4) {
-                err = true;
-            }
-            if (result[1].length() != 2) {
-                err = true;
-            }
-            if (result[2].length() != 2) {
-                err = true;
-            }
-
-            value = atol(result[0].c_str()) * 10000 + atol(result[1].c_str()) * 100 + atol(result[2].c_str());
-
-            if ((value % 100) == 0) {
-                value++;  // For dates as 970900
-            }
-            date_ = Date(value);
-
             break;
 
         default:
-            err = false;
+            err = true;
             break;
     }
 
     if (err) {
         throw SeriousBug(std::string("Invalid month ") + s);
     }
+
+    // The first of the month, whatever the day (which may be 00, as in 970900)
+    Date date(result.size() == 2 ? s + "-01" : s);
+    date_ = Date(date.year(), date.month(), 1);
 }
 
 Month::operator std::string() const {
-- 
2.43.0


From 20cb223b1b027ee317b347d143c201358f6647ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:51 +0000
Subject: [PATCH 054/135] fix: a text which is no duration is refused

---
 src/eckit/types/Hour.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eckit/types/Hour.cc b/src/eckit/types/Hour.cc
index ebc6b9e..728ce89 100644
--- a/src/eckit/types/Hour.cc
+++ b/src/eckit/types/Hour.cc
@@ -33,7 +33,7 @@ Hour::Hour(double hour) {
 }
 
 Hour::Hour(const std::string& s) {
-    Tokenizer parse(":");
+    Tokenizer parse(':', true);
     std::vector<std::string> result;
     Translator<std::string, long> s2l;
 
@@ -44,6 +44,12 @@ Hour::Hour(const std::string& s) {
         error = true;
     }
 
+    for (const auto& r : result) {
+        if (r.empty() || r.find_first_not_of("0123456789") != std::string::npos) {
+            throw BadHour(std::string("Invalid hour '") + s + "'");
+        }
+    }
+
     if (result.size() > 2) {
         double x = s2l(result[2]);
         if (x < 0 || x >= 60) {
-- 
2.43.0


From 19e60a1bb07e7e61c15985c467d26b14074c8311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:51 +0000
Subject: [PATCH 055/135] fix: a moment moves backwards across midnight

---
 src/eckit/types/DateTime.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/types/DateTime.cc b/src/eckit/types/DateTime.cc
index 2a725e5..96cef4f 100644
--- a/src/eckit/types/DateTime.cc
+++ b/src/eckit/types/DateTime.cc
@@ -128,9 +128,9 @@ Second DateTime::operator-(const DateTime& other) const {
 DateTime DateTime::operator+(const Second& s) const {
     Date d    = date();
     double t  = time();
-    long days = std::lround(s) / (86400);
+    long days = static_cast<long>(std::floor(s / 86400));
     d += days;
-    t += s - days * (86400);
+    t += s - days * 86400.0;
     if (t >= 86400) {
         d += 1;
         t -= 86400;
-- 
2.43.0


From 16a4a7c2db05c3130fa292544cec40aa839959bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:12 +0000
Subject: [PATCH 056/135] fix: a text which is no time is refused

---
 src/eckit/types/Time.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/eckit/types/Time.cc b/src/eckit/types/Time.cc
index ec0fa45..ffdd67d 100644
--- a/src/eckit/types/Time.cc
+++ b/src/eckit/types/Time.cc
@@ -43,7 +43,8 @@ struct tokenized_time {
 
 tokenized_time checkTimeFormat(const std::string_view time) {
     tokenized_time tt;
-    tt.minus     = time[0] == '-';
+    tt.type      = TimeFormat::INVALID;
+    tt.minus     = !time.empty() && time[0] == '-';
     size_t start = tt.minus ? 1 : 0;
 
     bool hasDigit   = false;
@@ -113,6 +114,10 @@ tokenized_time checkTimeFormat(const std::string_view time) {
                 break;
             }
             case ':': {
+                if (hasDecimal || hasUnits) {
+                    tt.type = TimeFormat::INVALID;
+                    return tt;
+                }
                 if (!hasColon) {  // First colon, skip the dd token
                     tt.type  = TimeFormat::COLON;
                     hasColon = true;
@@ -141,7 +146,12 @@ tokenized_time checkTimeFormat(const std::string_view time) {
             tt.integers[tokenId] = time.substr(tokenStart, time.length() - tokenStart);
         }
     }
-    else if (!hasUnits) {
+    else if (hasUnits) {
+        if (tokenStart < time.length()) {  // digits without a unit
+            tt.type = TimeFormat::INVALID;
+        }
+    }
+    else {
         tt.integers[1] = time.substr(tokenStart);
         tt.type        = hasDecimal ? TimeFormat::DECIMAL : TimeFormat::DIGITS;
     }
@@ -152,6 +162,11 @@ long s2l(const std::string_view& str) {
     if (str.empty()) {
         return 0;
     }
+    constexpr size_t max_digits = 12;  // no overflow when converted to seconds
+    size_t first                = str.find_first_not_of('0');
+    if (first != std::string_view::npos && str.size() - first > max_digits) {
+        throw eckit::BadTime("Number too large in time: " + std::string(str));
+    }
     long result;
 #if 0
     auto [ptr, err] = std::from_chars(str.data(), str.data() + str.size(), result);
-- 
2.43.0


From 1a63fa06facbc765f590881e3e7a18fd2eead464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:12 +0000
Subject: [PATCH 057/135] fix: the sign of a negative time is written and read

---
 src/eckit/types/Time.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/eckit/types/Time.cc b/src/eckit/types/Time.cc
index ffdd67d..937a4fd 100644
--- a/src/eckit/types/Time.cc
+++ b/src/eckit/types/Time.cc
@@ -254,6 +254,14 @@ Time::Time(const std::string& s, bool extended) {
             hh = s2l(tt.integers[1]);
             mm = s2l(tt.integers[2]);
             ss = s2l(tt.integers[3]);
+            if (mm >= 60 || ss >= 60) {
+                throw BadTime("Wrong input for time: " + s);
+            }
+            if (tt.minus) {
+                hh = -hh;
+                mm = -mm;
+                ss = -ss;
+            }
             break;
         case TimeFormat::UNITS:
             dd = s2l(tt.integers[0]);
@@ -276,7 +284,7 @@ Time::Time(const std::string& s, bool extended) {
             throw BadTime("Unkown format for time: " + s);
     }
 
-    if (mm >= 60 || ss >= 60 || (!extended && (hh >= 24 || dd > 0 || hh < 0 || mm < 0 || ss < 0))) {
+    if (mm >= 60 || ss >= 60 || (!extended && (hh >= 24 || dd != 0 || hh < 0 || mm < 0 || ss < 0))) {
         std::string msg = "Wrong input for time: ";
         if (dd > 0) {
             msg += std::to_string(dd);
@@ -349,11 +357,14 @@ long Time::hhmmss() const {
 }
 
 void Time::print(std::ostream& s) const {
-    printTime(s, hours());
+    if (std::lround(seconds_) < 0) {
+        s << '-';
+    }
+    printTime(s, std::abs(hours()));
     s << ':';
-    printTime(s, minutes());
+    printTime(s, std::abs(minutes()));
     s << ':';
-    printTime(s, seconds());
+    printTime(s, std::abs(seconds()));
 }
 
 Time Time::now() {
-- 
2.43.0


From 1dffdf92770f1f4f834666daed8ae17b29578ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:10 +0000
Subject: [PATCH 058/135] fix: the fraction of a large number is near it

---
 src/eckit/types/Fraction.cc | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/eckit/types/Fraction.cc b/src/eckit/types/Fraction.cc
index 63c2740..1c92458 100644
--- a/src/eckit/types/Fraction.cc
+++ b/src/eckit/types/Fraction.cc
@@ -66,14 +66,21 @@ Fraction::Fraction(double value) : top_(1), bottom_(0) {
         value_type m11 = 1;
         value_type m01 = 0;
 
-        auto x  = std::abs(value);
-        auto a  = static_cast<value_type>(x);
-        auto t2 = m10 * a + m11;
+        auto x = std::abs(value);
+        if (!(x < static_cast<double>(MAX_DENOM))) {
+            break;
+        }
+
+        auto a = static_cast<value_type>(x);
 
         size_t cnt = 0;
 
-        while (t2 <= MAX_DENOM) {
+        // Stop at the last fraction with both parts in range
+        auto in_range = [](value_type m, value_type a, value_type n) { return m == 0 || a < (MAX_DENOM - n) / m; };
+
+        while (in_range(m00, a, m01) && in_range(m10, a, m11)) {
             const auto t1 = m00 * a + m01;
+            const auto t2 = m10 * a + m11;
 
             m01 = m00;
             m00 = t1;
@@ -86,19 +93,13 @@ Fraction::Fraction(double value) : top_(1), bottom_(0) {
                 break;
             }
 
-            a  = static_cast<value_type>(x);
-            t2 = m10 * a + m11;
+            a = static_cast<value_type>(x);
 
             if (cnt++ > 10000) {
                 throw BadValue("Cannot compute fraction from " + std::to_string(value));
             }
         }
 
-        while (m10 >= MAX_DENOM || m00 >= MAX_DENOM) {
-            m00 >>= 1;
-            m10 >>= 1;
-        }
-
         if (m10 != 0) {
             const value_type sgn = value < 0 ? -1 : 1;
             const value_type g   = std::gcd(m00, m10);
-- 
2.43.0


From a96bbff8daed39c49ea94a2133ab4c46988a5a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:10 +0000
Subject: [PATCH 059/135] fix: operations on large fractions are exact when the
 result is representable

---
 src/eckit/types/Fraction.cc | 51 +++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/eckit/types/Fraction.cc b/src/eckit/types/Fraction.cc
index 1c92458..5f8aa2f 100644
--- a/src/eckit/types/Fraction.cc
+++ b/src/eckit/types/Fraction.cc
@@ -205,6 +205,37 @@ inline Fraction::value_type sub(bool& overflow, Fraction::value_type a, Fraction
     return add(overflow, a, -b);
 }
 
+namespace {
+
+// Products of two values, and their sums, do not overflow
+__extension__ typedef __int128 wide;
+
+// The exact result when it can be represented, otherwise its approximation
+Fraction exactly(wide top, wide bottom, double approximation) {
+    if (bottom == 0) {
+        throw BadValue("Fraction: division by zero", Here());
+    }
+
+    wide a = top < 0 ? -top : top;
+    wide b = bottom < 0 ? -bottom : bottom;
+    while (b != 0) {
+        const wide r = a % b;
+        a            = b;
+        b            = r;
+    }
+
+    top /= a;
+    bottom /= a;
+
+    if (-VALUE_TYPE_MAX <= top && top <= VALUE_TYPE_MAX && -VALUE_TYPE_MAX <= bottom && bottom <= VALUE_TYPE_MAX) {
+        return {static_cast<Fraction::value_type>(top), static_cast<Fraction::value_type>(bottom)};
+    }
+
+    return Fraction(approximation);
+}
+
+}  // namespace
+
 Fraction Fraction::operator+(const Fraction& other) const {
     bool overflow = false;
     if (value_type top = add(overflow, mul(overflow, top_, other.bottom_), mul(overflow, bottom_, other.top_)),
@@ -213,7 +244,8 @@ Fraction Fraction::operator+(const Fraction& other) const {
         return {top, bottom};
     }
 
-    return Fraction(operator double() + other.operator double());
+    return exactly(wide(top_) * other.bottom_ + wide(bottom_) * other.top_,
+                   wide(bottom_) * other.bottom_, operator double() + other.operator double());
 }
 
 Fraction Fraction::operator-(const Fraction& other) const {
@@ -224,7 +256,8 @@ Fraction Fraction::operator-(const Fraction& other) const {
         return {top, bottom};
     }
 
-    return Fraction(operator double() - other.operator double());
+    return exactly(wide(top_) * other.bottom_ - wide(bottom_) * other.top_,
+                   wide(bottom_) * other.bottom_, operator double() - other.operator double());
 }
 
 Fraction Fraction::operator/(const Fraction& other) const {
@@ -233,7 +266,8 @@ Fraction Fraction::operator/(const Fraction& other) const {
         return {top, bottom};
     }
 
-    return Fraction(operator double() / other.operator double());
+    return exactly(wide(top_) * other.bottom_,
+                   wide(bottom_) * other.top_, operator double() / other.operator double());
 }
 
 Fraction Fraction::operator*(const Fraction& other) const {
@@ -242,7 +276,8 @@ Fraction Fraction::operator*(const Fraction& other) const {
         return {top, bottom};
     }
 
-    return Fraction(operator double() * other.operator double());
+    return exactly(wide(top_) * other.top_,
+                   wide(bottom_) * other.bottom_, operator double() * other.operator double());
 }
 
 bool Fraction::operator==(const Fraction& other) const {
@@ -260,7 +295,7 @@ bool Fraction::operator<(const Fraction& other) const {
         return result;
     }
 
-    return operator double() < other.operator double();
+    return wide(top_) * other.bottom_ < wide(other.top_) * bottom_;
 }
 
 bool Fraction::operator<=(const Fraction& other) const {
@@ -269,7 +304,7 @@ bool Fraction::operator<=(const Fraction& other) const {
         return result;
     }
 
-    return operator double() <= other.operator double();
+    return wide(top_) * other.bottom_ <= wide(other.top_) * bottom_;
 }
 
 bool Fraction::operator>(const Fraction& other) const {
@@ -278,7 +313,7 @@ bool Fraction::operator>(const Fraction& other) const {
         return result;
     }
 
-    return operator double() > other.operator double();
+    return wide(top_) * other.bottom_ > wide(other.top_) * bottom_;
 }
 
 bool Fraction::operator>=(const Fraction& other) const {
@@ -287,7 +322,7 @@ bool Fraction::operator>=(const Fraction& other) const {
         return result;
     }
 
-    return operator double() >= other.operator double();
+    return wide(top_) * other.bottom_ >= wide(other.top_) * bottom_;
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 16a54c1857ae7b0f6ca4d42150670dd49842afb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:10 +0000
Subject: [PATCH 060/135] fix: a version is made of decimal numbers

---
 src/eckit/types/SemanticVersion.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/types/SemanticVersion.cc b/src/eckit/types/SemanticVersion.cc
index c61d222..80e9e30 100644
--- a/src/eckit/types/SemanticVersion.cc
+++ b/src/eckit/types/SemanticVersion.cc
@@ -27,8 +27,8 @@ SemanticVersion::SemanticVersion(unsigned long major, unsigned long minor, unsig
     major_(major), minor_(minor), patch_(patch) {}
 
 static unsigned long s2int(const std::string& s) {
-    if (s.size() == std::count_if(s.begin(), s.end(), [](unsigned char c) { return std::isdigit(c); })) {
-        unsigned long r = ::strtoul(s.data(), nullptr, 0);
+    if (!s.empty() && s.size() == std::count_if(s.begin(), s.end(), [](unsigned char c) { return std::isdigit(c); })) {
+        unsigned long r = ::strtoul(s.data(), nullptr, 10);
         if (r != ULONG_MAX) {
             return r;
         }
-- 
2.43.0


From 14e1cfacfce2ea4244eaccb9a4f80d2e5afb8509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:10 +0000
Subject: [PATCH 061/135] fix: a text which is no identifier is refused

---
 src/eckit/types/UUID.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/types/UUID.cc b/src/eckit/types/UUID.cc
index 48219ab..e468859 100644
--- a/src/eckit/types/UUID.cc
+++ b/src/eckit/types/UUID.cc
@@ -34,6 +34,7 @@ UUID::UUID() {
 }
 
 UUID::UUID(const std::string& s) {
+    zero(data_);
     ASSERT(s.size() == hexSize());
     fromString(s);
 }
@@ -66,7 +67,9 @@ std::string UUID::asString() const {
 
 void UUID::fromString(const std::string& s) {
     std::stringstream str(s);
-    str >> *this;
+    if (!(str >> *this)) {
+        throw BadValue("Invalid UUID '" + s + "'", Here());
+    }
 }
 
 void UUID::print(std::ostream& s) const {
-- 
2.43.0


From 6b7b725d4c2d1694302ad9718d7c82404caeaf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:30 +0000
Subject: [PATCH 062/135] fix: the sum of fractions keeps its sign at the limit

---
 src/eckit/types/Fraction.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/eckit/types/Fraction.cc b/src/eckit/types/Fraction.cc
index 5f8aa2f..791e05e 100644
--- a/src/eckit/types/Fraction.cc
+++ b/src/eckit/types/Fraction.cc
@@ -40,7 +40,6 @@ Fraction::Fraction(value_type top, value_type bottom) {
 }
 
 constexpr auto VALUE_TYPE_MAX = std::numeric_limits<Fraction::value_type>::max();
-constexpr auto VALUE_TYPE_MIN = std::numeric_limits<Fraction::value_type>::lowest();
 
 const auto MAX_DENOM = static_cast<Fraction::value_type>(std::sqrt(VALUE_TYPE_MAX));
 
@@ -197,7 +196,7 @@ inline Fraction::value_type mul(bool& overflow, Fraction::value_type a, Fraction
 }
 
 inline Fraction::value_type add(bool& overflow, Fraction::value_type a, Fraction::value_type b) {
-    overflow = overflow or (b > 0 ? a > VALUE_TYPE_MAX - b : a < VALUE_TYPE_MIN - b);
+    overflow = overflow or (b > 0 ? a > VALUE_TYPE_MAX - b : a < -VALUE_TYPE_MAX - b);
     return overflow ? 0 : a + b;
 }
 
-- 
2.43.0


From fe2bfb63bb02e82a6c0316aa9bd65af5f725240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:56 +0000
Subject: [PATCH 063/135] fix: a text which is no fraction is refused

---
 src/eckit/types/Fraction.cc | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/eckit/types/Fraction.cc b/src/eckit/types/Fraction.cc
index 791e05e..291b341 100644
--- a/src/eckit/types/Fraction.cc
+++ b/src/eckit/types/Fraction.cc
@@ -19,6 +19,7 @@
 #include "eckit/serialisation/Stream.h"
 #include "eckit/utils/MD5.h"
 #include "eckit/utils/SafeCasts.h"
+#include "eckit/utils/StringTools.h"
 #include "eckit/utils/Tokenizer.h"
 #include "eckit/utils/Translator.h"
 
@@ -117,14 +118,25 @@ Fraction::Fraction(unsigned long n) : top_(into_signed(n)), bottom_(1) {}
 Fraction::Fraction(unsigned long long n) : top_(into_signed(n)), bottom_(1) {}
 
 Fraction::Fraction(const std::string& s) {
-    static Tokenizer parse("/");
+    static Tokenizer parse('/', true);
 
     std::vector<std::string> v;
     parse(s, v);
     if (v.size() > 1) {
         ASSERT(v.size() == 2);
         static Translator<std::string, value_type> s2l;
-        Fraction f(s2l(v[0]), s2l(v[1]));
+
+        auto integer = [&s](const std::string& part) {
+            const auto n      = StringTools::trim(part);
+            const auto digits = n.find_first_of("0123456789");
+            if (digits > 1 || (digits == 1 && n[0] != '-' && n[0] != '+') ||
+                n.find_first_not_of("0123456789", digits) != std::string::npos) {
+                throw BadParameter("Bad conversion from std::string '" + s + "' to fraction", Here());
+            }
+            return s2l(n);
+        };
+
+        Fraction f(integer(v[0]), integer(v[1]));
 
         top_    = f.top_;
         bottom_ = f.bottom_;
@@ -333,6 +345,7 @@ Fraction Fraction::fromString(const std::string& s) {
     int sgn          = 1;
     size_t err       = 0;
     bool decimal     = false;
+    bool digits      = false;
 
     for (size_t i = 0; i < s.length(); ++i) {
 
@@ -344,6 +357,12 @@ Fraction Fraction::fromString(const std::string& s) {
                 sgn = -1;
                 break;
 
+            case '+':
+                if (i != 0) {
+                    err++;
+                }
+                break;
+
             case '.':
                 if (decimal) {
                     err++;
@@ -361,6 +380,11 @@ Fraction Fraction::fromString(const std::string& s) {
             case '7':
             case '8':
             case '9':
+                digits = true;
+                if (numerator > (std::numeric_limits<long>::max() - 9) / 10 ||
+                    denominator > std::numeric_limits<long>::max() / 10) {
+                    throw UserError("Fraction::fromString: too many digits [" + s + "]");
+                }
                 numerator *= 10;
                 numerator += s[i] - '0';
                 if (decimal) {
@@ -368,12 +392,16 @@ Fraction Fraction::fromString(const std::string& s) {
                 }
                 break;
 
+            case ' ':
+                break;
+
             default:
+                err++;
                 break;
         }
     }
 
-    if (err != 0) {
+    if (err != 0 || !digits) {
         throw UserError("Fraction::fromString: invalid value [" + s + "]");
     }
 
-- 
2.43.0


From 1bef8d3ad76c1b61a200a1978560e323361f330a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:49 +0000
Subject: [PATCH 064/135] fix: a relative path that leads back to its start
 does not become the root

---
 src/eckit/filesystem/LocalPathName.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 78a80f1..0cd7715 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -576,7 +576,7 @@ static void rebuild_path(const std::vector<std::string>& v, std::string& path, b
             path += '/';
         }
     }
-    if (trail) {  // preserve trailing '/'
+    if (trail && !v.empty()) {  // preserve trailing '/'
         path += '/';
     }
 }
-- 
2.43.0


From 51d421cca78c7020c84353eeb04a45a488b09559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 065/135] fix: making a directory where there is a file fails

---
 src/eckit/filesystem/LocalPathName.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 0cd7715..3c69e48 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -343,6 +343,10 @@ static void mkdir_if_not_exists(const char* path, short mode) {
             throw FailedSystemCall(std::string("stat ") + path);
         }
     }
+    else if (!S_ISDIR(info.st_mode)) {
+        errno = EEXIST;
+        throw FailedSystemCall(std::string("mkdir ") + path);
+    }
 }
 
 void LocalPathName::mkdir(short mode) const {
-- 
2.43.0


From ae1fb96f7c136f6b5ee27c18164eccd176effdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 066/135] fix: a file copied onto itself keeps its data

---
 src/eckit/filesystem/LocalPathName.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 3c69e48..1c5d09d 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -777,6 +777,9 @@ void LocalPathName::empty() const {
 }
 
 void LocalPathName::copy(const LocalPathName& other) const {
+    if (sameAs(other)) {
+        return;  // opening the target would empty the source
+    }
     FileHandle in(*this);
     FileHandle out(other);
     in.saveInto(out);
-- 
2.43.0


From d0cc0f8360ccc65f432f0fcc1bd511c76f05f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:22 +0000
Subject: [PATCH 067/135] fix: copying a directory onto a file fails before the
 file is emptied

---
 src/eckit/filesystem/LocalPathName.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 1c5d09d..11214a4 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -777,6 +777,11 @@ void LocalPathName::empty() const {
 }
 
 void LocalPathName::copy(const LocalPathName& other) const {
+    if (isDir()) {
+        errno = EISDIR;
+        throw FailedSystemCall(std::string("copy ") + path_);
+    }
+
     if (sameAs(other)) {
         return;  // opening the target would empty the source
     }
-- 
2.43.0


From 1de7742c1e60c2156b056bf6412a0acb82b38b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:02 +0000
Subject: [PATCH 068/135] fix: the hash of what cannot be read fails instead of
 looping for ever

---
 src/eckit/filesystem/LocalPathName.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 11214a4..39dd766 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -211,6 +211,9 @@ std::string LocalPathName::hash(const std::string& method) const {
     Length len = 0;
     while (len < size) {
         Length chunk = fh.read(buffer, buffer.size());
+        if (chunk <= Length(0)) {
+            throw ReadError(path_);
+        }
         len += chunk;
         h->add(buffer, chunk);
     }
-- 
2.43.0


From a75ba99cada0b6fd5fdeced5dbf70cff661dfe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:08 +0000
Subject: [PATCH 069/135] fix: the authority of a URI ends where its path
 starts

---
 src/eckit/filesystem/URI.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/eckit/filesystem/URI.cc b/src/eckit/filesystem/URI.cc
index 814aa03..7f9ef5d 100644
--- a/src/eckit/filesystem/URI.cc
+++ b/src/eckit/filesystem/URI.cc
@@ -8,6 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
+#include <algorithm>
 #include <iomanip>
 #include <iostream>
 #include <vector>
@@ -129,14 +130,17 @@ void URI::parse(const std::string& str, size_t first, bool authority, bool query
         if (1 < last && str[first] == '/' && str[first + 1] == '/') {
             first += 2;
 
-            std::size_t userEnd = str.find_last_of("@", last);
+            // the authority ends where the path starts
+            const std::size_t end = std::min(str.find('/', first), last);
+
+            std::size_t userEnd = str.find_last_of("@", end);
             if (userEnd != std::string::npos && userEnd > first) {
                 user_ = str.substr(first, userEnd - first);
                 first = userEnd + 1;
             }
 
             std::size_t portStart = str.find(":", first);
-            if (portStart != std::string::npos && portStart < last) {
+            if (portStart != std::string::npos && portStart < end) {
                 ASSERT(portStart > 0);
                 host_ = str.substr(first, portStart - first);
                 port_ = 0;
@@ -147,13 +151,9 @@ void URI::parse(const std::string& str, size_t first, bool authority, bool query
                 first = i;
             }
             else {
-                port_               = -1;
-                std::size_t hostEnd = str.find("/", first);
-                if (hostEnd == std::string::npos) {
-                    hostEnd = last;
-                }
-                host_ = str.substr(first, hostEnd - first);
-                first = hostEnd;
+                port_ = -1;
+                host_ = str.substr(first, end - first);
+                first = end;
             }
         }
     }
-- 
2.43.0


From 8f70e3b3284a1a94c33ffef9285f8b2aceef74c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:08 +0000
Subject: [PATCH 070/135] fix: the query of a URI starts at the first question
 mark

---
 src/eckit/filesystem/URI.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/filesystem/URI.cc b/src/eckit/filesystem/URI.cc
index 7f9ef5d..e876602 100644
--- a/src/eckit/filesystem/URI.cc
+++ b/src/eckit/filesystem/URI.cc
@@ -115,8 +115,8 @@ void URI::parse(const std::string& str, size_t first, bool authority, bool query
     }
 
     if (query) {  // get query start
-        std::size_t queryStart = str.find_last_of("?", last);
-        if (queryStart != std::string::npos) {
+        std::size_t queryStart = str.find('?', first);
+        if (queryStart < last) {
             std::string query = str.substr(queryStart + 1, last - queryStart - 1);
             last              = queryStart;
 
-- 
2.43.0


From 070dce4032026d59fe50d2d58e83c80a02735270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:08 +0000
Subject: [PATCH 071/135] fix: a value of the query of a URI may have an equals
 sign

---
 src/eckit/filesystem/URI.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/eckit/filesystem/URI.cc b/src/eckit/filesystem/URI.cc
index e876602..6b584de 100644
--- a/src/eckit/filesystem/URI.cc
+++ b/src/eckit/filesystem/URI.cc
@@ -164,15 +164,13 @@ void URI::parse(const std::string& str, size_t first, bool authority, bool query
 void URI::parseQueryValues(const std::string& query) {
 
     Tokenizer parse("&");
-    Tokenizer splitValues("=");
     std::vector<std::string> attributeValuePairs;
 
     parse(query, attributeValuePairs);
     for (std::string& attributeValue : attributeValuePairs) {
-        std::vector<std::string> s;
-        splitValues(attributeValue, s);
-        if (s.size() == 2) {
-            queryValues_[s[0]] = encode(decode(s[1]));
+        const std::size_t equal = attributeValue.find('=');
+        if (equal != std::string::npos && equal > 0 && equal + 1 < attributeValue.size()) {
+            queryValues_[attributeValue.substr(0, equal)] = encode(decode(attributeValue.substr(equal + 1)));
         }
     }
 }
-- 
2.43.0


From 4a51be6cafef9da5fd064acf7010fe569100d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:08 +0000
Subject: [PATCH 072/135] fix: a value of a URI with a percent sign that stands
 for no byte is refused

---
 src/eckit/filesystem/URI.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/filesystem/URI.cc b/src/eckit/filesystem/URI.cc
index 6b584de..48b331d 100644
--- a/src/eckit/filesystem/URI.cc
+++ b/src/eckit/filesystem/URI.cc
@@ -9,6 +9,7 @@
  */
 
 #include <algorithm>
+#include <cctype>
 #include <iomanip>
 #include <iostream>
 #include <vector>
@@ -290,6 +291,10 @@ std::string URI::decode(const std::string& value) {
 
     for (int i = 0; i < value.length(); i++) {
         if (value[i] == '%') {
+            if (i + 2 >= value.length() || !std::isxdigit(static_cast<unsigned char>(value[i + 1])) ||
+                !std::isxdigit(static_cast<unsigned char>(value[i + 2]))) {
+                throw BadValue("URI: cannot decode '" + value + "'", Here());
+            }
             unsigned int x = std::stoul(value.substr(i + 1, 2), nullptr, 16);
             out += static_cast<char>(x);
             i += 2;
-- 
2.43.0


From 3f2db1ed1af4c68d64360dcbe53fba89a1302b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 073/135] fix: a short shell pattern fits its buffer

---
 src/eckit/utils/Regex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/utils/Regex.cc b/src/eckit/utils/Regex.cc
index 0366581..a8dfd2e 100644
--- a/src/eckit/utils/Regex.cc
+++ b/src/eckit/utils/Regex.cc
@@ -23,7 +23,7 @@ namespace eckit {
 Regex::Regex(const std::string& s, bool shell, bool extended) : str_(s), extended_(extended) {
     // Log::debug() << "Regex " << str_ << std::endl;
     if (shell) {
-        long len = s.length() * 3 + 1;
+        long len = s.length() * 3 + 3;  // ^ $ and the terminating zero
         Buffer buffer(len);
         char* re = buffer;
 
-- 
2.43.0


From 82f711d4e21ad366c98d6b6c1df19f51b0ee2262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 074/135] fix: characters of no meaning in a shell pattern
 stand for themselves

---
 src/eckit/utils/Regex.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/eckit/utils/Regex.cc b/src/eckit/utils/Regex.cc
index a8dfd2e..3eba14d 100644
--- a/src/eckit/utils/Regex.cc
+++ b/src/eckit/utils/Regex.cc
@@ -59,6 +59,25 @@ Regex::Regex(const std::string& s, bool shell, bool extended) : str_(s), extende
                     re[j++] = ']';
                     break;
 
+                case '^':
+                case '$':
+                case '\\':
+                    re[j++] = '\\';
+                    re[j++] = s[i];
+                    break;
+
+                case '+':
+                case '(':
+                case ')':
+                case '{':
+                case '}':
+                case '|':
+                    if (extended_) {  // of no meaning otherwise
+                        re[j++] = '\\';
+                    }
+                    re[j++] = s[i];
+                    break;
+
                 default:
                     re[j++] = s[i];
                     break;
-- 
2.43.0


From 0b19704ac0644cc9e61538066911dce91d44c0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:52 +0000
Subject: [PATCH 075/135] fix: a number which does not fit its type is refused

---
 src/eckit/utils/Translator.cc | 49 ++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/eckit/utils/Translator.cc b/src/eckit/utils/Translator.cc
index 62aacd3..508dfc2 100644
--- a/src/eckit/utils/Translator.cc
+++ b/src/eckit/utils/Translator.cc
@@ -8,7 +8,10 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cerrno>
 #include <cstdlib>
+#include <limits>
+#include <type_traits>
 
 #include "eckit/exception/Exceptions.h"
 #include "eckit/utils/StringTools.h"
@@ -49,6 +52,24 @@ static unsigned long long multiplier(const char* p) {
     return 1;
 }
 
+// The number N that was read, in its unit, if the type T can hold it
+// n.b. a negative number wraps around for an unsigned type, e.g. -1 is the largest
+
+template <typename T, typename N>
+static T scaled(N value, const char* more, const std::string& s) {
+    const N m   = static_cast<N>(multiplier(more));
+    const N max = static_cast<N>(std::numeric_limits<T>::max());
+    const N min = static_cast<N>(std::numeric_limits<T>::min());
+
+    const bool wraps = std::is_unsigned<T>::value && s.find('-') < static_cast<size_t>(more - s.c_str());
+
+    if (!wraps && (errno == ERANGE || value > max / m || value < min / m)) {
+        throw BadParameter("Number out of range '" + s + "'", Here());
+    }
+
+    return static_cast<T>(value * m);
+}
+
 std::string Translator<bool, std::string>::operator()(bool value) {
     std::ostringstream s;
     s << value;
@@ -91,8 +112,9 @@ int Translator<std::string, int>::operator()(const std::string& s) {
 
     // Catter for ints
     char* more;
-    int result = strtol(s.c_str(), &more, 10);
-    return result * multiplier(more);
+    errno = 0;
+    long result = strtol(s.c_str(), &more, 10);
+    return scaled<int>(result, more, s);
 }
 
 unsigned int Translator<std::string, unsigned int>::operator()(const std::string& s) {
@@ -105,8 +127,9 @@ unsigned int Translator<std::string, unsigned int>::operator()(const std::string
 
     // Catter for ints
     char* more;
-    unsigned int result = strtoul(s.c_str(), &more, 10);
-    return result * multiplier(more);
+    errno = 0;
+    unsigned long result = strtoul(s.c_str(), &more, 10);
+    return scaled<unsigned int>(result, more, s);
 }
 
 std::string Translator<long, std::string>::operator()(long value) {
@@ -117,15 +140,17 @@ std::string Translator<long, std::string>::operator()(long value) {
 
 long Translator<std::string, long>::operator()(const std::string& s) {
     char* more;
+    errno = 0;
     long result = strtol(s.c_str(), &more, 10);
-    return result * multiplier(more);
+    return scaled<long>(result, more, s);
 }
 
 
 short Translator<std::string, short>::operator()(const std::string& s) {
     char* more;
+    errno       = 0;
     long result = strtol(s.c_str(), &more, 10);
-    result      = result * multiplier(more);
+    result      = scaled<long>(result, more, s);
 
     ASSERT(short(result) == result);
     return result;
@@ -134,8 +159,9 @@ short Translator<std::string, short>::operator()(const std::string& s) {
 
 unsigned char Translator<std::string, unsigned char>::operator()(const std::string& s) {
     char* more;
+    errno       = 0;
     long result = strtol(s.c_str(), &more, 10);
-    result      = result * multiplier(more);
+    result      = scaled<long>(result, more, s);
 
     ASSERT(static_cast<unsigned char>(result) == result);
     return result;
@@ -211,8 +237,9 @@ float Translator<std::string, float>::operator()(const std::string& s) {
 
 unsigned long Translator<std::string, unsigned long>::operator()(const std::string& s) {
     char* more;
+    errno = 0;
     unsigned long result = strtoul(s.c_str(), &more, 10);
-    return result * multiplier(more);
+    return scaled<unsigned long>(result, more, s);
 }
 
 std::string Translator<unsigned long, std::string>::operator()(unsigned long value) {
@@ -223,8 +250,9 @@ std::string Translator<unsigned long, std::string>::operator()(unsigned long val
 
 unsigned long long Translator<std::string, unsigned long long>::operator()(const std::string& s) {
     char* more;
+    errno = 0;
     unsigned long long result = strtoull(s.c_str(), &more, 10);
-    return result * multiplier(more);
+    return scaled<unsigned long long>(result, more, s);
 }
 
 std::string Translator<unsigned long long, std::string>::operator()(unsigned long long value) {
@@ -235,8 +263,9 @@ std::string Translator<unsigned long long, std::string>::operator()(unsigned lon
 
 long long Translator<std::string, long long>::operator()(const std::string& s) {
     char* more;
+    errno = 0;
     long long result = strtoll(s.c_str(), &more, 10);
-    return result * multiplier(more);
+    return scaled<long long>(result, more, s);
 }
 
 std::string Translator<long long, std::string>::operator()(long long value) {
-- 
2.43.0


From d5caa82aa0d0a5468052c2b91830636b7b2f2cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 076/135] fix: a lock file is removed only by the process which
 has the lock

---
 src/eckit/io/FileLock.cc | 37 +++++++++++++++++++++++++++++++++----
 src/eckit/io/FileLock.h  |  4 ++++
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/eckit/io/FileLock.cc b/src/eckit/io/FileLock.cc
index 663b6c8..6fdbde7 100644
--- a/src/eckit/io/FileLock.cc
+++ b/src/eckit/io/FileLock.cc
@@ -11,6 +11,7 @@
 #include "eckit/io/FileLock.h"
 
 #include <fcntl.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "eckit/exception/Exceptions.h"
@@ -31,24 +32,52 @@ static int openLock(const PathName& lockFile) {
 
 
 FileLock::FileLock(const PathName& lockFile, bool unlink_at_destruction) :
-    lockFile_(unlink_at_destruction ? lockFile : ""), fd_(openLock(lockFile)), locker_(fd_) {}
+    lockFile_(lockFile), unlink_(unlink_at_destruction), fd_(openLock(lockFile)), locker_(fd_) {}
 
 
 FileLock::~FileLock() {
-    ::close(fd_);
-    if (!lockFile_.asString().empty()) {
+    // The file is only removed by a process which has the lock, see lock()
+    if (unlink_) {
+        struct flock lock;
+
+        lock.l_type   = F_WRLCK;
+        lock.l_whence = SEEK_SET;
+        lock.l_start  = 0;
+        lock.l_len    = 0;
+
         try {
-            lockFile_.unlink(false);
+            if (::fcntl(fd_, F_SETLK, &lock) == 0 && current()) {
+                lockFile_.unlink(false);
+            }
         }
         catch (const FailedSystemCall& e) {
             Log::warning() << "Failed to unlink lock file " << lockFile_ << " -- " << e.what() << std::endl;
         }
     }
+    ::close(fd_);
+}
+
+
+bool FileLock::current() const {
+    struct stat held;
+    struct stat named;
+    SYSCALL2(::fstat(fd_, &held), lockFile_);
+    return ::stat(lockFile_.asString().c_str(), &named) == 0 && held.st_dev == named.st_dev &&
+           held.st_ino == named.st_ino;
 }
 
 
 void FileLock::lock() {
     locker_.lockExclusive();
+
+    // The file may have been removed by its previous owner while we were waiting for it,
+    // in which case others will lock a new one
+    while (!current()) {
+        int fd = openLock(lockFile_);
+        SYSCALL2(::dup2(fd, fd_), lockFile_);
+        ::close(fd);
+        locker_.lockExclusive();
+    }
 }
 
 
diff --git a/src/eckit/io/FileLock.h b/src/eckit/io/FileLock.h
index cf75bbc..61adba5 100644
--- a/src/eckit/io/FileLock.h
+++ b/src/eckit/io/FileLock.h
@@ -43,7 +43,11 @@ public:
 
 private:
 
+    /// Is the file on which the lock is held still the one found under its name?
+    bool current() const;
+
     const PathName lockFile_;
+    const bool unlink_;
     int fd_;
     FileLocker locker_;
 };
-- 
2.43.0


From 5254e0415d219721f33f4b372f534f55e3fa268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 077/135] fix: a recycler waits for its lock

---
 src/eckit/container/Recycler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/container/Recycler.h b/src/eckit/container/Recycler.h
index 61df51b..6def17e 100644
--- a/src/eckit/container/Recycler.h
+++ b/src/eckit/container/Recycler.h
@@ -162,7 +162,7 @@ void Recycler<T>::lock() {
     lock.l_start  = 0;
     lock.l_len    = 0;
 
-    SYSCALL(::fcntl(fd_, F_SETLK, &lock));
+    SYSCALL(::fcntl(fd_, F_SETLKW, &lock));
 }
 
 template <class T>
-- 
2.43.0


From 7f20185894e172d00a9a75a95ef53e3b1c8e0caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 078/135] fix: a forked process makes unique names of its own

---
 src/eckit/filesystem/LocalPathName.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 39dd766..1907e57 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -309,7 +309,13 @@ LocalPathName LocalPathName::unique(const LocalPathName& path) {
 
     std::string hostname = Main::hostname();
 
-    static unsigned long long n = (((unsigned long long)::getpid()) << 32);
+    static pid_t pid            = ::getpid();
+    static unsigned long long n = (((unsigned long long)pid) << 32);
+
+    if (pid != ::getpid()) {  // forked: the names are not those of the parent, nor of its other children
+        pid = ::getpid();
+        n   = (((unsigned long long)pid) << 32);
+    }
 
     static std::string format = "%Y%m%d.%H%M%S";
     std::ostringstream os;
-- 
2.43.0


From fbf4ff58de4b4e5cfef281b3e8efeaa3326a9d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 079/135] fix: a lock of a cache entry may be removed by
 another process while it is made

---
 src/eckit/container/CacheManager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/container/CacheManager.cc b/src/eckit/container/CacheManager.cc
index 1d35539..13e43dd 100644
--- a/src/eckit/container/CacheManager.cc
+++ b/src/eckit/container/CacheManager.cc
@@ -320,7 +320,7 @@ void CacheManagerFileSemaphoreLock::unlock() {
 //----------------------------------------------------------------------------------------------------------------------
 
 CacheManagerFileFlock::CacheManagerFileFlock(const std::string& path) :
-    lock_(lockFile(path), true /*unlink lock at destruction*/) {}
+    lock_(path + ".lock", true /*unlink lock at destruction*/) {}  // makes the file if needed
 
 void CacheManagerFileFlock::lock() {
     lock_.lock();
-- 
2.43.0


From 066d87b063ebcf0272a573537fc3d86844c9407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:37 +0000
Subject: [PATCH 080/135] fix: all files of a cache are counted and the least
 recently used are removed

---
 src/eckit/container/CacheManager.cc | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/eckit/container/CacheManager.cc b/src/eckit/container/CacheManager.cc
index 13e43dd..3e64bce 100644
--- a/src/eckit/container/CacheManager.cc
+++ b/src/eckit/container/CacheManager.cc
@@ -37,10 +37,6 @@ std::string CacheManagerBase::loader() const {
 template <class T>
 static bool compare(const T& a, const T& b) {
 
-    if (a.second.last_ == 0) {
-        return false;
-    }
-
     return a.second.last_ < b.second.last_;
 }
 
@@ -91,16 +87,15 @@ void CacheManagerBase::rescanCache(const PathName& base) const {
         cache_key_t total_key(".total");
         cache_entry_t total_entry = {0, 0, 0};
 
-        if (!btree.get(key, entry)) {
+        if (!btree.get(key, entry) || entry.last_ == 0) {  // not there, or removed earlier
             entry.size_  = size_t(file.size());
             entry.count_ = 1;
             entry.last_  = ::time(nullptr);
             btree.set(key, entry);
 
-            if (btree.get(total_key, total_entry)) {
-                total_entry.size_ += entry.size_;
-                total_entry.count_++;
-            }
+            btree.get(total_key, total_entry);
+            total_entry.size_ += entry.size_;
+            total_entry.count_++;
             btree.set(total_key, total_entry);
         }
     }
@@ -141,7 +136,7 @@ void CacheManagerBase::touch(const PathName& base, const PathName& path) const {
         cache_key_t key(md5.digest());
         cache_entry_t entry = {0, 0, 0};
 
-        if (!btree.get(key, entry)) {  // entry not in cache-manager.btree
+        if (!btree.get(key, entry) || entry.last_ == 0) {  // entry not in cache-manager.btree, or removed earlier
 
             FileLock lock(mapping);
             AutoLock<FileLock> locker(lock);
@@ -156,10 +151,9 @@ void CacheManagerBase::touch(const PathName& base, const PathName& path) const {
 
             entry.size_ = size_t(path.size());
 
-            if (btree.get(total_key, total_entry)) {
-                total_entry.size_ += entry.size_;
-                total_entry.count_++;
-            }
+            btree.get(total_key, total_entry);
+            total_entry.size_ += entry.size_;
+            total_entry.count_++;
             btree.set(total_key, total_entry);
 
             {
-- 
2.43.0


From a2b081c05a49093dffa6bfdb7d295fd4b8740eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:51 +0000
Subject: [PATCH 081/135] fix: a number too small for full precision is not out
 of range

---
 src/eckit/utils/Translator.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eckit/utils/Translator.cc b/src/eckit/utils/Translator.cc
index 508dfc2..1a76bb8 100644
--- a/src/eckit/utils/Translator.cc
+++ b/src/eckit/utils/Translator.cc
@@ -9,6 +9,7 @@
  */
 
 #include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <limits>
 #include <type_traits>
@@ -205,7 +206,10 @@ double Translator<std::string, double>::operator()(const std::string& s) {
     //    ECKIT_DEBUG_VAR( pend - s.c_str() );
     //    ECKIT_DEBUG_VAR( errno );
 
-    if (s.empty() || s[0] == ' ' || static_cast<size_t>(pend - s.c_str()) != s.size() || (errno != 0)) {
+    // n.b. a number too small to be held at full precision is not out of range
+    const bool range = errno != 0 && !(errno == ERANGE && std::abs(d) < 1.);
+
+    if (s.empty() || s[0] == ' ' || static_cast<size_t>(pend - s.c_str()) != s.size() || range) {
         throw BadParameter("Bad conversion from std::string '" + s + "' to double", Here());
     }
 
@@ -226,7 +230,10 @@ float Translator<std::string, float>::operator()(const std::string& s) {
     //    ECKIT_DEBUG_VAR( pend - s.c_str() );
     //    ECKIT_DEBUG_VAR( errno );
 
-    if (s.empty() || s[0] == ' ' || static_cast<size_t>(pend - s.c_str()) != s.size() || (errno != 0)) {
+    // n.b. a number too small to be held at full precision is not out of range
+    const bool range = errno != 0 && !(errno == ERANGE && std::abs(f) < 1.f);
+
+    if (s.empty() || s[0] == ' ' || static_cast<size_t>(pend - s.c_str()) != s.size() || range) {
         throw BadParameter("Bad conversion from std::string '" + s + "' to float", Here());
     }
 
-- 
2.43.0


From 82b1fb45567cf1b8db5a9a106fbb860b4f9296f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:51 +0000
Subject: [PATCH 082/135] fix: an item of a record is read again when asked
 again

---
 src/eckit/codec/RecordReader.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/codec/RecordReader.h b/src/eckit/codec/RecordReader.h
index 560db6e..ab45b00 100644
--- a/src/eckit/codec/RecordReader.h
+++ b/src/eckit/codec/RecordReader.h
@@ -35,6 +35,12 @@ public:
     ReadRequest& read(const std::string& key, T& value) {
         trace("read(" + key + ")", __FILE__, __LINE__, __func__);
 
+        // read again, and possibly into another value
+        if (auto previous = requests_.find(key); previous != requests_.end()) {
+            previous->second.wait();
+            requests_.erase(previous);
+        }
+
         if (stream_) {
             trace("stream", __FILE__, __LINE__, __func__);
             requests_.emplace(key, ReadRequest{stream_, offset_, key, value});
-- 
2.43.0


From c6de7d52666bb7ba1ac38509754eb493c7b90faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:51 +0000
Subject: [PATCH 083/135] fix: an item of a record may be set again

---
 src/eckit/codec/RecordWriter.cc | 28 ++++++++++++++++++++++++++++
 src/eckit/codec/RecordWriter.h  |  3 +++
 2 files changed, 31 insertions(+)

diff --git a/src/eckit/codec/RecordWriter.cc b/src/eckit/codec/RecordWriter.cc
index e6eda8e..a134071 100644
--- a/src/eckit/codec/RecordWriter.cc
+++ b/src/eckit/codec/RecordWriter.cc
@@ -12,6 +12,8 @@
 
 #include "eckit/codec/RecordWriter.h"
 
+#include <algorithm>
+
 #include "eckit/codec/Exceptions.h"
 #include "eckit/codec/detail/Checksum.h"
 #include "eckit/codec/detail/Defaults.h"
@@ -149,7 +151,32 @@ void RecordWriter::checksum(bool on) {
 
 //---------------------------------------------------------------------------------------------------------------------
 
+void RecordWriter::remove(const RecordWriter::Key& key) {
+    auto it = info_.find(key);
+    if (it == info_.end()) {
+        return;
+    }
+
+    const auto section = it->second.section();
+
+    keys_.erase(std::find(keys_.begin(), keys_.end(), key));
+    encoders_.erase(key);
+    info_.erase(it);
+
+    if (section != 0) {  // the sections that follow move up
+        --nb_data_sections_;
+        for (auto& other : info_) {
+            if (other.second.section() > section) {
+                other.second.section(other.second.section() - 1);
+            }
+        }
+    }
+}
+
+//---------------------------------------------------------------------------------------------------------------------
+
 void RecordWriter::set(const RecordWriter::Key& key, Link&& link, const Configuration&) {
+    remove(key);
     keys_.emplace_back(key);
     encoders_[key] = Encoder{link};
     info_.emplace(key, DataInfo{});
@@ -158,6 +185,7 @@ void RecordWriter::set(const RecordWriter::Key& key, Link&& link, const Configur
 //---------------------------------------------------------------------------------------------------------------------
 
 void RecordWriter::set(const RecordWriter::Key& key, Encoder&& encoder, const Configuration& config) {
+    remove(key);
     DataInfo info;
     if (encoder.encodes_data()) {
         ++nb_data_sections_;
diff --git a/src/eckit/codec/RecordWriter.h b/src/eckit/codec/RecordWriter.h
index 2b99e66..652f96c 100644
--- a/src/eckit/codec/RecordWriter.h
+++ b/src/eckit/codec/RecordWriter.h
@@ -129,6 +129,9 @@ private:
     int nb_data_sections_{0};
 
     std::string metadata() const;
+
+    /// Remove an item which is set again
+    void remove(const Key&);
 };
 
 //---------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 228dc553ba01a3698986845723efe3501165be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:51 +0000
Subject: [PATCH 084/135] fix: a record which could not be read is not taken
 for read the next time

---
 src/eckit/codec/Record.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/eckit/codec/Record.cc b/src/eckit/codec/Record.cc
index 2ba182d..fe45b65 100644
--- a/src/eckit/codec/Record.cc
+++ b/src/eckit/codec/Record.cc
@@ -143,6 +143,16 @@ Record& Record::read(Stream& in, bool read_to_end) {
         return *this;
     }
 
+    // a record which could not be read is still empty, also for those that share it
+    struct Unread {
+        ParsedRecord* record;
+        ~Unread() {
+            if (record) {
+                *record = ParsedRecord{};
+            }
+        }
+    } unread{record_.get()};
+
     auto& r = record_->head;
 
     auto rbegin = in.position();
@@ -258,6 +268,8 @@ Record& Record::read(Stream& in, bool read_to_end) {
         }
     }
 
+    unread.record = nullptr;
+
     return *this;
 }
 
-- 
2.43.0


From 80ed05233a01dd37c080b2210fdef1510f53b66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:52 +0000
Subject: [PATCH 085/135] fix: an index of a record with a damaged length is
 refused

---
 src/eckit/codec/Record.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eckit/codec/Record.cc b/src/eckit/codec/Record.cc
index fe45b65..fbfab32 100644
--- a/src/eckit/codec/Record.cc
+++ b/src/eckit/codec/Record.cc
@@ -237,6 +237,9 @@ Record& Record::read(Stream& in, bool read_to_end) {
     }
     const auto index_length = (static_cast<size_t>(r.index_length) - sizeof(RecordDataIndexSection::Begin) -
                                sizeof(RecordDataIndexSection::End));
+    if (index_length % sizeof(RecordDataIndexSection::Entry) != 0) {
+        throw InvalidRecord("Unexpected data index section length.");
+    }
     const auto index_size   = index_length / sizeof(RecordDataIndexSection::Entry);
     auto& data_sections     = record_->data_sections;
     data_sections.resize(index_size);
-- 
2.43.0


From d84f54d8dd453f35f8be88a2e2b0e52993adda59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:16 +0000
Subject: [PATCH 086/135] fix: iterating over a tree gives the items inserted
 after it was iterated over before

---
 src/eckit/container/KDTree.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eckit/container/KDTree.h b/src/eckit/container/KDTree.h
index f6d9866..6a2a22a 100644
--- a/src/eckit/container/KDTree.h
+++ b/src/eckit/container/KDTree.h
@@ -59,6 +59,8 @@ public:
         Alloc& a   = this->alloc_;
         Node* root = Node::insert(a, value, a.convert(this->root_, (Node*)0), 0);
 
+        root->next(a, nullptr);  // the nodes have to be linked again before iterating over them
+
         if (a.convert(root) != this->root_) {
             a.root(a.convert(root));
             this->root_ = a.convert(root);
-- 
2.43.0


From c8a00e09431623c5e31888bb3b6c1c3ba413cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:16 +0000
Subject: [PATCH 087/135] fix: trees of search in anonymous memory can be built

---
 src/eckit/geo/search/TreeMapped.cc                | 4 ++--
 src/eckit/geo/search/TreeMapped.h                 | 2 +-
 src/eckit/geo/search/TreeMappedAnonymousMemory.cc | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eckit/geo/search/TreeMapped.cc b/src/eckit/geo/search/TreeMapped.cc
index ff25c92..5d3a43f 100644
--- a/src/eckit/geo/search/TreeMapped.cc
+++ b/src/eckit/geo/search/TreeMapped.cc
@@ -60,8 +60,8 @@ std::vector<Tree::PointValueType> TreeMapped::findInSphere(const Tree::Point& pt
 }
 
 
-TreeMapped::TreeMapped(const Grid& r, const PathName& path) :
-    Tree(r), umask_(0), path_(path), tree_(path, path.exists() ? 0 : itemCount(), 0) {}
+TreeMapped::TreeMapped(const Grid& r, const PathName& path, bool loadIfExists) :
+    Tree(r), umask_(0), path_(path), tree_(path, loadIfExists && path.exists() ? 0 : itemCount(), 0) {}
 
 
 }  // namespace eckit::geo::search
diff --git a/src/eckit/geo/search/TreeMapped.h b/src/eckit/geo/search/TreeMapped.h
index 8906fce..6912884 100644
--- a/src/eckit/geo/search/TreeMapped.h
+++ b/src/eckit/geo/search/TreeMapped.h
@@ -46,7 +46,7 @@ protected:
 
 public:
 
-    TreeMapped(const Grid&, const PathName&);
+    TreeMapped(const Grid&, const PathName&, bool loadIfExists = true);
 };
 
 
diff --git a/src/eckit/geo/search/TreeMappedAnonymousMemory.cc b/src/eckit/geo/search/TreeMappedAnonymousMemory.cc
index 4aa77e5..1e215c7 100644
--- a/src/eckit/geo/search/TreeMappedAnonymousMemory.cc
+++ b/src/eckit/geo/search/TreeMappedAnonymousMemory.cc
@@ -16,7 +16,7 @@
 namespace eckit::geo::search {
 
 
-TreeMappedAnonymousMemory::TreeMappedAnonymousMemory(const Grid& r) : TreeMapped(r, "/dev/zero") {}
+TreeMappedAnonymousMemory::TreeMappedAnonymousMemory(const Grid& r) : TreeMapped(r, "/dev/zero", false) {}
 
 
 static const TreeBuilder<TreeMappedAnonymousMemory> builder("mapped-anonymous-memory");
-- 
2.43.0


From 6e9a46a579382a029c0fbfc92e71684fef5abbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:45 +0000
Subject: [PATCH 088/135] fix: a number of which nothing is left is out of
 range

---
 src/eckit/utils/Translator.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eckit/utils/Translator.cc b/src/eckit/utils/Translator.cc
index 1a76bb8..2029e05 100644
--- a/src/eckit/utils/Translator.cc
+++ b/src/eckit/utils/Translator.cc
@@ -206,8 +206,8 @@ double Translator<std::string, double>::operator()(const std::string& s) {
     //    ECKIT_DEBUG_VAR( pend - s.c_str() );
     //    ECKIT_DEBUG_VAR( errno );
 
-    // n.b. a number too small to be held at full precision is not out of range
-    const bool range = errno != 0 && !(errno == ERANGE && std::abs(d) < 1.);
+    // n.b. a number too small to be held at full precision is not out of range, unless nothing is left of it
+    const bool range = errno != 0 && !(errno == ERANGE && std::abs(d) < 1. && d != 0.);
 
     if (s.empty() || s[0] == ' ' || static_cast<size_t>(pend - s.c_str()) != s.size() || range) {
         throw BadParameter("Bad conversion from std::string '" + s + "' to double", Here());
@@ -230,8 +230,8 @@ float Translator<std::string, float>::operator()(const std::string& s) {
     //    ECKIT_DEBUG_VAR( pend - s.c_str() );
     //    ECKIT_DEBUG_VAR( errno );
 
-    // n.b. a number too small to be held at full precision is not out of range
-    const bool range = errno != 0 && !(errno == ERANGE && std::abs(f) < 1.f);
+    // n.b. a number too small to be held at full precision is not out of range, unless nothing is left of it
+    const bool range = errno != 0 && !(errno == ERANGE && std::abs(f) < 1.f && f != 0.f);
 
     if (s.empty() || s[0] == ' ' || static_cast<size_t>(pend - s.c_str()) != s.size() || range) {
         throw BadParameter("Bad conversion from std::string '" + s + "' to float", Here());
-- 
2.43.0


From 5b11beee2b81e511889f48f3e5ad1c00f8f221cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:23 +0000
Subject: [PATCH 089/135] fix: a select whose condition is always false gives
 no rows rather than failing

---
 src/eckit/sql/SQLSelect.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/sql/SQLSelect.cc b/src/eckit/sql/SQLSelect.cc
index a684a9a..f0a9ee1 100644
--- a/src/eckit/sql/SQLSelect.cc
+++ b/src/eckit/sql/SQLSelect.cc
@@ -245,8 +245,8 @@ void SQLSelect::prepareExecute() {
                 where = nullptr;
             }
             else {
+                // The condition is kept as a check that no row passes
                 Log::debug<LibEcKit>() << "WHERE condition always false" << std::endl;
-                return;
             }
         }
     }
@@ -396,7 +396,7 @@ void SQLSelect::prepareExecute() {
 
         // Add what's left to last table
         for (size_t i = 0; i < e.size(); ++i) {
-            if (e[i]) {
+            if (e[i] && !sortedTables_.empty()) {
                 sortedTables_.back()->check_.push_back(e[i]);
             }
         }
-- 
2.43.0


From 2f35a0d675bfcd841f09f5400cb68d73d1670a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:23 +0000
Subject: [PATCH 090/135] fix: a condition that does not depend on a missing
 value is not missing

---
 src/eckit/sql/expression/function/FunctionAND.cc  | 15 ++++++++++++++-
 src/eckit/sql/expression/function/FunctionIN.cc   | 11 ++++++++++-
 .../sql/expression/function/FunctionNOT_IN.cc     | 13 ++++++++++---
 src/eckit/sql/expression/function/FunctionOR.cc   | 14 +++++++++++++-
 4 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/eckit/sql/expression/function/FunctionAND.cc b/src/eckit/sql/expression/function/FunctionAND.cc
index 73e976f..01026c4 100644
--- a/src/eckit/sql/expression/function/FunctionAND.cc
+++ b/src/eckit/sql/expression/function/FunctionAND.cc
@@ -35,7 +35,20 @@ const type::SQLType* FunctionAND::type() const {
 }  // TODO: bool?
 
 double FunctionAND::eval(bool& missing) const {
-    return args_[0]->eval(missing) && args_[1]->eval(missing);
+    // If either is false, so is the result, whether or not the other is missing
+    bool missing0 = false;
+    bool missing1 = false;
+    if (!args_[0]->eval(missing0) && !missing0) {
+        return false;
+    }
+    if (!args_[1]->eval(missing1) && !missing1) {
+        return false;
+    }
+    if (missing0 || missing1) {
+        missing = true;
+        return false;
+    }
+    return true;
 }
 
 bool FunctionAND::andSplit(expression::Expressions& e) {
diff --git a/src/eckit/sql/expression/function/FunctionIN.cc b/src/eckit/sql/expression/function/FunctionIN.cc
index 76906a3..af3a735 100644
--- a/src/eckit/sql/expression/function/FunctionIN.cc
+++ b/src/eckit/sql/expression/function/FunctionIN.cc
@@ -36,10 +36,19 @@ std::shared_ptr<SQLExpression> FunctionIN::clone() const {
 
 double FunctionIN::eval(bool& missing) const {
     const SQLExpression& x = *args_[size_];
+    bool anyMissing        = false;
+
     for (size_t i = 0; i < size_; ++i) {
-        if (FunctionEQ::equal(x, *args_[i], missing)) {
+        bool m = false;
+        if (FunctionEQ::equal(x, *args_[i], m) && !m) {
             return true;
         }
+        anyMissing = anyMissing || m;
+    }
+
+    // It might have been equal to what is missing
+    if (anyMissing) {
+        missing = true;
     }
     return false;
 }
diff --git a/src/eckit/sql/expression/function/FunctionNOT_IN.cc b/src/eckit/sql/expression/function/FunctionNOT_IN.cc
index 867ca7c..076c4ed 100644
--- a/src/eckit/sql/expression/function/FunctionNOT_IN.cc
+++ b/src/eckit/sql/expression/function/FunctionNOT_IN.cc
@@ -36,13 +36,20 @@ const type::SQLType* FunctionNOT_IN::type() const {
 
 double FunctionNOT_IN::eval(bool& missing) const {
     const SQLExpression& x = *args_[size_];
-    for (int i = 0; i < size_; ++i) {
-        args_[i]->eval(missing);
-        if (FunctionEQ::equal(x, *args_[i], missing)) {
+    bool anyMissing        = false;
+
+    for (size_t i = 0; i < size_; ++i) {
+        bool m = false;
+        if (FunctionEQ::equal(x, *args_[i], m) && !m) {
             return false;
         }
+        anyMissing = anyMissing || m;
     }
 
+    // It might have been equal to what is missing
+    if (anyMissing) {
+        missing = true;
+    }
     return true;
 }
 
diff --git a/src/eckit/sql/expression/function/FunctionOR.cc b/src/eckit/sql/expression/function/FunctionOR.cc
index 4d36caa..62e0525 100644
--- a/src/eckit/sql/expression/function/FunctionOR.cc
+++ b/src/eckit/sql/expression/function/FunctionOR.cc
@@ -32,7 +32,19 @@ const type::SQLType* FunctionOR::type() const {
 }
 
 double FunctionOR::eval(bool& missing) const {
-    return args_[0]->eval(missing) || args_[1]->eval(missing);
+    // If either is true, so is the result, whether or not the other is missing
+    bool missing0 = false;
+    bool missing1 = false;
+    if (args_[0]->eval(missing0) && !missing0) {
+        return true;
+    }
+    if (args_[1]->eval(missing1) && !missing1) {
+        return true;
+    }
+    if (missing0 || missing1) {
+        missing = true;
+    }
+    return false;
 }
 
 std::shared_ptr<SQLExpression> FunctionOR::simplify(bool& changed) {
-- 
2.43.0


From 836ee2d4e4bf51b004fbe89afdb809c784415475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:35 +0000
Subject: [PATCH 091/135] fix: first and last of missing values are missing,
 aggregates start afresh when a select is executed again

---
 .../sql/expression/function/FunctionFIRST.cc    | 17 +++++++++++------
 .../sql/expression/function/FunctionFIRST.h     |  1 +
 .../sql/expression/function/FunctionLAST.cc     | 13 +++++++------
 .../sql/expression/function/FunctionLAST.h      |  1 +
 .../sql/expression/function/FunctionSUM.cc      |  3 ++-
 5 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/eckit/sql/expression/function/FunctionFIRST.cc b/src/eckit/sql/expression/function/FunctionFIRST.cc
index f065063..440ffd3 100644
--- a/src/eckit/sql/expression/function/FunctionFIRST.cc
+++ b/src/eckit/sql/expression/function/FunctionFIRST.cc
@@ -21,10 +21,13 @@ namespace eckit::sql::expression::function {
 static FunctionBuilder<FunctionFIRST> firstFunctionBuilder("first");
 
 FunctionFIRST::FunctionFIRST(const std::string& name, const expression::Expressions& args) :
-    FunctionExpression(name, args), value_(DBL_MAX), notFirst_(false) {}
+    FunctionExpression(name, args), value_(DBL_MAX), missing_(true), notFirst_(false) {}
 
 FunctionFIRST::FunctionFIRST(const FunctionFIRST& other) :
-    FunctionExpression(other.name_, other.args_), value_(other.value_), notFirst_(other.notFirst_) {}
+    FunctionExpression(other.name_, other.args_),
+    value_(other.value_),
+    missing_(other.missing_),
+    notFirst_(other.notFirst_) {}
 
 std::shared_ptr<SQLExpression> FunctionFIRST::clone() const {
     return std::make_shared<FunctionFIRST>(*this);
@@ -37,7 +40,7 @@ const eckit::sql::type::SQLType* FunctionFIRST::type() const {
 FunctionFIRST::~FunctionFIRST() {}
 
 double FunctionFIRST::eval(bool& missing) const {
-    if (value_ == DBL_MAX) {
+    if (missing_) {
         missing = true;
     }
 
@@ -46,7 +49,9 @@ double FunctionFIRST::eval(bool& missing) const {
 
 void FunctionFIRST::prepare(SQLSelect& sql) {
     FunctionExpression::prepare(sql);
-    value_ = DBL_MAX;
+    value_    = DBL_MAX;
+    missing_  = true;
+    notFirst_ = false;
 }
 
 void FunctionFIRST::cleanup(SQLSelect& sql) {
@@ -65,8 +70,8 @@ void FunctionFIRST::partialResult() {
         return;
     }
 
-    bool missing(false);
-    value_    = (args_[0]->eval(missing));
+    missing_  = false;
+    value_    = args_[0]->eval(missing_);
     notFirst_ = true;
 }
 
diff --git a/src/eckit/sql/expression/function/FunctionFIRST.h b/src/eckit/sql/expression/function/FunctionFIRST.h
index 340b3a8..e98635d 100644
--- a/src/eckit/sql/expression/function/FunctionFIRST.h
+++ b/src/eckit/sql/expression/function/FunctionFIRST.h
@@ -35,6 +35,7 @@ private:
     FunctionFIRST& operator=(const FunctionFIRST&);
 
     double value_;
+    bool missing_;
     bool notFirst_;
 
     // -- Overridden methods
diff --git a/src/eckit/sql/expression/function/FunctionLAST.cc b/src/eckit/sql/expression/function/FunctionLAST.cc
index c81b395..c12f139 100644
--- a/src/eckit/sql/expression/function/FunctionLAST.cc
+++ b/src/eckit/sql/expression/function/FunctionLAST.cc
@@ -21,10 +21,10 @@ namespace eckit::sql::expression::function {
 static FunctionBuilder<FunctionLAST> lastFunctionBuilder("last");
 
 FunctionLAST::FunctionLAST(const std::string& name, const expression::Expressions& args) :
-    FunctionExpression(name, args), value_(DBL_MAX) {}
+    FunctionExpression(name, args), value_(DBL_MAX), missing_(true) {}
 
 FunctionLAST::FunctionLAST(const FunctionLAST& other) :
-    FunctionExpression(other.name_, other.args_), value_(other.value_) {}
+    FunctionExpression(other.name_, other.args_), value_(other.value_), missing_(other.missing_) {}
 
 std::shared_ptr<SQLExpression> FunctionLAST::clone() const {
     return std::make_shared<FunctionLAST>(*this);
@@ -37,7 +37,7 @@ const eckit::sql::type::SQLType* FunctionLAST::type() const {
 FunctionLAST::~FunctionLAST() {}
 
 double FunctionLAST::eval(bool& missing) const {
-    if (value_ == DBL_MAX) {
+    if (missing_) {
         missing = true;
     }
 
@@ -46,7 +46,8 @@ double FunctionLAST::eval(bool& missing) const {
 
 void FunctionLAST::prepare(SQLSelect& sql) {
     FunctionExpression::prepare(sql);
-    value_ = DBL_MAX;
+    value_   = DBL_MAX;
+    missing_ = true;
 }
 
 void FunctionLAST::cleanup(SQLSelect& sql) {
@@ -61,8 +62,8 @@ void FunctionLAST::output(SQLOutput& s) const {
 }
 
 void FunctionLAST::partialResult() {
-    bool missing(false);
-    value_ = (args_[0]->eval(missing));
+    missing_ = false;
+    value_   = args_[0]->eval(missing_);
 }
 
 }  // namespace eckit::sql::expression::function
diff --git a/src/eckit/sql/expression/function/FunctionLAST.h b/src/eckit/sql/expression/function/FunctionLAST.h
index 1c1faf9..95fa843 100644
--- a/src/eckit/sql/expression/function/FunctionLAST.h
+++ b/src/eckit/sql/expression/function/FunctionLAST.h
@@ -36,6 +36,7 @@ private:
     FunctionLAST& operator=(const FunctionLAST&);
 
     double value_;
+    bool missing_;
 
     // -- Overridden methods
     const eckit::sql::type::SQLType* type() const override;
diff --git a/src/eckit/sql/expression/function/FunctionSUM.cc b/src/eckit/sql/expression/function/FunctionSUM.cc
index a1d98e8..ec97691 100644
--- a/src/eckit/sql/expression/function/FunctionSUM.cc
+++ b/src/eckit/sql/expression/function/FunctionSUM.cc
@@ -42,7 +42,8 @@ double FunctionSUM::eval(bool& missing) const {
 
 void FunctionSUM::prepare(SQLSelect& sql) {
     FunctionExpression::prepare(sql);
-    value_ = 0;
+    value_      = 0;
+    resultNULL_ = true;
 }
 
 void FunctionSUM::cleanup(SQLSelect& sql) {
-- 
2.43.0


From 7a6bc1f51849a5b2ab8c87fcc854799bb9b40f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:50 +0000
Subject: [PATCH 092/135] fix: rows are ordered by all of a text whose column
 got wider

---
 src/eckit/sql/SQLOrderOutput.cc | 7 +++++++
 src/eckit/sql/SQLOrderOutput.h  | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/eckit/sql/SQLOrderOutput.cc b/src/eckit/sql/SQLOrderOutput.cc
index d565b7b..fc65b0d 100644
--- a/src/eckit/sql/SQLOrderOutput.cc
+++ b/src/eckit/sql/SQLOrderOutput.cc
@@ -126,6 +126,13 @@ void SQLOrderOutput::prepare(SQLSelect& sql) {
     }
 }
 
+void SQLOrderOutput::updateTypes(SQLSelect& sql) {
+    output_.updateTypes(sql);
+    for (auto& exprn : by_.first) {
+        exprn->updateType(sql);
+    }
+}
+
 void SQLOrderOutput::cleanup(SQLSelect& sql) {
     output_.cleanup(sql);
     for (Expressions::iterator j = by_.first.begin(); j != by_.first.end(); ++j) {
diff --git a/src/eckit/sql/SQLOrderOutput.h b/src/eckit/sql/SQLOrderOutput.h
index d572757..403ba63 100644
--- a/src/eckit/sql/SQLOrderOutput.h
+++ b/src/eckit/sql/SQLOrderOutput.h
@@ -56,6 +56,7 @@ private:  // methods
     bool output(const expression::Expressions&) override;
     void preprepare(SQLSelect&) override;
     void prepare(SQLSelect&) override;
+    void updateTypes(SQLSelect&) override;
     void cleanup(SQLSelect&) override;
     unsigned long long count() override;
 
-- 
2.43.0


From 8c56fae18a90e3ccc649f17b7acbce737df754dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:50 +0000
Subject: [PATCH 093/135] fix: order by an index beyond the last column is
 refused

---
 src/eckit/sql/SQLOrderOutput.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/sql/SQLOrderOutput.cc b/src/eckit/sql/SQLOrderOutput.cc
index fc65b0d..f2541bb 100644
--- a/src/eckit/sql/SQLOrderOutput.cc
+++ b/src/eckit/sql/SQLOrderOutput.cc
@@ -9,6 +9,8 @@
  */
 
 #include "eckit/sql/SQLOrderOutput.h"
+
+#include "eckit/sql/SQLSelect.h"
 #include "eckit/sql/expression/SQLExpressionEvaluated.h"
 
 using namespace eckit::sql::expression;
@@ -121,6 +123,9 @@ void SQLOrderOutput::prepare(SQLSelect& sql) {
             if (index < 1) {
                 throw eckit::UserError("ORDER BY: indices of columns must be positive");
             }
+            if (index > sql.output().size()) {
+                throw eckit::UserError("ORDER BY: index of column is beyond the last");
+            }
             byIndices_.push_back(index);
         }
     }
-- 
2.43.0


From c3a0ca98cda5148647af15100f93cb0943a4c705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:57 +0000
Subject: [PATCH 094/135] fix: distinct compares rows before and after a column
 of text got wider, and missing values only to each other

---
 src/eckit/sql/SQLDistinctOutput.cc | 53 +++++++++++++++++++++++++++---
 src/eckit/sql/SQLDistinctOutput.h  |  2 ++
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/eckit/sql/SQLDistinctOutput.cc b/src/eckit/sql/SQLDistinctOutput.cc
index 728120c..33b2bd2 100644
--- a/src/eckit/sql/SQLDistinctOutput.cc
+++ b/src/eckit/sql/SQLDistinctOutput.cc
@@ -9,6 +9,9 @@
  */
 
 #include "eckit/sql/SQLDistinctOutput.h"
+
+#include <algorithm>
+
 #include "eckit/sql/SQLSelect.h"
 #include "eckit/sql/expression/SQLExpressions.h"
 
@@ -47,10 +50,18 @@ bool SQLDistinctOutput::output(const expression::Expressions& results) {
 
     ASSERT(results.size() == offsets_.size());
 
+    std::fill(tmp_.begin(), tmp_.end(), 0);
+
     for (size_t i = 0; i < results.size(); i++) {
         bool missing = false;
         results[i]->eval(&tmp_[offsets_[i]], missing);
-        // What do we do with missing? Or has it been already evaluated somewhere before and it doesn't matter???...
+
+        // Missing values are the same as each other, and different to any value
+
+        if (missing) {
+            std::fill_n(tmp_.begin() + offsets_[i], sizes_[i], 0);
+            tmp_[offsets_[i] + sizes_[i]] = 1;
+        }
     }
 
     if (seen_.find(tmp_) == seen_.end()) {
@@ -67,28 +78,62 @@ void SQLDistinctOutput::preprepare(SQLSelect& sql) {
 
 void SQLDistinctOutput::prepare(SQLSelect& sql) {
     output_.prepare(sql);
-    updateTypes(sql);
     seen_.clear();
+    offsets_.clear();
+    sizes_.clear();
+    updateTypes(sql);
 }
 
 void SQLDistinctOutput::updateTypes(SQLSelect& sql) {
 
     output_.updateTypes(sql);
 
-    // How much space is needed to store each row of selected data
+    layout(sql);
+}
+
+void SQLDistinctOutput::layout(SQLSelect& sql) {
+
+    // How much space is needed to store each row of selected data. The size of a column may change from row to
+    // row. It never shrinks here, so that the rows seen so far can be compared with the rows to come.
+
+    std::vector<size_t> oldOffsets(offsets_);
+    std::vector<size_t> oldSizes(sizes_);
+
     offsets_.clear();
+    sizes_.clear();
     size_t offset = 0;
 
     for (const auto& column : sql.output()) {
         size_t colSizeBytes = column->type()->size();
         ASSERT(colSizeBytes % 8 == 0);
+
+        size_t i    = sizes_.size();
+        size_t size = colSizeBytes / 8;
+        if (i < oldSizes.size()) {
+            size = std::max(size, oldSizes[i]);
+        }
+
         offsets_.push_back(offset);
-        offset += colSizeBytes / 8;
+        sizes_.push_back(size);
+        offset += size + 1;  // one more, for whether it is missing
     }
 
     // And buffers to do the storage
 
     tmp_.resize(offset);
+
+    if (!seen_.empty() && sizes_ != oldSizes) {
+        decltype(seen_) seen;
+        for (const auto& row : seen_) {
+            std::vector<double> r(offset, 0);
+            for (size_t i = 0; i < oldSizes.size(); ++i) {
+                std::copy_n(row.begin() + oldOffsets[i], oldSizes[i], r.begin() + offsets_[i]);
+                r[offsets_[i] + sizes_[i]] = row[oldOffsets[i] + oldSizes[i]];
+            }
+            seen.insert(r);
+        }
+        std::swap(seen_, seen);
+    }
 }
 
 void SQLDistinctOutput::cleanup(SQLSelect& sql) {
diff --git a/src/eckit/sql/SQLDistinctOutput.h b/src/eckit/sql/SQLDistinctOutput.h
index c6a6e3c..9fe52ce 100644
--- a/src/eckit/sql/SQLDistinctOutput.h
+++ b/src/eckit/sql/SQLDistinctOutput.h
@@ -54,6 +54,7 @@ public:  // methods
 private:  // methods
 
     void print(std::ostream&) const override;
+    void layout(SQLSelect&);
 
     // -- Members
 
@@ -61,6 +62,7 @@ private:  // methods
     std::set<std::vector<double>, DoubleBitwiseLessComparator> seen_;
     std::vector<double> tmp_;
     std::vector<size_t> offsets_;
+    std::vector<size_t> sizes_;
 
     // -- Overridden methods
     void reset() override;
-- 
2.43.0


From dee29b1ebf8996a9ddbb91a78b86db1173c07726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:09 +0000
Subject: [PATCH 095/135] fix: a pattern is matched with all of a text rather
 than its first eight characters

---
 .../sql/expression/function/FunctionRLIKE.cc  | 21 +++++--------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/eckit/sql/expression/function/FunctionRLIKE.cc b/src/eckit/sql/expression/function/FunctionRLIKE.cc
index f40207b..40f7783 100644
--- a/src/eckit/sql/expression/function/FunctionRLIKE.cc
+++ b/src/eckit/sql/expression/function/FunctionRLIKE.cc
@@ -14,6 +14,7 @@
 #include "eckit/sql/expression/function/FunctionFactory.h"
 #include "eckit/sql/type/SQLType.h"
 #include "eckit/utils/Regex.h"
+#include "eckit/utils/StringTools.h"
 
 namespace eckit::sql::expression::function {
 
@@ -29,7 +30,7 @@ const type::SQLType* FunctionRLIKE::type() const {
 }
 
 FunctionRLIKE::FunctionRLIKE(const FunctionRLIKE& other) :
-    FunctionExpression(other.name_, other.args_), re_(new eckit::Regex(*other.re_)) {}
+    FunctionExpression(other.name_, other.args_), re_(other.re_ ? new eckit::Regex(*other.re_) : nullptr) {}
 
 FunctionRLIKE::FunctionRLIKE(const std::string& name, const expression::Expressions& args) :
     FunctionExpression(name, args), re_() {}
@@ -67,30 +68,18 @@ void FunctionRLIKE::prepare(SQLSelect& sql) {
     }
 
     bool missing(false);
-    double v2(r.eval(missing));
-    char* p2 = reinterpret_cast<char*>(&v2);
-    size_t len2(sizeof(double));
-
-    trimStringInDouble(p2, len2);
-
-    std::string re(p2, len2);
+    std::string re(StringTools::trim(r.evalAsString(missing), "\t\n\v\f\r "));
     // eckit::Log::info() << "FunctionRLIKE::prepare: regex: '" << re << "'" << std::endl;
     re_.reset(new eckit::Regex(re));
 }
 
 bool FunctionRLIKE::match(const SQLExpression& l, const SQLExpression& r, bool& missing) const {
-    double v1 = l.eval(missing);
+    std::string s1(l.evalAsString(missing));
     if (missing) {
         return false;
     }
 
-    char* p1(reinterpret_cast<char*>(&v1));
-    size_t len1(sizeof(double));
-
-    trimStringInDouble(p1, len1);
-    std::string s1(p1, len1);
-
-    bool ret = re_->match(s1);
+    bool ret = re_->match(StringTools::trim(s1, "\t\n\v\f\r "));
     // eckit::Log::info() << "FunctionRLIKE::match '" << s1 << "' => " << ret << std::endl;
     return ret;
 }
-- 
2.43.0


From 6ed6ee72423e1f87674541ae0007e34880721b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:09 +0000
Subject: [PATCH 096/135] fix: a minus sign applies to the operand which
 follows it rather than to all the rest

---
 src/eckit/sql/sqly.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/sql/sqly.y b/src/eckit/sql/sqly.y
index 45eba6c..171d484 100755
--- a/src/eckit/sql/sqly.y
+++ b/src/eckit/sql/sqly.y
@@ -612,7 +612,7 @@ optional_hash : HASH DOUBLE { $$ = std::make_shared<NumberExpression>($2); }
 
 
 atom_or_number : '(' expression ')'           { $$ = $2; }
-               | '-' expression               { $$ = FunctionFactory::instance().build("-",$2); }
+               | '-' atom_or_number           { $$ = FunctionFactory::instance().build("-",$2); }
                | DOUBLE                       { $$ = std::make_shared<NumberExpression>($1); }
                |
                column
-- 
2.43.0


From 7e0defeb8ae2f3816f70832d27713c6c4d690a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:06 +0000
Subject: [PATCH 097/135] fix: a select from several tables considers all
 combinations of their rows

---
 src/eckit/sql/SQLSelect.cc | 82 ++++++++++++++++++++++----------------
 src/eckit/sql/SQLSelect.h  |  3 ++
 2 files changed, 51 insertions(+), 34 deletions(-)

diff --git a/src/eckit/sql/SQLSelect.cc b/src/eckit/sql/SQLSelect.cc
index f0a9ee1..779db5e 100644
--- a/src/eckit/sql/SQLSelect.cc
+++ b/src/eckit/sql/SQLSelect.cc
@@ -45,7 +45,9 @@ SQLSelect::SQLSelect(const Expressions& columns, const std::vector<std::referenc
     skips_(0),
     aggregate_(false),
     mixedAggregatedAndScalar_(false),
-    doOutputCached_(false) {
+    doOutputCached_(false),
+    started_(false),
+    exhausted_(false) {
     // TODO: Convert tables_, allTables_ to use references rather than pointers.
     for (const SQLTable& t : tables) {
         tables_.push_back(&t);
@@ -492,6 +494,8 @@ void SQLSelect::reset() {
     aggregate_                = false;
     mixedAggregatedAndScalar_ = false;
     doOutputCached_           = false;
+    started_                  = false;
+    exhausted_                = false;
 
     aggregated_.clear();
     nonAggregated_.clear();
@@ -622,6 +626,36 @@ bool SQLSelect::processNextTableRow(size_t tableIndex) {
 }
 
 
+bool SQLSelect::processNextCombination() {
+
+    /// Obtain the next combination of rows, one from each table, that all validate, or return false if there
+    /// is not one.
+
+    if (exhausted_ || cursors_.empty()) {
+        return false;
+    }
+
+    size_t idx = started_ ? cursors_.size() - 1 : 0;
+
+    while (true) {
+        if (processNextTableRow(idx)) {
+            if (++idx == cursors_.size()) {
+                started_ = true;
+                return true;
+            }
+            cursors_[idx]->rewind();
+        }
+        else {
+            if (idx == 0) {
+                exhausted_ = true;
+                return false;
+            }
+            --idx;
+        }
+    }
+}
+
+
 bool SQLSelect::processOneRow() {
 
     // n.b. it is acceptable for fromTables.size() == 0, if the expressions
@@ -640,45 +674,25 @@ bool SQLSelect::processOneRow() {
         return false;
     }
 
-    // If this is the first retrieve, we need to initialise all tables
-
-    if (count_ == 0) {
-        for (size_t idx = 0; idx < cursors_.size(); idx++) {
-            if (!processNextTableRow(idx)) {
-                return false;  // If false, there is no data
-            }
-        }
-
-        if (writeOutput()) {
-            count_++;
-            return true;
-            ;
-        }
-    }
-
-    // Otherwise, start by incrementing the first table. If that is exhausted, reset that table
-    // and increment the second, and continue until we have enumerated all possible combinations
-    // of valid data across the tables.
+    // Enumerate all possible combinations of valid data across the tables. The last table is incremented
+    // first. If that is exhausted, increment the one before, and start again with those which follow.
+    // n.b. the checks of a table may use the values of the tables before it, but not of those after it.
 
     if (!mixedAggregatedAndScalar_ || aggregatedResultsIterator_ == aggregatedResults_.end()) {
 
-        for (size_t idx = 0; idx < cursors_.size(); idx++) {
-
-            // n.b. keep going until writeOutput() has done something - i.e. a row has been
-            // returned. This allows us to have filtering/unique/aggregation in the Output
-            while (processNextTableRow(idx)) {
-                if (writeOutput()) {
-                    count_++;
-                    return true;
-                }
+        // n.b. keep going until writeOutput() has done something - i.e. a row has been
+        // returned. This allows us to have filtering/unique/aggregation in the Output
+        while (processNextCombination()) {
+            if (writeOutput()) {
+                count_++;
+                return true;
             }
+        }
 
-            // If we have exhausted the available rows, rewind and increment those in the next table
+        // If this is the first retrieve, and no data has been considered, then there is none to be returned
 
-            if (idx != cursors_.size() - 1) {
-                cursors_[idx]->rewind();
-                ASSERT(processNextTableRow(idx));
-            }
+        if (!started_) {
+            return false;
         }
     }
 
diff --git a/src/eckit/sql/SQLSelect.h b/src/eckit/sql/SQLSelect.h
index e4df64f..ff091ba 100644
--- a/src/eckit/sql/SQLSelect.h
+++ b/src/eckit/sql/SQLSelect.h
@@ -123,6 +123,8 @@ private:
     bool aggregate_;
     bool mixedAggregatedAndScalar_;
     bool doOutputCached_;
+    bool started_;
+    bool exhausted_;
     Expressions aggregated_;
     Expressions nonAggregated_;
     std::vector<bool> mixedResultColumnIsAggregated_;
@@ -136,6 +138,7 @@ private:
     std::shared_ptr<SQLExpression> findAliasedExpression(const std::string& alias);
 
     bool processNextTableRow(size_t tableIndex);
+    bool processNextCombination();
 
     friend class expression::function::FunctionROWNUMBER;  // needs access to count_
     friend class expression::function::FunctionTHIN;       // needs access to count_
-- 
2.43.0


From 87ac38c570a5b100dced67f223fc37993e25b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:06 +0000
Subject: [PATCH 098/135] fix: the condition left after simplification is kept
 up to date, and can be used again

---
 src/eckit/sql/SQLSelect.cc                       | 7 ++++++-
 src/eckit/sql/expression/function/FunctionAND.cc | 1 -
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eckit/sql/SQLSelect.cc b/src/eckit/sql/SQLSelect.cc
index 779db5e..dd465d5 100644
--- a/src/eckit/sql/SQLSelect.cc
+++ b/src/eckit/sql/SQLSelect.cc
@@ -483,7 +483,11 @@ void SQLSelect::refreshCursorMetadata(SQLTable* table, SQLTableIterator& cursor)
         (*c)->updateType(*this);
     }
 
-    if (where_) {
+    // n.b. simplification may have replaced the condition
+    if (simplifiedWhere_) {
+        simplifiedWhere_->prepare(*this);
+    }
+    else if (where_) {
         where_->prepare(*this);
     }
 
@@ -491,6 +495,7 @@ void SQLSelect::refreshCursorMetadata(SQLTable* table, SQLTableIterator& cursor)
 }
 
 void SQLSelect::reset() {
+    simplifiedWhere_          = nullptr;
     aggregate_                = false;
     mixedAggregatedAndScalar_ = false;
     doOutputCached_           = false;
diff --git a/src/eckit/sql/expression/function/FunctionAND.cc b/src/eckit/sql/expression/function/FunctionAND.cc
index 01026c4..de23ede 100644
--- a/src/eckit/sql/expression/function/FunctionAND.cc
+++ b/src/eckit/sql/expression/function/FunctionAND.cc
@@ -81,7 +81,6 @@ std::shared_ptr<SQLExpression> FunctionAND::simplify(bool& changed) {
                 changed = true;
 
                 std::shared_ptr<SQLExpression> x = args_[1 - i];
-                args_.clear();
 
                 std::cout << *x << std::endl;
                 return x;
-- 
2.43.0


From 1d5c77856227b5aea69cf77ed33d418251eaed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:35 +0000
Subject: [PATCH 099/135] fix: missing values are equal for the purposes of
 order and groups

---
 src/eckit/sql/expression/OrderByExpressions.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/eckit/sql/expression/OrderByExpressions.cc b/src/eckit/sql/expression/OrderByExpressions.cc
index be2c8da..a91cfc6 100644
--- a/src/eckit/sql/expression/OrderByExpressions.cc
+++ b/src/eckit/sql/expression/OrderByExpressions.cc
@@ -51,6 +51,9 @@ bool OrderByExpressions::operator<(const OrderByExpressions& o) const {
             if (missing1 != missing2) {
                 return missing1;
             }
+            if (missing1) {
+                continue;
+            }
 
             v1 = StringTools::trim(v1, "\t\n\v\f\r ");
             v2 = StringTools::trim(v2, "\t\n\v\f\r ");
@@ -70,6 +73,9 @@ bool OrderByExpressions::operator<(const OrderByExpressions& o) const {
             if (leftMissing != rightMissing) {
                 return leftMissing;
             }
+            if (leftMissing) {
+                continue;
+            }
 
             if (leftValue != rightValue) {
                 return (leftValue < rightValue);
@@ -88,7 +94,7 @@ bool OrderByExpressions::operator==(const OrderByExpressions& o) const {
     ASSERT(ascending_.size() == n || ascending_.empty());
 
     for (size_t i = 0; i < n; ++i) {
-        bool asc = ascending_[i];
+        bool asc = ascending_.empty() ? true : ascending_[i];
 
         const SQLExpression& left  = asc ? *(*this)[i] : *o[i];
         const SQLExpression& right = asc ? *o[i] : *(*this)[i];
@@ -107,6 +113,9 @@ bool OrderByExpressions::operator==(const OrderByExpressions& o) const {
             if (missing1 != missing2) {
                 return false;
             }
+            if (missing1) {
+                continue;
+            }
 
             v1 = StringTools::trim(v1, "\t\n\v\f\r ");
             v2 = StringTools::trim(v2, "\t\n\v\f\r ");
@@ -126,6 +135,9 @@ bool OrderByExpressions::operator==(const OrderByExpressions& o) const {
             if (leftMissing != rightMissing) {
                 return false;
             }
+            if (leftMissing) {
+                continue;
+            }
             if (leftValue != rightValue) {
                 return false;
             }
-- 
2.43.0


From 67762696d2296683d74b7fdb4a4b7e5622e2d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:45 +0000
Subject: [PATCH 100/135] fix: expressions of aggregates are of their own group

---
 src/eckit/sql/SQLSelect.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/eckit/sql/SQLSelect.cc b/src/eckit/sql/SQLSelect.cc
index dd465d5..e0c6014 100644
--- a/src/eckit/sql/SQLSelect.cc
+++ b/src/eckit/sql/SQLSelect.cc
@@ -24,6 +24,7 @@
 #include "eckit/sql/expression/OrderByExpressions.h"
 #include "eckit/sql/expression/SQLExpressionEvaluated.h"
 #include "eckit/sql/expression/SQLExpressions.h"
+#include "eckit/sql/expression/function/FunctionExpression.h"
 
 namespace eckit::sql {
 
@@ -523,6 +524,22 @@ void SQLSelect::reset() {
 }
 
 
+static std::shared_ptr<SQLExpression> cloneAggregate(const SQLExpression& expr) {
+
+    /// Copy an expression such that it does not share the accumulated value of any aggregate function
+
+    std::shared_ptr<SQLExpression> copy(expr.clone());
+    if (auto* fn = dynamic_cast<function::FunctionExpression*>(copy.get())) {
+        for (auto& arg : fn->args()) {
+            if (arg->isAggregate()) {
+                arg = cloneAggregate(*arg);
+            }
+        }
+    }
+    return copy;
+}
+
+
 bool SQLSelect::writeOutput() {
 
     std::shared_ptr<SQLExpression>& where(simplifiedWhere_);
@@ -557,7 +574,7 @@ bool SQLSelect::writeOutput() {
                 if (results == aggregatedResults_.end()) {
                     Expressions& aggregated = aggregatedResults_[nonAggregatedValues];
                     for (const auto& expr : aggregated_) {
-                        aggregated.emplace_back(expr->clone());
+                        aggregated.emplace_back(cloneAggregate(*expr));
                     }
                 }
 
-- 
2.43.0


From cebf6e8532957d7d7a36049dc5cc5791139de63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:18 +0000
Subject: [PATCH 101/135] fix: groups are ordered by the values of the group

---
 src/eckit/sql/SQLOrderOutput.cc | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/eckit/sql/SQLOrderOutput.cc b/src/eckit/sql/SQLOrderOutput.cc
index f2541bb..0574782 100644
--- a/src/eckit/sql/SQLOrderOutput.cc
+++ b/src/eckit/sql/SQLOrderOutput.cc
@@ -10,6 +10,9 @@
 
 #include "eckit/sql/SQLOrderOutput.h"
 
+#include <algorithm>
+#include <sstream>
+
 #include "eckit/sql/SQLSelect.h"
 #include "eckit/sql/expression/SQLExpressionEvaluated.h"
 
@@ -108,13 +111,36 @@ void SQLOrderOutput::preprepare(SQLSelect& sql) {
     }
 }
 
+/// If the results are of groups of rows, there is no current row for an expression to be evaluated with.
+/// @returns the (1-based) index of the result which is the expression, or 0 if it is to be evaluated
+static size_t groupedIndex(const Expressions& results, const SQLExpression& by) {
+
+    bool grouped = std::any_of(results.begin(), results.end(),
+                               [](const std::shared_ptr<SQLExpression>& e) { return e->isAggregate(); });
+
+    if (grouped) {
+        std::ostringstream wanted;
+        wanted << by;
+        for (size_t i = 0; i < results.size(); ++i) {
+            std::ostringstream result;
+            result << *results[i];
+            if (result.str() == wanted.str()) {
+                return i + 1;
+            }
+        }
+    }
+
+    return 0;
+}
+
 void SQLOrderOutput::prepare(SQLSelect& sql) {
     output_.prepare(sql);
+    byIndices_.clear();
     Expressions& ex(by_.first);
     for (size_t i(0); i < ex.size(); ++i) {
         if (!ex[i]->isConstant()) {
             ex[i]->prepare(sql);
-            byIndices_.push_back(0);
+            byIndices_.push_back(groupedIndex(sql.output(), *ex[i]));
         }
         else {
             bool missing(false);
-- 
2.43.0


From c316b8d56d06fbea61cba04544e7502d13e13608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:13 +0000
Subject: [PATCH 102/135] fix: iterators of sparse matrices keep to the row of
 the entry, and have an end without entries

---
 src/eckit/linalg/SparseMatrix.cc | 25 +++++++++++++++++--------
 src/eckit/linalg/SparseMatrix.h  |  3 +++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/eckit/linalg/SparseMatrix.cc b/src/eckit/linalg/SparseMatrix.cc
index 2dd6b52..4b495d1 100644
--- a/src/eckit/linalg/SparseMatrix.cc
+++ b/src/eckit/linalg/SparseMatrix.cc
@@ -516,10 +516,8 @@ bool SparseMatrix::const_iterator::operator==(const SparseMatrix::const_iterator
 
 
 SparseMatrix::const_iterator::const_iterator(const SparseMatrix& matrix) :
-    matrix_(const_cast<SparseMatrix*>(&matrix)), index_(0) {
-    for (row_ = 0; matrix_->spm_.outer_[row_ + 1] == 0;) {
-        ++row_;
-    }
+    matrix_(const_cast<SparseMatrix*>(&matrix)), index_(0), row_(0) {
+    nextRow();
 }
 
 
@@ -528,7 +526,20 @@ SparseMatrix::const_iterator::const_iterator(const SparseMatrix& matrix, Size ro
     if (const Size rows = matrix_->rows(); row_ > rows) {
         row_ = rows;
     }
-    index_ = static_cast<Size>(matrix_->spm_.outer_[row_]);
+    index_ = matrix_->empty() ? 0 : static_cast<Size>(matrix_->spm_.outer_[row_]);
+}
+
+
+void SparseMatrix::const_iterator::nextRow() {
+    if (index_ >= matrix_->nonZeros()) {
+        row_ = matrix_->rows();
+        return;
+    }
+
+    // skip the rows without entries
+    while (static_cast<Size>(matrix_->spm_.outer_[row_ + 1]) <= index_) {
+        ++row_;
+    }
 }
 
 
@@ -544,10 +555,8 @@ Size SparseMatrix::const_iterator::row() const {
 
 
 SparseMatrix::const_iterator& SparseMatrix::const_iterator::operator++() {
-    if (lastOfRow()) {
-        row_++;
-    }
     index_++;
+    nextRow();
     return *this;
 }
 
diff --git a/src/eckit/linalg/SparseMatrix.h b/src/eckit/linalg/SparseMatrix.h
index ab218a0..a28c66c 100644
--- a/src/eckit/linalg/SparseMatrix.h
+++ b/src/eckit/linalg/SparseMatrix.h
@@ -267,6 +267,9 @@ public:  // iterators
 
         friend struct iterator;
 
+        /// Set the row of the current entry
+        void nextRow();
+
         SparseMatrix* matrix_;
         Size index_;
         Size row_;
-- 
2.43.0


From e50dff2167414be1af7b7e0073596504a9fdda86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:13 +0000
Subject: [PATCH 103/135] fix: pruning a sparse matrix does not change the
 arrays of others, nor the matrix when nothing is left

---
 src/eckit/linalg/SparseMatrix.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eckit/linalg/SparseMatrix.cc b/src/eckit/linalg/SparseMatrix.cc
index 4b495d1..7235d18 100644
--- a/src/eckit/linalg/SparseMatrix.cc
+++ b/src/eckit/linalg/SparseMatrix.cc
@@ -401,12 +401,12 @@ SparseMatrix SparseMatrix::rowReduction(const std::vector<size_t>& p) const {
 SparseMatrix& SparseMatrix::prune(Scalar val) {
     std::vector<Scalar> v;
     std::vector<Index> inner;
+    std::vector<UIndex> outer(shape_.outerSize());
 
     Size nnz = 0;
     for (Size r = 0; r < shape_.rows_; ++r) {
-        const auto start = spm_.outer_[r];
-        spm_.outer_[r]   = static_cast<UIndex>(nnz);
-        for (auto c = start; c < spm_.outer_[r + 1]; ++c) {
+        outer[r] = static_cast<UIndex>(nnz);
+        for (auto c = spm_.outer_[r]; c < spm_.outer_[r + 1]; ++c) {
             if (spm_.data_[c] != val) {
                 v.push_back(spm_.data_[c]);
                 inner.push_back(spm_.inner_[c]);
@@ -414,13 +414,13 @@ SparseMatrix& SparseMatrix::prune(Scalar val) {
             }
         }
     }
-    spm_.outer_[shape_.rows_] = static_cast<UIndex>(nnz);
+    outer[shape_.rows_] = static_cast<UIndex>(nnz);
 
     SparseMatrix tmp;
     tmp.reserve(shape_.rows_, shape_.cols_, nnz);
 
     std::memcpy(tmp.spm_.data_, v.data(), nnz * sizeof(Scalar));
-    std::memcpy(tmp.spm_.outer_, spm_.outer_, shape_.outerSize() * sizeof(UIndex));
+    std::memcpy(tmp.spm_.outer_, outer.data(), shape_.outerSize() * sizeof(UIndex));
     std::memcpy(tmp.spm_.inner_, inner.data(), nnz * sizeof(Index));
 
     swap(tmp);
-- 
2.43.0


From bef9a9de2235ceb854ae157f10a7154d88860234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:13 +0000
Subject: [PATCH 104/135] fix: the size of a tensor is not limited to that of
 an int

---
 src/eckit/linalg/Tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/linalg/Tensor.h b/src/eckit/linalg/Tensor.h
index f422a99..bc06046 100644
--- a/src/eckit/linalg/Tensor.h
+++ b/src/eckit/linalg/Tensor.h
@@ -53,7 +53,7 @@ public:  // class methods
     };
 
     static Size flatSize(const std::vector<Size>& shape) {
-        return std::accumulate(std::begin(shape), std::end(shape), 1, std::multiplies<Size>());
+        return std::accumulate(std::begin(shape), std::end(shape), Size(1), std::multiplies<Size>());
     }
 
     static std::vector<Size> strides(Layout layout, const std::vector<Size>& shape) {
-- 
2.43.0


From 402b77f48bc3b4c262dfaa7858466e07cee66d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:44 +0000
Subject: [PATCH 105/135] fix: a matrix is not loaded from a buffer which is
 cut within its description, or too small for it

---
 src/eckit/linalg/SparseMatrix.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eckit/linalg/SparseMatrix.cc b/src/eckit/linalg/SparseMatrix.cc
index 7235d18..27f8cad 100644
--- a/src/eckit/linalg/SparseMatrix.cc
+++ b/src/eckit/linalg/SparseMatrix.cc
@@ -207,11 +207,16 @@ void SparseMatrix::load(const void* buffer, size_t bufferSize, Layout& layout, S
     mh.openForRead();
 
     struct SPMInfo info;
-    mh.read(&info, sizeof(SPMInfo));
+    ASSERT(mh.read(&info, sizeof(SPMInfo)) == static_cast<long>(sizeof(SPMInfo)));
 
     ASSERT(info.size_ && info.rows_ && info.cols_);
     ASSERT(info.data_ > 0 && info.outer_ > 0 && info.inner_ > 0);
 
+    ASSERT(info.size_ <= bufferSize && info.rows_ < bufferSize);
+    ASSERT(static_cast<size_t>(info.data_) <= bufferSize);
+    ASSERT(static_cast<size_t>(info.outer_) <= bufferSize);
+    ASSERT(static_cast<size_t>(info.inner_) <= bufferSize);
+
     // check that shape is matching what we are loading
 
     shape.size_ = info.size_;
-- 
2.43.0


From 5f35d0f47e100f7bf519542e2458b088d7cdda9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:44 +0000
Subject: [PATCH 106/135] fix: the product of a matrix without entries is zero

---
 src/eckit/linalg/sparse/LinearAlgebraGeneric.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eckit/linalg/sparse/LinearAlgebraGeneric.cc b/src/eckit/linalg/sparse/LinearAlgebraGeneric.cc
index eb79e45..92fc0a0 100644
--- a/src/eckit/linalg/sparse/LinearAlgebraGeneric.cc
+++ b/src/eckit/linalg/sparse/LinearAlgebraGeneric.cc
@@ -41,6 +41,7 @@ void LinearAlgebraGeneric::spmv(const SparseMatrix& A, const Vector& x, Vector&
     ASSERT(x.rows() == Nj);
 
     if (A.empty()) {
+        y.fill(0.);
         return;
     }
 
@@ -75,6 +76,7 @@ void LinearAlgebraGeneric::spmm(const SparseMatrix& A, const Matrix& B, Matrix&
     ASSERT(C.cols() == Nk);
 
     if (A.empty()) {
+        C.fill(0.);
         return;
     }
 
-- 
2.43.0


From 495518615ea12a9bf74898ceddc2e56f2f846fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:44 +0000
Subject: [PATCH 107/135] fix: an empty tensor can be assigned

---
 src/eckit/linalg/Tensor.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/linalg/Tensor.h b/src/eckit/linalg/Tensor.h
index bc06046..3baa8e9 100644
--- a/src/eckit/linalg/Tensor.h
+++ b/src/eckit/linalg/Tensor.h
@@ -172,6 +172,11 @@ public:  // methods
     /// Consistently retains ownership to avoid surprises in ownership behaviour.
     /// However, if a resize() triggers reallocation of memory, ownership will be reset.
     Tensor& operator=(const Tensor& other) {
+        if (other.size() == 0) {
+            Tensor empty(other.layout_);
+            swap(empty);
+            return *this;
+        }
         layout_ = other.layout_;
         resize(other.shape());
         // shape & strides already correct
-- 
2.43.0


From 9b171e6fa3039c34ce59661782254ea9e04d4be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:48 +0000
Subject: [PATCH 108/135] fix: longitudes around the globe also go from East to
 West

---
 src/eckit/geo/range/Regular.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eckit/geo/range/Regular.cc b/src/eckit/geo/range/Regular.cc
index a7a2657..1b3b784 100644
--- a/src/eckit/geo/range/Regular.cc
+++ b/src/eckit/geo/range/Regular.cc
@@ -70,7 +70,9 @@ struct RegularLongitude final : Regular::Implementation {
         }
 
         if (Fraction::abs(b_ - a_ + inc_) >= PERIOD) {
-            b_        = a_ + adjust(PERIOD, inc_, a_ < b_) - inc_;
+            const auto period = adjust(PERIOD, Fraction::abs(inc_), true);
+
+            b_        = a_ + (inc_ > 0 ? period : -period) - inc_;
             size_     = N(inc_, a_, b_);
             periodic_ = true;
         }
-- 
2.43.0


From e61c478247c84ca408d82690d1dd98f4ac332e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:07 +0000
Subject: [PATCH 109/135] fix: the box of a grid which goes around the globe
 from East to West starts from its East

---
 src/eckit/geo/grid/regular/RegularLL.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eckit/geo/grid/regular/RegularLL.cc b/src/eckit/geo/grid/regular/RegularLL.cc
index 1bce51d..c79d3d0 100644
--- a/src/eckit/geo/grid/regular/RegularLL.cc
+++ b/src/eckit/geo/grid/regular/RegularLL.cc
@@ -174,7 +174,10 @@ Grid::BoundingBox* RegularLL::calculate_bbox() const {
     auto e = x_.max();
 
     if (x_.periodic()) {
-        if (const auto ref = reference(); types::is_approximately_equal(ref.lon(), w, PointLonLat::EPS)) {
+        if (x_.a() > x_.b()) {
+            w = e - PointLonLat::FULL_ANGLE;
+        }
+        else if (const auto ref = reference(); types::is_approximately_equal(ref.lon(), w, PointLonLat::EPS)) {
             w = 0;
         }
         e = w + PointLonLat::FULL_ANGLE;
-- 
2.43.0


From ebca6dbf683f6e974ade281fb5bedad746b48a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:27 +0000
Subject: [PATCH 110/135] fix: the area which describes a grid is the one read
 from it

---
 src/eckit/geo/grid/regular/RegularLL.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eckit/geo/grid/regular/RegularLL.cc b/src/eckit/geo/grid/regular/RegularLL.cc
index c79d3d0..fa687bc 100644
--- a/src/eckit/geo/grid/regular/RegularLL.cc
+++ b/src/eckit/geo/grid/regular/RegularLL.cc
@@ -105,7 +105,9 @@ void RegularLL::fill_spec(spec::Custom& custom) const {
     custom.set("grid", std::vector<double>{std::abs(dlon()), std::abs(dlat())});
 
     if (const auto& bbox = boundingBox(); bbox != BoundingBox::bounding_box_default()) {
-        auto [n, w, s, e] = bbox.deconstruct();
+        // as it is when read
+        auto [n, w, s, e] =
+            BoundingBox::make_from_area(bbox.north(), bbox.west(), bbox.south(), bbox.east())->deconstruct();
         custom.set("area", std::vector<double>{n, w, s, e});
     }
 
-- 
2.43.0


From 123eb651f18ce7a5a63d987326536fa7f19eaec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:43 +0000
Subject: [PATCH 111/135] fix: the box of a grid does not go to a pole which
 would be the next row of the grid

---
 src/eckit/geo/range/Regular.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/geo/range/Regular.cc b/src/eckit/geo/range/Regular.cc
index 1b3b784..80c799b 100644
--- a/src/eckit/geo/range/Regular.cc
+++ b/src/eckit/geo/range/Regular.cc
@@ -54,11 +54,11 @@ struct RegularLatitude final : Regular::Implementation {
     }
 
     bool includesNorthPole() const override {
-        return types::is_approximately_greater_or_equal<double>(max() + Fraction::abs(inc_), NORTH_POLE.lat());
+        return types::is_strictly_greater<double>(max() + Fraction::abs(inc_), NORTH_POLE.lat());
     }
 
     bool includesSouthPole() const override {
-        return types::is_approximately_lesser_or_equal<double>(min() - Fraction::abs(inc_), SOUTH_POLE.lat());
+        return types::is_strictly_greater<double>(SOUTH_POLE.lat(), min() - Fraction::abs(inc_));
     }
 };
 
-- 
2.43.0


From effc14e7f570ad78d8acb4a1464b42dd83daf3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 112/135] fix: the description of a grid with an area has its
 reference when it is not that of the area

---
 src/eckit/geo/grid/regular/RegularLL.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/eckit/geo/grid/regular/RegularLL.cc b/src/eckit/geo/grid/regular/RegularLL.cc
index fa687bc..1455703 100644
--- a/src/eckit/geo/grid/regular/RegularLL.cc
+++ b/src/eckit/geo/grid/regular/RegularLL.cc
@@ -104,14 +104,27 @@ void RegularLL::fill_spec(spec::Custom& custom) const {
 
     custom.set("grid", std::vector<double>{std::abs(dlon()), std::abs(dlat())});
 
+    auto ref                  = reference();
+    auto reference_is_default = true;
+
     if (const auto& bbox = boundingBox(); bbox != BoundingBox::bounding_box_default()) {
         // as it is when read
         auto [n, w, s, e] =
             BoundingBox::make_from_area(bbox.north(), bbox.west(), bbox.south(), bbox.east())->deconstruct();
         custom.set("area", std::vector<double>{n, w, s, e});
+
+        // ... and the reference with it
+        if (const auto inc = Fraction::abs(x_.increment()); inc != 0 && w != bbox.west()) {
+            auto shift = ((Fraction{ref.lon()} + Fraction{w - bbox.west()}) / inc).decimalPart() * inc;
+            ref        = {shift < 0 ? shift + inc : shift, ref.lat()};
+        }
+
+        // the reference of a grid with area is its (South, West) corner
+        auto multiple        = [](double x, const Fraction& inc) { return inc == 0 || (Fraction{x} / inc).integer(); };
+        reference_is_default = multiple(w, x_.increment()) && multiple(s, y_.increment());
     }
 
-    if (const auto ref{reference()}; !points_equal(ref, reference_default())) {
+    if (!reference_is_default || !points_equal(ref, reference_default())) {
         custom.set("reference", std::vector<double>{ref.lon(), ref.lat()});
     }
 }
-- 
2.43.0


From 646bffa004a00b08d97bf5416ae106b7e103e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:00 +0000
Subject: [PATCH 113/135] fix: regular grids which go from North to South or
 have a reference can be cropped

---
 src/eckit/geo/grid/regular/RegularLL.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/grid/regular/RegularLL.cc b/src/eckit/geo/grid/regular/RegularLL.cc
index 1455703..905679c 100644
--- a/src/eckit/geo/grid/regular/RegularLL.cc
+++ b/src/eckit/geo/grid/regular/RegularLL.cc
@@ -169,7 +169,7 @@ std::pair<std::vector<double>, std::vector<double>> RegularLL::to_latlons() cons
 
 Grid* RegularLL::make_grid_cropped(const Area& crop) const {
     if (auto cropped(boundingBox()); crop.intersects(cropped)) {
-        return new RegularLL({dlon(), dlat()}, cropped);
+        return new RegularLL({std::abs(dlon()), std::abs(dlat())}, cropped, reference(), scan());
     }
 
     throw UserError("RegularLL: cannot crop grid (empty intersection)", Here());
-- 
2.43.0


From 87730db8466d1588863538a1ad01e03a271258c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:00 +0000
Subject: [PATCH 114/135] fix: cropped Gaussian grids keep their order

---
 src/eckit/geo/grid/regular/RegularGaussian.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/geo/grid/regular/RegularGaussian.cc b/src/eckit/geo/grid/regular/RegularGaussian.cc
index c064355..ab26301 100644
--- a/src/eckit/geo/grid/regular/RegularGaussian.cc
+++ b/src/eckit/geo/grid/regular/RegularGaussian.cc
@@ -99,7 +99,7 @@ Grid::BoundingBox* RegularGaussian::calculate_bbox() const {
 
 Grid* RegularGaussian::make_grid_cropped(const Area& crop) const {
     if (auto cropped(boundingBox()); crop.intersects(cropped)) {
-        return new RegularGaussian(N_, cropped);
+        return new RegularGaussian(N_, cropped, scan());
     }
 
     throw UserError("RegularGaussian: cannot crop grid (empty intersection)", Here());
-- 
2.43.0


From 267bedfb87bc50536900b530db5feff9b7c04418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:00 +0000
Subject: [PATCH 115/135] fix: Gaussian grids also go from East to West

---
 src/eckit/geo/grid/regular/RegularGaussian.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/eckit/geo/grid/regular/RegularGaussian.cc b/src/eckit/geo/grid/regular/RegularGaussian.cc
index ab26301..848e44c 100644
--- a/src/eckit/geo/grid/regular/RegularGaussian.cc
+++ b/src/eckit/geo/grid/regular/RegularGaussian.cc
@@ -45,8 +45,8 @@ RegularGaussian::RegularGaussian(size_t N, BoundingBox bbox, order::Scan s) :
     Regular(s),
     N_(check_N(N)),
     x_(*range::RegularLongitude(
-            (s.is_scan_i_positive() ? 1. : -1.) * PointLonLat::FULL_ANGLE / static_cast<double>(4 * N), 0.,
-            PointLonLat::FULL_ANGLE)
+            (s.is_scan_i_positive() ? 1. : -1.) * PointLonLat::FULL_ANGLE / static_cast<double>(4 * N),
+            s.is_scan_i_positive() ? 0. : PointLonLat::FULL_ANGLE, s.is_scan_i_positive() ? PointLonLat::FULL_ANGLE : 0.)
             .make_cropped_range(s.is_scan_i_positive() ? bbox.west() : bbox.east(),
                                 s.is_scan_i_positive() ? bbox.east() : bbox.west())),
     y_(*range::GaussianLatitude(N, s.is_scan_j_positive())
@@ -90,10 +90,14 @@ Point RegularGaussian::last_point() const {
 
 
 Grid::BoundingBox* RegularGaussian::calculate_bbox() const {
+    // periodic longitudes start from West, or from East
+    const auto west =
+        x_.periodic() && x_.a() > x_.b() ? x_.max() - PointLonLat::FULL_ANGLE : x_.min();
+
     return new BoundingBox{y_.includesNorthPole() ? PointLonLat::RIGHT_ANGLE : y_.max(),   //
-                           x_.min(),                                                       //
+                           west,                                                           //
                            y_.includesSouthPole() ? -PointLonLat::RIGHT_ANGLE : y_.min(),  //
-                           x_.periodic() ? x_.min() + PointLonLat::FULL_ANGLE : x_.max()};
+                           x_.periodic() ? west + PointLonLat::FULL_ANGLE : x_.max()};
 }
 
 
-- 
2.43.0


From ab784919af79a58d41ecb86439e54028b6038d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:10 +0000
Subject: [PATCH 116/135] fix: a reduced Gaussian grid with its own row lengths
 is made again from its description

---
 src/eckit/geo/Grid.cc                         | 4 +++-
 src/eckit/geo/grid/reduced/ReducedGaussian.cc | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eckit/geo/Grid.cc b/src/eckit/geo/Grid.cc
index 34b87c5..34e4858 100644
--- a/src/eckit/geo/Grid.cc
+++ b/src/eckit/geo/Grid.cc
@@ -335,7 +335,9 @@ Grid::Spec* GridFactory::make_spec_(const Grid::Spec& spec) const {
         cfg->push_back(back.release());
     }
 
-    if (std::string grid; cfg->get("grid", grid) && GridSpecByName::instance().matches(grid)) {
+    // a given 'pl' is not looked up by name (which might be unknown)
+    if (std::string grid;
+        !cfg->has("pl") && cfg->get("grid", grid) && GridSpecByName::instance().matches(grid)) {
         cfg->push_back(GridSpecByName::instance().match(grid).spec(grid));
     }
 
diff --git a/src/eckit/geo/grid/reduced/ReducedGaussian.cc b/src/eckit/geo/grid/reduced/ReducedGaussian.cc
index 5c486d8..fb9f0ca 100644
--- a/src/eckit/geo/grid/reduced/ReducedGaussian.cc
+++ b/src/eckit/geo/grid/reduced/ReducedGaussian.cc
@@ -81,7 +81,7 @@ void ReducedGaussian::fill_spec(spec::Custom& custom) const {
     }
     else {
         custom.set("grid", "N" + std::to_string(N_));
-        if (!util::reduced_classical_pl_known(N_)) {
+        if (!util::reduced_classical_pl_known(N_) || pl_ != util::reduced_classical_pl(N_)) {
             custom.set("pl", pl_);
         }
     }
-- 
2.43.0


From e1e7f9be2862fe04bfc9b6447f82b9281b626ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:11 +0000
Subject: [PATCH 117/135] fix: reduced grids may have rows without points

---
 src/eckit/geo/grid/Reduced.cc     | 18 ++++++++++++++----
 src/eckit/geo/iterator/Reduced.cc |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/eckit/geo/grid/Reduced.cc b/src/eckit/geo/grid/Reduced.cc
index 5df63c7..43cd634 100644
--- a/src/eckit/geo/grid/Reduced.cc
+++ b/src/eckit/geo/grid/Reduced.cc
@@ -20,17 +20,27 @@ namespace eckit::geo::grid {
 
 Point Reduced::first_point() const {
     ASSERT(!empty());
-    return PointLonLat{longitudes(0).front(), latitudes().front()};
+
+    size_t j = 0;  // first row with points
+    while (nx(j) == 0) {
+        ++j;
+        ASSERT(j < ny());
+    }
+
+    return PointLonLat{longitudes(j).front(), latitudes().at(j)};
 }
 
 
 Point Reduced::last_point() const {
     ASSERT(!empty());
 
-    auto j = static_cast<int>(ny()) - 1;
-    ASSERT(0 <= j);
+    size_t j = ny() - 1;  // last row with points
+    while (nx(j) == 0) {
+        ASSERT(0 < j);
+        --j;
+    }
 
-    return PointLonLat{longitudes(j).back(), latitudes().back()};
+    return PointLonLat{longitudes(j).back(), latitudes().at(j)};
 }
 
 
diff --git a/src/eckit/geo/iterator/Reduced.cc b/src/eckit/geo/iterator/Reduced.cc
index 7b8cc19..9417889 100644
--- a/src/eckit/geo/iterator/Reduced.cc
+++ b/src/eckit/geo/iterator/Reduced.cc
@@ -62,7 +62,7 @@ bool Reduced::operator==(const Iterator& other) const {
 bool Reduced::operator++() {
     if (index_++; index_ < size_) {
         if (!(index_ < niacc_[j_ + 1])) {
-            longitudes_j_ = grid_.longitudes(++j_);
+            longitudes_j_ = grid_.longitudes(j_ = j(index_));
         }
 
         ASSERT(niacc_[j_] <= index_ && index_ < niacc_[j_ + 1]);
-- 
2.43.0


From 00e2fb751cb610013c0855ba0fc279dc0a0ea0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:11 +0000
Subject: [PATCH 118/135] fix: rows of reduced grids with one or no longitude
 in the area

---
 src/eckit/geo/range/Regular.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/eckit/geo/range/Regular.cc b/src/eckit/geo/range/Regular.cc
index 80c799b..fc1dda3 100644
--- a/src/eckit/geo/range/Regular.cc
+++ b/src/eckit/geo/range/Regular.cc
@@ -79,6 +79,19 @@ struct RegularLongitude final : Regular::Implementation {
     }
 
     Regular* make_cropped_range(double crop_a, double crop_b) const override {
+        // none or one value within the limits
+        if (const Fraction ca{crop_a}, cb{crop_b}; size_ > 1) {
+            const bool up  = inc_ > 0;
+            const auto a_0 = a_ + adjust(ca - a_, inc_, true);
+            const auto b_0 = a_ + adjust(cb - a_, inc_, false);
+            if (up ? b_0 < a_0 : a_0 < b_0) {
+                return range::RegularLongitude::make_empty_range(ca, cb);
+            }
+            if (a_0 == b_0 && (periodic() || (min() <= a_0 && a_0 <= max()))) {
+                return new range::RegularLongitude(inc_, a_0, a_0, a_0);
+            }
+        }
+
         if (periodic()) {
             return new range::RegularLongitude(inc_, crop_a, crop_b, a_);
         }
-- 
2.43.0


From e3c375e3bea737152dd1a2c24aaa1417e4f1dd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:00 +0000
Subject: [PATCH 119/135] fix: a box contains another box where it is, and in
 between its corners

---
 src/eckit/geo/area/BoundingBox.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/eckit/geo/area/BoundingBox.cc b/src/eckit/geo/area/BoundingBox.cc
index 09d4ad0..7653ced 100644
--- a/src/eckit/geo/area/BoundingBox.cc
+++ b/src/eckit/geo/area/BoundingBox.cc
@@ -500,17 +500,18 @@ const BoundingBox& BoundingBox::bounding_box_default() {
 
 bool BoundingBox::contains(const BoundingBox& other) const {
     if (other.empty()) {
-        return contains(PointLonLat{other.south(), other.west()});
+        return contains(PointLonLat{other.west(), other.south()});
     }
 
     // check for West/East range (if non-periodic), then other's corners
-    if (east() - west() < other.east() - other.west() ||
-        east() < PointLonLat::normalise_angle_to_minimum(other.east(), west())) {
+    if (!periodic() &&
+        types::is_strictly_greater(
+            PointLonLat::normalise_angle_to_minimum(other.west(), west()) + other.east() - other.west(), east())) {
         return false;
     }
 
-    return contains(PointLonLat{other.north(), other.west()}) && contains(PointLonLat{other.north(), other.east()}) &&
-           contains(PointLonLat{other.south(), other.west()}) && contains(PointLonLat{other.south(), other.east()});
+    return contains(PointLonLat{other.west(), other.north()}) && contains(PointLonLat{other.east(), other.north()}) &&
+           contains(PointLonLat{other.west(), other.south()}) && contains(PointLonLat{other.east(), other.south()});
 }
 
 
-- 
2.43.0


From e0a2c432946138f706fca9dfc3722918615fe251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:00 +0000
Subject: [PATCH 120/135] fix: a reduced lat/lon grid is made again from its
 description, and within any area

---
 src/eckit/geo/grid/reduced/ReducedLonLat.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/geo/grid/reduced/ReducedLonLat.cc b/src/eckit/geo/grid/reduced/ReducedLonLat.cc
index 8e60eef..2c11769 100644
--- a/src/eckit/geo/grid/reduced/ReducedLonLat.cc
+++ b/src/eckit/geo/grid/reduced/ReducedLonLat.cc
@@ -71,6 +71,10 @@ ReducedLonLat::ReducedLonLat(const pl_type& pl, const BoundingBox& bbox) : pl_(p
         ASSERT(max_pl >= 2);
 
         auto inc = PointLonLat::FULL_ANGLE / static_cast<double>(max_pl - 1);
+        if (bbox.east() - bbox.west() < inc) {
+            return false;
+        }
+
         return range::RegularLongitude(inc, bbox.west(), bbox.east(), bbox.west()).periodic();
     };
 
@@ -132,6 +136,7 @@ const std::vector<double>& ReducedLonLat::longitudes(size_t j) const {
 void ReducedLonLat::fill_spec(spec::Custom& custom) const {
     Reduced::fill_spec(custom);
 
+    custom.set("type", type());
     custom.set("pl", pl_);
 
     if (order() != order::Scan::order_default()) {
-- 
2.43.0


From 3b0057ff7a4929e6a822f9ee2be5b9320ee4e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:00 +0000
Subject: [PATCH 121/135] fix: iterators of grids go back from the end

---
 src/eckit/geo/grid/ORCA.cc         | 2 +-
 src/eckit/geo/grid/Unstructured.cc | 2 +-
 src/eckit/geo/iterator/Reduced.cc  | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eckit/geo/grid/ORCA.cc b/src/eckit/geo/grid/ORCA.cc
index ad0c41c..c5bddf8 100644
--- a/src/eckit/geo/grid/ORCA.cc
+++ b/src/eckit/geo/grid/ORCA.cc
@@ -73,7 +73,7 @@ Grid::iterator ORCA::cbegin() const {
 
 
 Grid::iterator ORCA::cend() const {
-    return iterator{new geo::iterator::Unstructured(*this)};
+    return iterator{new geo::iterator::Unstructured(*this, size(), record().longitude(), record().latitude())};
 }
 
 
diff --git a/src/eckit/geo/grid/Unstructured.cc b/src/eckit/geo/grid/Unstructured.cc
index 468ed0a..56bcadd 100644
--- a/src/eckit/geo/grid/Unstructured.cc
+++ b/src/eckit/geo/grid/Unstructured.cc
@@ -111,7 +111,7 @@ Grid::iterator Unstructured::cbegin() const {
 
 
 Grid::iterator Unstructured::cend() const {
-    return iterator{new geo::iterator::Unstructured(*this)};
+    return iterator{new geo::iterator::Unstructured(*this, size(), record().longitude(), record().latitude())};
 }
 
 
diff --git a/src/eckit/geo/iterator/Reduced.cc b/src/eckit/geo/iterator/Reduced.cc
index 9417889..60afb58 100644
--- a/src/eckit/geo/iterator/Reduced.cc
+++ b/src/eckit/geo/iterator/Reduced.cc
@@ -76,7 +76,8 @@ bool Reduced::operator++() {
 
 bool Reduced::operator+=(difference_type d) {
     if (auto di = static_cast<difference_type>(index_); 0 <= di + d && di + d < static_cast<difference_type>(size_)) {
-        if (index_ = static_cast<size_t>(di + d); !(niacc_[j_] <= index_ && index_ < niacc_[j_ + 1])) {
+        if (index_ = static_cast<size_t>(di + d);
+            longitudes_j_.empty() || !(niacc_[j_] <= index_ && index_ < niacc_[j_ + 1])) {
             longitudes_j_ = grid_.longitudes(j_ = j(index_));
         }
 
-- 
2.43.0


From d68efc61f2fda387884e756957626a8f4cf026a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:00 +0000
Subject: [PATCH 122/135] fix: nested HEALPix grids have their first and last
 points, latitudes, and iterators which go back from the end

---
 src/eckit/geo/grid/reduced/HEALPix.cc | 25 +++++++++++++++----------
 src/eckit/geo/grid/reduced/HEALPix.h  |  8 +++++++-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/eckit/geo/grid/reduced/HEALPix.cc b/src/eckit/geo/grid/reduced/HEALPix.cc
index ce98518..0d29bb6 100644
--- a/src/eckit/geo/grid/reduced/HEALPix.cc
+++ b/src/eckit/geo/grid/reduced/HEALPix.cc
@@ -78,6 +78,21 @@ Grid::iterator HEALPix::cbegin() const {
         return iterator{new geo::iterator::Reduced(*this, 0)};
     }
 
+    cache_nested();
+    return iterator{new geo::iterator::Unstructured(*this, 0, nested_longitudes_, nested_latitudes_)};
+}
+
+
+Grid::iterator HEALPix::cend() const {
+    if (healpix_.order() == order::HEALPix::RING) {
+        return iterator{new geo::iterator::Reduced(*this, size())};
+    }
+    cache_nested();
+    return iterator{new geo::iterator::Unstructured(*this, size(), nested_longitudes_, nested_latitudes_)};
+}
+
+
+void HEALPix::cache_nested() const {
     // order=nested: cache full latitudes/longitudes for the unstructured iterator
     if (nested_latitudes_.empty()) {
         const auto ren = order::HEALPix{}.reorder(order(), Nside_);
@@ -94,16 +109,6 @@ Grid::iterator HEALPix::cbegin() const {
             }
         }
     }
-
-    return iterator{new geo::iterator::Unstructured(*this, 0, nested_longitudes_, nested_latitudes_)};
-}
-
-
-Grid::iterator HEALPix::cend() const {
-    if (healpix_.order() == order::HEALPix::RING) {
-        return iterator{new geo::iterator::Reduced(*this, size())};
-    }
-    return iterator{new geo::iterator::Unstructured(*this)};
 }
 
 
diff --git a/src/eckit/geo/grid/reduced/HEALPix.h b/src/eckit/geo/grid/reduced/HEALPix.h
index 767fd3b..cef74bf 100644
--- a/src/eckit/geo/grid/reduced/HEALPix.h
+++ b/src/eckit/geo/grid/reduced/HEALPix.h
@@ -43,6 +43,8 @@ public:
     size_t nx(size_t j) const override;
     size_t ny() const override;
 
+    [[nodiscard]] Point first_point() const override { return Grid::first_point(); }
+    [[nodiscard]] Point last_point() const override { return Grid::last_point(); }
     [[nodiscard]] std::vector<Point> to_points() const override;
 
     const order_type& order() const override { return healpix_.order(); }
@@ -54,7 +56,7 @@ public:
 
     [[nodiscard]] const std::vector<double>& latitudes() const override;
     [[nodiscard]] const std::vector<double>& longitudes(size_t j) const override;
-    [[nodiscard]] std::vector<double> distinct_latitudes() const override { return healpix_latitudes_; }
+    [[nodiscard]] std::vector<double> distinct_latitudes() const override { return latitudes(); }
 
     // -- Class members
 
@@ -76,6 +78,10 @@ private:
     mutable std::vector<double> nested_latitudes_;
     mutable std::vector<double> nested_longitudes_;
 
+    // -- Methods
+
+    void cache_nested() const;
+
     // -- Overridden methods
 
     void fill_spec(spec::Custom&) const override;
-- 
2.43.0


From edf0330b8110d3b61159421072bef61ce7125b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:57 +0000
Subject: [PATCH 123/135] fix: values shared by grids are in the cache when
 they are complete, and are not replaced

---
 src/eckit/geo/cache/MemoryCache.h                 | 12 +++++++++++-
 src/eckit/geo/grid/reduced/HEALPix.cc             |  2 +-
 src/eckit/geo/util/gaussian_latitudes.cc          |  2 +-
 src/eckit/geo/util/gaussian_quadrature_weights.cc |  2 +-
 src/eckit/geo/util/linspace.cc                    |  6 +++---
 src/eckit/geo/util/reduced_classical_pl.cc        |  2 +-
 src/eckit/geo/util/reduced_octahedral_pl.cc       |  2 +-
 7 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/eckit/geo/cache/MemoryCache.h b/src/eckit/geo/cache/MemoryCache.h
index 7972c43..7777bb3 100644
--- a/src/eckit/geo/cache/MemoryCache.h
+++ b/src/eckit/geo/cache/MemoryCache.h
@@ -14,6 +14,7 @@
 
 #include <map>
 #include <numeric>
+#include <utility>
 
 #include "eckit/geo/Exceptions.h"
 #include "eckit/geo/util/mutex.h"
@@ -84,6 +85,12 @@ public:
         return container_[key];
     }
 
+    /// Insert a complete value, unless it is already there (which might be in use)
+    const value_type& insert(const key_type& key, value_type&& value) {
+        util::lock_guard<util::recursive_mutex> lock(*mutex_);
+        return container_.emplace(key, std::move(value)).first->second;
+    }
+
     bytes_size_t footprint() const final {
         util::lock_guard<util::recursive_mutex> lock(*mutex_);
         return std::accumulate(container_.begin(), container_.end(), static_cast<bytes_size_t>(0),
@@ -92,7 +99,10 @@ public:
                                });
     }
 
-    void purge() final { container_.clear(); }
+    void purge() final {
+        util::lock_guard<util::recursive_mutex> lock(*mutex_);
+        container_.clear();
+    }
 
 private:
 
diff --git a/src/eckit/geo/grid/reduced/HEALPix.cc b/src/eckit/geo/grid/reduced/HEALPix.cc
index 0d29bb6..1bcca47 100644
--- a/src/eckit/geo/grid/reduced/HEALPix.cc
+++ b/src/eckit/geo/grid/reduced/HEALPix.cc
@@ -57,7 +57,7 @@ const std::vector<double>& healpix_longitudes(size_t Nside, size_t j) {
     std::generate_n(lons.begin(), Ni,
                     [start, step, n = 0ULL]() mutable { return start + static_cast<double>(n++) * step; });
 
-    return (cache[key] = std::move(lons));
+    return cache.insert(key, std::move(lons));
 }
 
 
diff --git a/src/eckit/geo/util/gaussian_latitudes.cc b/src/eckit/geo/util/gaussian_latitudes.cc
index 72b3f7c..e75df47 100644
--- a/src/eckit/geo/util/gaussian_latitudes.cc
+++ b/src/eckit/geo/util/gaussian_latitudes.cc
@@ -110,7 +110,7 @@ const std::vector<double>& gaussian_latitudes(size_t N, bool increasing) {
     }
 
 
-    return (cache[key] = std::move(lats));
+    return cache.insert(key, std::move(lats));
 }
 
 
diff --git a/src/eckit/geo/util/gaussian_quadrature_weights.cc b/src/eckit/geo/util/gaussian_quadrature_weights.cc
index 1115b26..6c61e8b 100644
--- a/src/eckit/geo/util/gaussian_quadrature_weights.cc
+++ b/src/eckit/geo/util/gaussian_quadrature_weights.cc
@@ -110,7 +110,7 @@ const std::vector<double>& gaussian_quadrature_weights(size_t N) {
     }
 
 
-    return (cache[key] = std::move(weights));
+    return cache.insert(key, std::move(weights));
 }
 
 
diff --git a/src/eckit/geo/util/linspace.cc b/src/eckit/geo/util/linspace.cc
index 16a1c37..de95168 100644
--- a/src/eckit/geo/util/linspace.cc
+++ b/src/eckit/geo/util/linspace.cc
@@ -30,11 +30,11 @@ const std::vector<double>& linspace(double start, double stop, size_t num) {
     }
 
     if (num == 0) {
-        return (cache[key] = {});
+        return cache.insert(key, {});
     }
 
     if (num == 1 || types::is_approximately_equal(start, stop)) {
-        return (cache[key] = {start});
+        return cache.insert(key, {start});
     }
 
     const auto step = (stop - start) / static_cast<double>(num - 1);
@@ -43,7 +43,7 @@ const std::vector<double>& linspace(double start, double stop, size_t num) {
     std::generate_n(l.begin(), num,
                     [start, step, n = 0ULL]() mutable { return start + static_cast<double>(n++) * step; });
 
-    return (cache[key] = std::move(l));
+    return cache.insert(key, std::move(l));
 }
 
 
diff --git a/src/eckit/geo/util/reduced_classical_pl.cc b/src/eckit/geo/util/reduced_classical_pl.cc
index e0d78a1..c5d9eed 100644
--- a/src/eckit/geo/util/reduced_classical_pl.cc
+++ b/src/eckit/geo/util/reduced_classical_pl.cc
@@ -1359,7 +1359,7 @@ const pl_type& reduced_classical_pl(size_t N) {
         pl[i] = pl[j] = *p++;
     }
 
-    return (cache[N] = std::move(pl));
+    return cache.insert(N, std::move(pl));
 }
 
 
diff --git a/src/eckit/geo/util/reduced_octahedral_pl.cc b/src/eckit/geo/util/reduced_octahedral_pl.cc
index 3caa240..6781ec1 100644
--- a/src/eckit/geo/util/reduced_octahedral_pl.cc
+++ b/src/eckit/geo/util/reduced_octahedral_pl.cc
@@ -31,7 +31,7 @@ const pl_type& reduced_octahedral_pl(size_t N) {
         p += 4;
     }
 
-    return (cache[N] = std::move(pl));
+    return cache.insert(N, std::move(pl));
 }
 
 
-- 
2.43.0


From 9b48e621df6a8e6f23c0e15dee8d953d2c6e2018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:17 +0000
Subject: [PATCH 124/135] fix: a record which fails to load is not cached, and
 one in use is not replaced

---
 src/eckit/geo/cache/RecordCache.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eckit/geo/cache/RecordCache.h b/src/eckit/geo/cache/RecordCache.h
index 6fc44e1..3a7841f 100644
--- a/src/eckit/geo/cache/RecordCache.h
+++ b/src/eckit/geo/cache/RecordCache.h
@@ -64,15 +64,15 @@ public:
             return cache_[key];
         }
 
-        auto& record = cache_[key];
+        value_type record;
         loader_.load(key, record);
 
-        return record;
+        return cache_.insert(key, std::move(record));
     }
 
     const value_type& set(const key_type& key, value_type&& record) {
         util::lock_guard<util::recursive_mutex> lock(mutex_);
-        return cache_[key] = std::move(record);
+        return cache_.insert(key, std::move(record));  // the same, if it is already there (which might be in use)
     }
 
     void purge() {
-- 
2.43.0


From 73d4f15fc24f1a5346d69e825acfcded87db40ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:38 +0000
Subject: [PATCH 125/135] fix: matching names in a directory does not find the
 directory itself and its parent

---
 src/eckit/filesystem/LocalPathName.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 1907e57..aebeb53 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -647,6 +647,10 @@ void LocalPathName::match(const LocalPathName& root, std::vector<LocalPathName>&
 
         //        Log::info() << "e->d_name = " << e->d_name << std::endl;
 
+        if (::strcmp(e->d_name, ".") == 0 || ::strcmp(e->d_name, "..") == 0) {
+            continue;  // the directory itself and its parent are not found in it
+        }
+
         if (re.match(e->d_name)) {
             //            Log::info() << "match !!! ---> " << e->d_name << std::endl;
             LocalPathName path = std::string(dir) + std::string("/") + std::string(e->d_name);
-- 
2.43.0


From 5514b2d17153094423251527b00171ccc64199ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:29 +0000
Subject: [PATCH 126/135] fix: shared memory array interrupted before its
 header was written is initialised by the next process

---
 src/eckit/container/SharedMemArray.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eckit/container/SharedMemArray.cc b/src/eckit/container/SharedMemArray.cc
index 3f46d1f..2592896 100644
--- a/src/eckit/container/SharedMemArray.cc
+++ b/src/eckit/container/SharedMemArray.cc
@@ -60,7 +60,9 @@ SharedMemArray<T>::SharedMemArray(const PathName& path, const std::string& shmNa
         throw FailedSystemCall("mmap", Here());
     }
 
-    if (zero) {
+    // n.b. version_ is 0 if it was interrupted before the header was there
+
+    if (zero || ((PaddedHeader*)map_)->version_ == 0) {
         ::memset(map_, 0, sizeof(PaddedHeader) + size_ * sizeof(T));
         new (map_) PaddedHeader();
     }
-- 
2.43.0


From 1d1ab38d495439540966997dbd42981df72c7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:35 +0000
Subject: [PATCH 127/135] fix: lines of configuration files and names of
 resources of any length are read, and not confused

---
 src/eckit/config/ResourceMgr.cc | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/eckit/config/ResourceMgr.cc b/src/eckit/config/ResourceMgr.cc
index 6141d84..ea9b017 100644
--- a/src/eckit/config/ResourceMgr.cc
+++ b/src/eckit/config/ResourceMgr.cc
@@ -10,6 +10,7 @@
 
 #include <cstring>  // for strlen
 #include <fstream>
+#include <tuple>
 
 #include "eckit/config/ResourceMgr.h"
 
@@ -120,11 +121,11 @@ void ResourceMgr::readConfigFile(const LocalPathName& file) {
     int cnt = 0;
 
     std::ifstream in(file.localPath());
-    char line[1024];
+    std::string line;
 
-    while (in.getline(line, sizeof(line))) {
+    while (std::getline(in, line)) {
         cnt++;
-        if (!parse(line)) {
+        if (!parse(line.c_str())) {
             Log::warning() << "Invalid line, file " << file << " line " << cnt << " = " << line << std::endl;
         }
     }
@@ -194,14 +195,7 @@ ResourceQualifier::ResourceQualifier(const ResourceQualifier& other) {
 }
 
 int ResourceQualifier::operator<(const ResourceQualifier& other) const {
-    // to be rewritten
-    char buf1[1024];
-    char buf2[1024];
-
-    snprintf(buf1, sizeof(buf1), "%s.%s.%s", owner_.c_str(), kind_.c_str(), name_.c_str());
-    snprintf(buf2, sizeof(buf2), "%s.%s.%s", other.owner_.c_str(), other.kind_.c_str(), other.name_.c_str());
-
-    return strcmp(buf1, buf2) < 0;
+    return std::tie(owner_, kind_, name_) < std::tie(other.owner_, other.kind_, other.name_);
 }
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From d3c60693272f3ba13205b19eb4a45629845dc857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:51 +0000
Subject: [PATCH 128/135] fix: the beginning of a log line longer than the
 buffer is kept

---
 src/eckit/log/LineBasedTarget.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/eckit/log/LineBasedTarget.cc b/src/eckit/log/LineBasedTarget.cc
index 51735d5..4edd296 100644
--- a/src/eckit/log/LineBasedTarget.cc
+++ b/src/eckit/log/LineBasedTarget.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cstring>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/maths/Functions.h"
 
@@ -27,10 +29,14 @@ LineBasedTarget::~LineBasedTarget() {
 
 void LineBasedTarget::reserve(size_t size) {
     if (size_ < size) {
+        size_        = round(size, 1024 * 1024);
+        char* buffer = new char[size_];
+        ASSERT(buffer);
+
+        ::memcpy(buffer, buffer_, position_);  // the beginning of the line
+
         delete[] buffer_;
-        size_   = round(size, 1024 * 1024);
-        buffer_ = new char[size_];
-        ASSERT(buffer_);
+        buffer_ = buffer;
     }
 }
 
-- 
2.43.0


From 25f00068e175fdf6510a545115dfcd1b930c59a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:51 +0000
Subject: [PATCH 129/135] fix: log file is closed before the buffer it uses is
 released

---
 src/eckit/log/FileTarget.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/log/FileTarget.h b/src/eckit/log/FileTarget.h
index 0d0d98f..f3b03b6 100644
--- a/src/eckit/log/FileTarget.h
+++ b/src/eckit/log/FileTarget.h
@@ -38,9 +38,9 @@ private:
 
 private:
 
-    std::ofstream out_;
-    Buffer buffer_;  //< configurable buffer for ofstream
+    Buffer buffer_;  //< configurable buffer for ofstream, which uses it until it is destroyed
     PathName path_;
+    std::ofstream out_;
 };
 
 //----------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 7cc03f94b2739c1989d5b400d3a06547e4bcae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:51 +0000
Subject: [PATCH 130/135] fix: messages to the user are sent once, line by line

---
 src/eckit/log/UserChannel.cc | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/eckit/log/UserChannel.cc b/src/eckit/log/UserChannel.cc
index b17c55a..74f94f6 100644
--- a/src/eckit/log/UserChannel.cc
+++ b/src/eckit/log/UserChannel.cc
@@ -48,30 +48,38 @@ private:
     UserMsg* user_;             ///< interface to user messeges
 
     bool dumpBuffer() {
-        std::replace(pbase(), epptr(), '\n', '\0');
+        // Each line is a message
 
+        const char* start = pbase();
+        const char* end   = pptr();
+
+        while (start < end) {
+            const char* eol = std::find(start, end, '\n');
+            message(std::string(start, eol));
+            start = (eol == end) ? end : eol + 1;
+        }
+
+        setp(pbase(), epptr());
+        return true;
+    }
+
+    void message(const std::string& msg) {
+        if (!user_) {
+            return;
+        }
         switch (msgType_) {
             case UserChannel::NONE:
                 break;
             case UserChannel::INFO:
-                if (user_) {
-                    user_->infoMsg(pbase());
-                }
+                user_->infoMsg(msg);
                 break;
             case UserChannel::WARN:
-                if (user_) {
-                    user_->warningMsg(pbase());
-                }
+                user_->warningMsg(msg);
                 break;
             case UserChannel::ERROR:
-                if (user_) {
-                    user_->errorMsg(pbase());
-                }
+                user_->errorMsg(msg);
                 break;
         }
-
-        setp(pbase(), epptr());
-        return true;
     }
 
 protected:
-- 
2.43.0


From 526ee8f5fcf2be43325f5ac3a2f1cd2d98170ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:28 +0000
Subject: [PATCH 131/135] fix: socket taking over another connection closes its
 own, and keeps it when assigned to itself

---
 src/eckit/net/TCPSocket.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/net/TCPSocket.cc b/src/eckit/net/TCPSocket.cc
index f58ce7d..d35104e 100644
--- a/src/eckit/net/TCPSocket.cc
+++ b/src/eckit/net/TCPSocket.cc
@@ -74,6 +74,12 @@ TCPSocket::~TCPSocket() {
 
 // This contructor performs a change of ownership of the socket
 TCPSocket& TCPSocket::operator=(net::TCPSocket& other) {
+    if (this == &other) {
+        return *this;
+    }
+
+    close();  // The connection it had so far, if any
+
     socket_ = other.socket_;
 
     localAddr_  = other.localAddr_;
-- 
2.43.0


From a18ff0df9fa6b9d205f44ab34ce1205480e7c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:55 +0000
Subject: [PATCH 132/135] fix: seek beyond the end of a connection fails
 instead of waiting for ever

---
 src/eckit/io/TCPSocketHandle.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/TCPSocketHandle.cc b/src/eckit/io/TCPSocketHandle.cc
index 77cc75f..d05c1fb 100644
--- a/src/eckit/io/TCPSocketHandle.cc
+++ b/src/eckit/io/TCPSocketHandle.cc
@@ -10,6 +10,8 @@
 
 #include "eckit/io/TCPSocketHandle.h"
 
+#include "eckit/exception/Exceptions.h"
+
 
 namespace eckit {
 
@@ -70,7 +72,9 @@ Offset InstantTCPSocketHandle::seek(const Offset& o) {
 
     while (position_ < o) {
         char c[10240];
-        read(c, std::min(sizeof(c), size_t(o - position_)));
+        if (read(c, std::min(sizeof(c), size_t(o - position_))) <= 0) {
+            throw ReadError("InstantTCPSocketHandle::seek: end of the connection before the position", Here());
+        }
     }
 
     return o;
-- 
2.43.0


From a8a12ae04d358c1efdb4591692a0c0e64707abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:55 +0000
Subject: [PATCH 133/135] fix: TCPSocketHandle uses the connection it owns

---
 src/eckit/io/TCPSocketHandle.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/TCPSocketHandle.cc b/src/eckit/io/TCPSocketHandle.cc
index d05c1fb..6f4339f 100644
--- a/src/eckit/io/TCPSocketHandle.cc
+++ b/src/eckit/io/TCPSocketHandle.cc
@@ -83,8 +83,8 @@ Offset InstantTCPSocketHandle::seek(const Offset& o) {
 //----------------------------------------------------------------------------------------------------------------------
 
 TCPSocketHandle::TCPSocketHandle(net::TCPSocket& socket) :
-    InstantTCPSocketHandle(socket),
-    socket_(socket)  // Will take onwership
+    InstantTCPSocketHandle(socket_),  // only refers to it
+    socket_(socket)                   // Will take onwership
 {}
 
 
-- 
2.43.0


From 7d51a54b8f97ac7fe532437bc107ccadfdbea14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:00 +0000
Subject: [PATCH 134/135] fix: Once gives its mutex back when the object cannot
 be made

---
 src/eckit/thread/Once.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/eckit/thread/Once.h b/src/eckit/thread/Once.h
index cb9fb39..4521e02 100644
--- a/src/eckit/thread/Once.h
+++ b/src/eckit/thread/Once.h
@@ -74,8 +74,14 @@ Once<T>::operator T&() {
 
     ::pthread_mutex_lock(&mutex_);
 
-    if (!value_) {
-        value_ = new T();
+    try {
+        if (!value_) {
+            value_ = new T();
+        }
+    }
+    catch (...) {
+        ::pthread_mutex_unlock(&mutex_);
+        throw;
     }
 
     ::pthread_mutex_unlock(&mutex_);
-- 
2.43.0


From 49be0ce874cfa8aa17089bd5e7324a193d1eb5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:42 +0000
Subject: [PATCH 135/135] fix: a Dispatcher's idle threads do not miss being
 woken

awake() was lost on a thread which had found nothing to do and was not
yet waiting, so that requests stayed in the queue; running_ and next_ are
also used under their lock when the number of threads changes.
---
 src/eckit/runtime/Dispatcher.h | 44 ++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/eckit/runtime/Dispatcher.h b/src/eckit/runtime/Dispatcher.h
index feaacf4..e46d07e 100644
--- a/src/eckit/runtime/Dispatcher.h
+++ b/src/eckit/runtime/Dispatcher.h
@@ -100,6 +100,12 @@ public:
     // Sleep for a given number of seconds and yield
     void sleep(int);
 
+    // Sleep, unless threads were signalled since awoken() gave that value
+    void sleepSince(size_t);
+
+    // Number of times sleeping threads were signalled
+    size_t awoken() const;
+
     // Signal all sleeping threads
     void awake();
 
@@ -135,7 +141,9 @@ protected:
     // Mutex protecting queue_
     mutable MutexCond ready_;
     // Mutex for thread sleep/wake handling
-    MutexCond wait_;
+    mutable MutexCond wait_;
+    // Number of times sleeping threads were signalled
+    size_t awoken_ = 0;
     // Dispatcher name
     std::string name_;
     // Do we dynamically grow the number of threads?
@@ -283,6 +291,8 @@ void DispatchTask<Traits>::run() {
 
     while (!stopped()) {
 
+        const size_t awoken = owner_.awoken();
+
         bool stop = owner_.next(handler, pick_, mutex_);
 
         if (stop)  // The thread must stop
@@ -299,7 +309,7 @@ void DispatchTask<Traits>::run() {
             }
             else {
                 handler.idle();
-                owner_.sleep();  // Wait for something else to come...
+                owner_.sleepSince(awoken);  // Wait for something else to come...
             }
         }
         catch (std::exception& e) {
@@ -388,8 +398,12 @@ void Dispatcher<Traits>::push(Request* r) {
     }
 
     if (grow_) {
-        int cnt = running();
-        if (cnt == count_) {
+        bool busy;
+        {
+            AutoLock<Mutex> lock(lock_);
+            busy = running_ == count_;
+        }
+        if (busy) {
             changeThreadCount(1);
         }
     }
@@ -422,10 +436,25 @@ void Dispatcher<Traits>::sleep(int n) {
     wait_.wait(n);
 }
 
+template <class Traits>
+void Dispatcher<Traits>::sleepSince(size_t awoken) {
+    AutoLock<MutexCond> lock(wait_);
+    while (awoken_ == awoken) {
+        wait_.wait();
+    }
+}
+
+template <class Traits>
+size_t Dispatcher<Traits>::awoken() const {
+    AutoLock<MutexCond> lock(wait_);
+    return awoken_;
+}
+
 template <class Traits>
 void Dispatcher<Traits>::awake() {
     Log::debug() << "Awake ..." << std::endl;
     AutoLock<MutexCond> lock(wait_);
+    awoken_++;
     wait_.broadcast();
 }
 
@@ -516,7 +545,12 @@ void Dispatcher<Traits>::changeThreadCount(int delta) {
     // Increase number of threads by starting some more
     if (delta > 0) {
         for (int i = 0; i < delta; i++) {
-            ThreadControler c(new DT(*this, next_++));
+            long id;
+            {
+                AutoLock<Mutex> lock(lock_);
+                id = next_++;
+            }
+            ThreadControler c(new DT(*this, id));
             c.start();
         }
     }
-- 
2.43.0

