From 3bcda2ad374a6e4876d7ec93c3540fdd4d2a6459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 01/57] fix: IByteStream bounds check must not wrap around for
 huge sizes

---
 include/maf/utils/serialization/IByteStream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maf/utils/serialization/IByteStream.h b/include/maf/utils/serialization/IByteStream.h
index 23614f2..49fc37c 100644
--- a/include/maf/utils/serialization/IByteStream.h
+++ b/include/maf/utils/serialization/IByteStream.h
@@ -31,7 +31,8 @@ class BasicIByteStream {
 
   void read(char *buf, SizeType size) noexcept {
     if (good()) {
-      if (readingPos_ + size > buffer_.size()) {
+      if (readingPos_ > buffer_.size() ||
+          size > buffer_.size() - readingPos_) {
         (state_ &= ~Good) |= Failed;
         return;
       }
-- 
2.43.0


From 1a8a0bf660461622f880bd7a171242e53a43077d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 02/57] fix: deserialization must report failure of any nested
 element

---
 include/maf/utils/serialization/Serializer.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 340a876..6bb6105 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -212,6 +212,9 @@ struct Serializer {
       uint8_t isNotNull = 0;
 
       is.read(internal::to_cstr(&isNotNull), 1);
+      if (is.fail()) {
+        return false;
+      }
       if (isNotNull) {
         p = new NormalTypeOfPointerType{};
         success = maf::srz::deserialize(is, *p);
@@ -275,7 +278,7 @@ struct Serializer {
         internal::ContainerReserver<Container>::reserve(c, size);
         for (SizeType i = 0; i < size; ++i) {
           DSBElemType elem;
-          if (success |= maf::srz::deserialize(is, elem); success) {
+          if (success = maf::srz::deserialize(is, elem); success) {
             if constexpr (nstl::is_back_insertible_v<Container>) {
               c.push_back(std::move(elem));
             } else {
@@ -312,11 +315,8 @@ struct Serializer<OStream, IStream, std::pair<First, Second>, void> {
   }
 
   bool deserialize(IStream &is, NCDType &value) {
-    bool success = false;
-    if (success |= maf::srz::deserialize(is, value.first); success) {
-      success |= maf::srz::deserialize(is, value.second);
-    }
-    return success;
+    return maf::srz::deserialize(is, value.first) &&
+           maf::srz::deserialize(is, value.second);
   }
 };
 
@@ -339,9 +339,9 @@ struct Serializer<OStream, IStream, Tuple,
   }
 
   bool deserialize(IStream &is, SrType &tp) {
-    bool success = false;
+    bool success = true;
     nstl::tuple_for_each(tp, [&is, &success](auto &elem) {
-      success |= maf::srz::deserialize(is, elem);
+      success = success && maf::srz::deserialize(is, elem);
     });
     return success;
   }
-- 
2.43.0


From e58e9562cbd68046735b56116c18ecfa41ecf2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 03/57] fix: deserializing a string or container must replace
 its previous content

---
 include/maf/utils/serialization/Serializer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 6bb6105..12ee283 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -274,6 +274,7 @@ struct Serializer {
       auto success = false;
       SizeType size = 0;
 
+      c.clear();
       if (success |= maf::srz::deserialize(is, size); success && size > 0) {
         internal::ContainerReserver<Container>::reserve(c, size);
         for (SizeType i = 0; i < size; ++i) {
@@ -370,6 +371,7 @@ struct Serializer<OStream, IStream, std::basic_string<CharT, Trait, Allocator>,
 
   bool deserialize(IStream &is, SrType &value) {
     SizeType size = 0;
+    value.clear();
     if (maf::srz::deserialize(is, size)) {
       if (size > 0) {
         value.resize(size);
-- 
2.43.0


From bf5d7f93b0bd023cf204c555417d6fe2f02e95e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 04/57] fix: a corrupted length must not claim memory before
 its bytes are known to exist

---
 include/maf/utils/serialization/IByteStream.h | 22 +++++++++------
 include/maf/utils/serialization/Serializer.h  | 28 +++++++++++++++++--
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/include/maf/utils/serialization/IByteStream.h b/include/maf/utils/serialization/IByteStream.h
index 49fc37c..7ed9b19 100644
--- a/include/maf/utils/serialization/IByteStream.h
+++ b/include/maf/utils/serialization/IByteStream.h
@@ -30,22 +30,28 @@ class BasicIByteStream {
   }
 
   void read(char *buf, SizeType size) noexcept {
-    if (good()) {
-      if (readingPos_ > buffer_.size() ||
-          size > buffer_.size() - readingPos_) {
-        (state_ &= ~Good) |= Failed;
-        return;
-      }
+    if (ensureReadable(size)) {
       std::memcpy(buf, buffer_.data() + readingPos_, size);
       readingPos_ += size;
       if (readingPos_ == buffer_.size()) {
         state_ |= Eof;
       }
-    } else {
-      (state_ &= ~Good) |= Failed;
     }
   }
 
+  // The stream becomes failed when it cannot provide `size` more bytes
+  bool ensureReadable(SizeType size) noexcept {
+    if (good() && readingPos_ <= buffer_.size() && size <= remaining()) {
+      return true;
+    }
+    (state_ &= ~Good) |= Failed;
+    return false;
+  }
+
+  SizeType remaining() const noexcept {
+    return readingPos_ < buffer_.size() ? buffer_.size() - readingPos_ : 0;
+  }
+
   bool eof() const noexcept { return state_ & Eof; }
   bool good() const noexcept { return state_ & Good; }
   bool fail() const noexcept { return state_ & Failed; }
diff --git a/include/maf/utils/serialization/Serializer.h b/include/maf/utils/serialization/Serializer.h
index 12ee283..3b64696 100644
--- a/include/maf/utils/serialization/Serializer.h
+++ b/include/maf/utils/serialization/Serializer.h
@@ -3,6 +3,7 @@
 #include <maf/utils/cppextension/TupleManip.h>
 #include <maf/utils/cppextension/TypeTraits.h>
 
+#include <algorithm>
 #include <string>
 
 #include "Tuplizable.h"
@@ -76,6 +77,26 @@ const char *to_cstr(const T *value) {
   return reinterpret_cast<const char *>(value);
 }
 
+/// Streams knowing how much they hold keep a corrupted length from claiming
+/// memory for data that is not there
+template <class IStream, typename = void>
+struct StreamLimit {
+  static size_t atMost(const IStream &, size_t size) { return size; }
+  static bool ensureReadable(IStream &, size_t) { return true; }
+};
+
+template <class IStream>
+struct StreamLimit<IStream,
+                   std::void_t<decltype(std::declval<IStream &>().ensureReadable(
+                       std::declval<IStream &>().remaining()))>> {
+  static size_t atMost(const IStream &is, size_t size) {
+    return std::min<size_t>(size, is.remaining());
+  }
+  static bool ensureReadable(IStream &is, size_t size) {
+    return is.ensureReadable(size);
+  }
+};
+
 template <class StreamType, typename = void>
 struct StreamHelper {
   static void prepareNextWrite(StreamType &, SizeType) {}
@@ -276,7 +297,9 @@ struct Serializer {
 
       c.clear();
       if (success |= maf::srz::deserialize(is, size); success && size > 0) {
-        internal::ContainerReserver<Container>::reserve(c, size);
+        internal::ContainerReserver<Container>::reserve(
+            c, static_cast<SizeType>(
+                   internal::StreamLimit<IStream>::atMost(is, size)));
         for (SizeType i = 0; i < size; ++i) {
           DSBElemType elem;
           if (success = maf::srz::deserialize(is, elem); success) {
@@ -373,7 +396,8 @@ struct Serializer<OStream, IStream, std::basic_string<CharT, Trait, Allocator>,
     SizeType size = 0;
     value.clear();
     if (maf::srz::deserialize(is, size)) {
-      if (size > 0) {
+      if (size > 0 && internal::StreamLimit<IStream>::ensureReadable(
+                          is, size * sizeof(CharT))) {
         value.resize(size);
         is.read(internal::to_cstr(&value[0]), size * sizeof(CharT));
       }
-- 
2.43.0


From fff8b65f534214e4d429893981da52e725db4063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 05/57] fix: closing a queue must not miss a waiter or let it
 pop from an empty queue

---
 include/maf/threading/ThreadSafeQueue.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index 7e1d6ad..eeda289 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -22,15 +22,15 @@ class ThreadSafeQueue {
   ~ThreadSafeQueue() { close(); }
   bool empty() { return queue_.atomic()->empty(); }
   void push(const value_type &data) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       queue_->push(data);
       queueNotEmpty_.notify_one();
     }
   }
   void push(value_type &&data) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       queue_->emplace(std::move(data));
       queueNotEmpty_.notify_one();
     }
@@ -43,8 +43,8 @@ class ThreadSafeQueue {
               std::void_t<decltype(std::declval<_Sequence>().begin())>, void>,
           bool> = true>
   void push(const _Sequence &seq) {
+    std::lock_guard lock(queue_);
     if (!isClosed()) {
-      std::lock_guard lock(queue_);
       for (auto &item : seq) {
         queue_->push(item);
       }
@@ -57,7 +57,7 @@ class ThreadSafeQueue {
     if (!queueNotEmpty_.wait_until(
             lock, absTime, [this] { return !queue_->empty() || isClosed(); })) {
       return false;
-    } else if (!isClosed()) {
+    } else if (!isClosed() && !queue_->empty()) {
       value = std::move(queue_->front());
       queue_->pop();
       return true;
@@ -72,7 +72,7 @@ class ThreadSafeQueue {
           return !queue_->empty() || isClosed();
         })) {
       return false;
-    } else if (!isClosed()) {
+    } else if (!isClosed() && !queue_->empty()) {
       value = std::move(queue_->front());
       queue_->pop();
       return true;
@@ -88,7 +88,7 @@ class ThreadSafeQueue {
     std::unique_lock lock(queue_);
     queueNotEmpty_.wait(lock,
                         [this] { return !queue_->empty() || isClosed(); });
-    if (!isClosed()) {
+    if (!isClosed() && !queue_->empty()) {
       value = std::move(queue_->front());
       queue_->pop();
       return true;
@@ -109,6 +109,8 @@ class ThreadSafeQueue {
   void reOpen() { closed_.store(false, std::memory_order_release); }
 
   void close() {
+    // Under the lock: a waiter is either before its check or already asleep.
+    std::lock_guard lock(queue_);
     bool alreadyClosed = false;
     closed_.compare_exchange_strong(alreadyClosed, true);
     if (!alreadyClosed) {
-- 
2.43.0


From 91ec5c2a7a6740acdd7a0c8d5327568c23896229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 06/57] fix: order addresses and registration ids strictly

---
 include/maf/messaging/client-server/RegID.h        | 4 +++-
 src/common/maf/messaging/client-server/Address.cpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/maf/messaging/client-server/RegID.h b/include/maf/messaging/client-server/RegID.h
index af3f385..d6fb380 100644
--- a/include/maf/messaging/client-server/RegID.h
+++ b/include/maf/messaging/client-server/RegID.h
@@ -3,6 +3,8 @@
 #include <maf/messaging/client-server/CSTypes.h>
 #include <maf/utils/IDManager.h>
 
+#include <tuple>
+
 namespace maf {
 namespace messaging {
 
@@ -56,7 +58,7 @@ inline bool operator==(const RegID &r1, const RegID &r2) {
 inline bool operator!=(const RegID &r1, const RegID &r2) { return !(r1 == r2); }
 
 inline bool operator<(const RegID &r1, const RegID &r2) {
-  return (r1.requestID < r2.requestID) && (r1.opID < r2.opID);
+  return std::tie(r1.requestID, r1.opID) < std::tie(r2.requestID, r2.opID);
 }
 
 }  // namespace messaging
diff --git a/src/common/maf/messaging/client-server/Address.cpp b/src/common/maf/messaging/client-server/Address.cpp
index 6b5b00a..35b26ac 100644
--- a/src/common/maf/messaging/client-server/Address.cpp
+++ b/src/common/maf/messaging/client-server/Address.cpp
@@ -16,7 +16,7 @@ bool Address::operator!=(const Address &other) const {
 }
 
 bool Address::operator<(const Address &other) const {
-  return name_ < other.name_ || port_ < other.port_;
+  return std::tie(name_, port_) < std::tie(other.name_, other.port_);
 }
 
 bool Address::valid() const {
-- 
2.43.0


From ec5602e1663286059aab7b2ab2b162967dd8a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 07/57] fix: thread pools must survive concurrent and late
 submissions

---
 include/maf/threading/Runnable.h           |  2 +-
 include/maf/threading/ThreadPoolImplBase.h | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/maf/threading/Runnable.h b/include/maf/threading/Runnable.h
index 1726576..26ad003 100644
--- a/include/maf/threading/Runnable.h
+++ b/include/maf/threading/Runnable.h
@@ -12,7 +12,7 @@ public:
   virtual ~Runnable() {}
 
 private:
-  bool _autoDeleted;
+  bool _autoDeleted = false;
 };
 
 inline void run(Runnable *runner) {
diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 6392ea2..9d3e34d 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -36,7 +36,8 @@ public:
   ~ThreadPoolImplBase() { shutdown(); }
 
   void tryLaunchNewThread() {
-    if (_pool.size() < _maxThreadCount) {
+    std::lock_guard<std::mutex> lock(_poolMutex);
+    if (!_stopped && _pool.size() < _maxThreadCount) {
       try {
         _pool.emplace_back(
             std::thread{&ThreadPoolImplBase::coptRunPendingTask, this});
@@ -51,6 +52,7 @@ public:
   unsigned int maxThreadCount() const { return _maxThreadCount; }
 
   unsigned int activeThreadCount() {
+    std::lock_guard<std::mutex> lock(_poolMutex);
     return static_cast<unsigned int>(_pool.size());
   }
 
@@ -89,11 +91,13 @@ private:
   }
 
   std::vector<std::thread> _pool;
+  std::mutex _poolMutex;
+  bool _stopped = false;
   std::once_flag _shutdowned;
   TaskQueue _taskQueue;
   std::list<Task> _runningTasks;
   std::mutex _runningTaskMutex;
-  unsigned int _maxThreadCount;
+  std::atomic<unsigned int> _maxThreadCount;
   TaskExc _fRun;
   TaskExc _fStop;
   TaskExc _fDone;
@@ -120,7 +124,13 @@ private:
   }
 
   void waitForThreadsExited() {
-    for (auto &th : _pool) {
+    std::vector<std::thread> pool;
+    {
+      std::lock_guard<std::mutex> lock(_poolMutex);
+      _stopped = true;
+      pool.swap(_pool);
+    }
+    for (auto &th : pool) {
       if (th.joinable()) {
         th.join();
       }
-- 
2.43.0


From 4d2bbc30c5c061b3199e492943948f67ec038f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 08/57] fix: a task taken during shutdown must not start
 unnoticed

---
 include/maf/threading/ThreadPoolImplBase.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/maf/threading/ThreadPoolImplBase.h b/include/maf/threading/ThreadPoolImplBase.h
index 9d3e34d..bca646b 100644
--- a/include/maf/threading/ThreadPoolImplBase.h
+++ b/include/maf/threading/ThreadPoolImplBase.h
@@ -78,9 +78,10 @@ public:
 private:
   // copt = Called On Pool Threads
   void coptRun(Task task) {
-    addToRunningTasks(task);
-    _fRun(task);
-    removeFromRunningTasks(task);
+    if (addToRunningTasks(task)) {
+      _fRun(task);
+      removeFromRunningTasks(task);
+    }
     _fDone(task);
   }
   void coptRunPendingTask() {
@@ -97,14 +98,19 @@ private:
   TaskQueue _taskQueue;
   std::list<Task> _runningTasks;
   std::mutex _runningTaskMutex;
+  bool _stopping = false;
   std::atomic<unsigned int> _maxThreadCount;
   TaskExc _fRun;
   TaskExc _fStop;
   TaskExc _fDone;
 
-  void addToRunningTasks(Task task) {
+  bool addToRunningTasks(Task task) {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
+    if (_stopping) {
+      return false;
+    }
     _runningTasks.push_back(std::move(task));
+    return true;
   }
   void removeFromRunningTasks(const Task &task) {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
@@ -118,6 +124,7 @@ private:
   }
   void stopRunningTasks() {
     std::lock_guard<std::mutex> lock(_runningTaskMutex);
+    _stopping = true;
     for (auto &task : _runningTasks) {
       _fStop(task);
     }
-- 
2.43.0


From 3d754cf351959ad6ac80627d49c489c32f26c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 09/57] fix: slots and signals may end while a signal is
 emitted

---
 include/maf/utils/SignalSlots.h | 82 +++++++++++++++++++++++++--------
 1 file changed, 64 insertions(+), 18 deletions(-)

diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index 5760d34..f913529 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -5,7 +5,7 @@
 
 #include "maf/threading/MutexRef.h"
 
-//#include <algorithm>
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <future>
@@ -33,6 +33,21 @@ using Slot_ = function<void(ConstRef_<Args_>...)>;
 template <class... Args_>
 using SlotPtr_ = shared_ptr<Slot_<Args_...>>;
 
+// Marks a keeper as notifying; ends with the scope even if a slot throws
+struct NotifyingScope_ {
+  explicit NotifyingScope_(bool& notifying)
+      : notifying_{notifying}, outer_{notifying} {
+    notifying_ = true;
+  }
+  NotifyingScope_(const NotifyingScope_&) = delete;
+  NotifyingScope_& operator=(const NotifyingScope_&) = delete;
+  ~NotifyingScope_() { notifying_ = outer_; }
+
+ private:
+  bool& notifying_;
+  bool outer_;
+};
+
 template <class... Args_>
 class SingleSlotKeeper {
  public:
@@ -58,11 +73,11 @@ class SingleSlotKeeper {
   }
 
   void notify(ConstRef_<Args_>... args) const {
-    if (valid()) {
+    // the copy keeps the slot alive if it gets disconnected while running
+    if (auto slot = mySlot(); slot && *slot) {
       assert(!notifying_ && "Cyclic connection detected!");
-      notifying_ = true;
-      mySlot()->operator()(args...);
-      notifying_ = false;
+      NotifyingScope_ scope{notifying_};
+      (*slot)(args...);
     }
   }
 
@@ -107,17 +122,15 @@ class MultiSlotKeeper {
   void notify(ConstRef_<Args_>... args) const {
     if (valid()) {
       assert(!notifying_ && "Cyclic connection detected");
-      notifying_ = true;
+      PurgeScope_ purge{*this};
+      NotifyingScope_ scope{notifying_};
 
-      for (auto it = begin(slots_); it != end(slots_);) {
-        if (!*it) {  // this this slot is disconnected;
-          it = slots_.erase(it);
-        } else {
-          std::invoke(*(*it), args...);
-          ++it;
+      for (auto it = begin(slots_); it != end(slots_); ++it) {
+        // the copy keeps the slot alive if it gets disconnected while running
+        if (auto slot = *it) {
+          std::invoke(*slot, args...);
         }
       }
-      notifying_ = false;
     }
   }
 
@@ -136,18 +149,42 @@ class MultiSlotKeeper {
     return false;
   }
 
-  bool valid() const { return !slots_.empty(); }
+  bool valid() const { return size() != 0; }
 
-  void clear() { slots_.clear(); }
+  void clear() {
+    if (!notifying_) {
+      // destroying a slot may come back here: do it on a list of its own
+      auto dropped = SlotsType{};
+      dropped.swap(slots_);
+    } else {
+      for (auto& s : slots_) {
+        s.reset();
+      }
+    }
+  }
 
   bool has(const SlotPtrType& s) const {
     return find(begin(slots_), end(slots_), s) != end(slots_);
   }
 
-  size_t size() const { return slots_.size(); }
+  // slots disconnected while notifying are still in the list, but empty
+  size_t size() const {
+    return slots_.size() - count(begin(slots_), end(slots_), nullptr);
+  }
 
   SlotPtrType lastSlot() const { return slots_.back(); }
 
+ private:
+  // Drops the slots that were disconnected while notifying
+  struct PurgeScope_ {
+    const MultiSlotKeeper& keeper_;
+    ~PurgeScope_() {
+      if (!keeper_.notifying_) {
+        keeper_.slots_.remove(nullptr);
+      }
+    }
+  };
+
  protected:
   mutable SlotsType slots_;
   mutable bool notifying_ = false;
@@ -315,11 +352,20 @@ class BasicSignal_ {
   BasicSignal_& operator=(const BasicSignal_&) = delete;
   BasicSignal_(BasicSignal_&&) = default;
   BasicSignal_& operator=(BasicSignal_&&) = default;
-  ~BasicSignal_() { disconnect(); }
+  ~BasicSignal_() {
+    if (slotKeeper_) {  // not moved from
+      disconnect();
+    }
+  }
 
   void operator()(ConstRef_<Args_>... args) const { notify(args...); }
 
-  void notify(ConstRef_<Args_>... args) const { keeper()->notify(args...); }
+  void notify(ConstRef_<Args_>... args) const {
+    // the copy keeps the slots alive if a slot destroys this signal
+    const auto sharedKeeper = slotKeeper_;
+    const SlotsKeeper_& keeper = *sharedKeeper;
+    keeper->notify(args...);
+  }
 
   ConnectionType connect(SlotType s) {
     assert(s);
-- 
2.43.0


From 3bbd4f8073fc235544ebaad685c92a5b6621626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 10/57] fix: single-connection shared-mutex signals accept one
 connection only

---
 include/maf/utils/Observable.h  | 2 +-
 include/maf/utils/SignalSlots.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/Observable.h b/include/maf/utils/Observable.h
index 1d362a6..c4cbf28 100644
--- a/include/maf/utils/Observable.h
+++ b/include/maf/utils/Observable.h
@@ -628,7 +628,7 @@ using SharedMutexObservable =
     BasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 template <class... Args>
 using SharedMutexSCObservable =
-    BasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
+    SCBasicObservableTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 
 template <class... _Args, class _Callback>
 auto waitableConnect(BasicObservable_<_Args...>& o, _Callback callback) {
diff --git a/include/maf/utils/SignalSlots.h b/include/maf/utils/SignalSlots.h
index f913529..7c15f8f 100644
--- a/include/maf/utils/SignalSlots.h
+++ b/include/maf/utils/SignalSlots.h
@@ -645,7 +645,7 @@ using SharedMutexSignal =
     BasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 template <class... Args>
 using SharedMutexSCSignal =
-    BasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
+    SCBasicSignalTS<threading::MutexReference<std::recursive_mutex>, Args...>;
 
 template <template <class, class...> class Signal_, class SlotKeeper_,
           typename... Args_>
-- 
2.43.0


From b62338e902cfbc8dc2e7797251d467db4d789ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 11/57] fix: handlers may post, connect and route while others
 do without deadlock

---
 src/common/maf/messaging/Processor.cpp | 59 ++++++++++++--------------
 src/common/maf/messaging/Router.cpp    | 24 +++++++----
 src/common/maf/messaging/Router.h      |  2 +
 3 files changed, 43 insertions(+), 42 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 1f9517c..ec16ae3 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -96,35 +96,33 @@ struct ProcessorDataPrv {
     return false;
   }
 
-  void processMessage(const Message &msg) {
-    HandlersPtr handlers;
-    {
-      std::lock_guard lock(msgHandlersMap);
-      auto itHandler = msgHandlersMap->find(msg.type());
-      if (itHandler != msgHandlersMap->end()) {
-        handlers = itHandler->second;
-      }
+  // A handler runs with its Handlers locked and may come back here, so the map
+  // must never be locked while waiting for Handlers: they're used outside of it
+  HandlersPtr findHandlers(const MessageID &msgID) {
+    std::lock_guard lock(msgHandlersMap);
+    auto itHandler = msgHandlersMap->find(msgID);
+    return itHandler != msgHandlersMap->end() ? itHandler->second
+                                              : HandlersPtr{};
+  }
+
+  HandlersPtr findOrAddHandlers(const MessageID &msgID) {
+    std::lock_guard lock(msgHandlersMap);
+    auto &handlers = (*msgHandlersMap)[msgID];
+    if (!handlers) {
+      handlers = std::make_shared<Handlers>();
     }
+    return handlers;
+  }
 
-    if (handlers) {
+  void processMessage(const Message &msg) {
+    if (auto handlers = findHandlers(msg.type())) {
       handlers->notify(msg);
     }
   }
 
   bool msgConnected(const MessageID &msgID) {
-    std::lock_guard lock(msgHandlersMap);
-    auto it = msgHandlersMap->find(msgID);
-    return it != msgHandlersMap->end() && it->second->connected();
-  }
-
-  void cleanupUnconnectedMsgHandlers() {
-    for (auto it = msgHandlersMap->begin(); it != msgHandlersMap->end();) {
-      if (!it->second->connected()) {
-        it = msgHandlersMap->erase(it);
-      } else {
-        ++it;
-      }
-    }
+    auto handlers = findHandlers(msgID);
+    return handlers && handlers->connected();
   }
 
   void closeAndClearExecutionsQueue() {
@@ -293,7 +291,7 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
 }
 
 bool Processor::connected(const MessageID &mid) const {
-  return d_->msgHandlersMap.atomic()->count(mid) > 0;
+  return d_->msgConnected(mid);
 }
 
 bool Processor::executeAsync(Execution exec) {
@@ -366,19 +364,14 @@ Execution Processor::willBlockingExecuteOnThis(Execution exec) {
 
 MsgConnection Processor::connect(const MessageID &msgid,
                                  MessageProcessingCallback processMsgCallback) {
-  using namespace std;
-  lock_guard lock(d_->msgHandlersMap);
-  auto &handlers = (*d_->msgHandlersMap)[msgid];
-  if (!handlers) {
-    handlers = std::make_shared<Handlers>();
-  }
-  return new SSConnection(handlers->connect(move(processMsgCallback)));
+  auto handlers = d_->findOrAddHandlers(msgid);
+  return new SSConnection(handlers->connect(std::move(processMsgCallback)));
 }
 
 void Processor::disconnect(const MessageID &msgid) {
-  std::lock_guard lock(d_->msgHandlersMap);
-  d_->msgHandlersMap->erase(msgid);
-  d_->cleanupUnconnectedMsgHandlers();
+  if (auto handlers = d_->findHandlers(msgid)) {
+    handlers->disconnect();
+  }
 }
 
 size_t Processor::pendingCout() const { return d_->pendingExecutions.size(); }
diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 4602149..008f4a3 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -32,8 +32,7 @@ Processor::CompleteSignal Router::send(const ProcessorID &messageprocessorID,
 
 bool Router::postToAll(const Message &msg) {
   bool delivered = false;
-  auto atProcessors = messageprocessors_.atomic();
-  for (const auto &comp : *atProcessors) {
+  for (const auto &comp : processors()) {
     delivered |= askThenPost(comp, std::move(msg));
   }
   return delivered;
@@ -41,8 +40,7 @@ bool Router::postToAll(const Message &msg) {
 
 Processor::CompleteSignal Router::sendToAll(const Message &msg) {
   auto msgMessageHandledSignals = vector<Processor::CompleteSignal>{};
-  auto atProcessors = messageprocessors_.atomic();
-  for (const auto &comp : *atProcessors) {
+  for (const auto &comp : processors()) {
     if (auto sig = askThenSend(comp, std::move(msg)); sig.valid()) {
       msgMessageHandledSignals.emplace_back(move(sig));
     }
@@ -69,14 +67,22 @@ ProcessorInstance Router::findProcessor(const ProcessorID &id) const {
   return {};
 }
 
+// Processors are called outside of the lock, their handlers may come back here
+Processors Router::processors() const { return *messageprocessors_.atomic(); }
+
 bool Router::addProcessor(ProcessorInstance comp) {
   if (comp) {
-    auto joinedProcessors = messageprocessors_.atomic();
-    if (joinedProcessors->count(comp) == 0) {
-      informNewProcessorAboutJoinedOnes(comp, *joinedProcessors);
-      notifyAllAboutNewProcessor(*joinedProcessors, comp);
-      joinedProcessors->insert(move(comp));
+    auto joinedProcessors = Processors{};
+    {
+      auto atProcessors = messageprocessors_.atomic();
+      joinedProcessors = *atProcessors;
+      if (!atProcessors->insert(comp).second) {
+        return false;
+      }
     }
+    informNewProcessorAboutJoinedOnes(comp, joinedProcessors);
+    notifyAllAboutNewProcessor(joinedProcessors, comp);
+    return true;
   }
   return false;
 }
diff --git a/src/common/maf/messaging/Router.h b/src/common/maf/messaging/Router.h
index d278f59..7db55d4 100644
--- a/src/common/maf/messaging/Router.h
+++ b/src/common/maf/messaging/Router.h
@@ -44,6 +44,8 @@ class Router : public pattern::SingletonObject<Router> {
   bool removeProcessor(const ProcessorInstance &comp);
 
  private:
+  Processors processors() const;
+
   using AtomicProcessors = threading::Lockable<Processors, std::mutex>;
 
   AtomicProcessors messageprocessors_;
-- 
2.43.0


From cd6004095ba9a3ccbf56fc0f460273aa4854eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 12/57] fix: an execution must be destroyed outside of the
 queue's lock

---
 src/common/maf/messaging/Processor.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index ec16ae3..6ac348a 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -131,7 +131,9 @@ struct ProcessorDataPrv {
   }
 };
 
-static decltype(auto) invoke(const ExecutionUPtr &exc) { return (*exc)(); }
+// The execution ends here: what it owns may come back to the queue when it's
+// destroyed, so that must not be left to the next wait, which locks the queue
+static void invoke(ExecutionUPtr exc) { (*exc)(); }
 
 static const ProcessorID &emptyProcessorID() {
   static ProcessorID emptyID;
@@ -204,7 +206,7 @@ void Processor::run(ThreadFunction threadInit, ThreadFunction threadDeinit) {
 
   ExecutionUPtr exc;
   while (d_->pendingExecutions.wait(exc)) {
-    invoke(exc);
+    invoke(std::move(exc));
   }
 }
 
@@ -220,7 +222,7 @@ void Processor::runUntil(ExecutionDeadline deadline) {
   };
 
   while (d_->pendingExecutions.waitUntil(exc, deadline)) {
-    invoke(exc);
+    invoke(std::move(exc));
   }
 }
 
@@ -237,7 +239,7 @@ bool Processor::runOnceUntil(ExecutionDeadline deadline) {
   };
 
   if (d_->pendingExecutions.waitUntil(exc, deadline)) {
-    invoke(exc);
+    invoke(std::move(exc));
     return true;
   }
 
-- 
2.43.0


From 99ad39f638c016dc9824bf3015743ff7ad3a5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 13/57] fix: recognise the running processor by itself, not by
 its name

---
 src/common/maf/messaging/Processor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 6ac348a..a21d342 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -20,6 +20,7 @@ using namespace std::string_view_literals;
 
 namespace this_processor {
 static bool testAndSetThreadLocalInstance(Processor *inst);
+static bool is(const Processor *inst);
 static void clearTLInstanceIfSet(bool set);
 static thread_local Processor *instance_ = nullptr;
 }  // namespace this_processor
@@ -280,7 +281,7 @@ Processor::CompleteSignal Processor::waitablePost(Message msg) {
           [this, msg = move(msg)] { d_->processMessage(msg); });
 
       doneSignal = CompleteSignal{msgHandlingTask->get_future()};
-      if (this_processor::id() != id()) {
+      if (!this_processor::is(this)) {
         executeAsync([task{move(msgHandlingTask)}] { (*task)(); });
       } else {
         (*msgHandlingTask)();
@@ -319,7 +320,7 @@ Processor::CompleteSignal Processor::waitableExecute(Execution exec) {
   if (!stopped()) {
     auto task = make_shared<packaged_task<void()>>(move(exec));
     doneSignal = CompleteSignal{task->get_future()};
-    if (this_processor::id() != id()) {
+    if (!this_processor::is(this)) {
       executeAsync([task{move(task)}] { (*task)(); });
     } else {
       (*task)();
@@ -394,6 +395,8 @@ static void clearTLInstanceIfSet(bool set) {
   }
 }
 
+static bool is(const Processor *inst) { return instance_ == inst; }
+
 ProcessorInstance instance() {
   if (instance_) {
     return instance_->shared_from_this();
-- 
2.43.0


From 31ca57e879569b62d694c75d0815d757938ee937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 14/57] fix: waiting for an execution must report its exception
 or that it was dropped

---
 include/maf/messaging/Processor.h      | 2 +-
 src/common/maf/messaging/Processor.cpp | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/maf/messaging/Processor.h b/include/maf/messaging/Processor.h
index 96966ed..e92cb7c 100644
--- a/include/maf/messaging/Processor.h
+++ b/include/maf/messaging/Processor.h
@@ -89,7 +89,7 @@ class Processor final : pattern::Unasignable,
                        bool> = true>
   auto waitableExecute(Callable &&cb) -> std::invoke_result_t<Callable> {
     std::invoke_result_t<Callable> ret;
-    this->waitableExecute([&] { ret = cb(); }).wait();
+    this->waitableExecute([&] { ret = cb(); }).get();
     return ret;
   }
 
diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index a21d342..c314551 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -70,11 +70,14 @@ class WaitableExecutor : public util::ExecutorIF {
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
       try {
-        comp->waitableExecute(callback).wait();
+        comp->waitableExecute(callback).get();
         return true;
       } catch (const std::future_error &e) {
         MAF_LOGGER_ERROR("Cauth exception when execute callback: ", e.what());
         return false;
+      } catch (...) {
+        MAF_LOGGER_ERROR("The callback threw an exception");
+        return true;
       }
     }
     return false;
-- 
2.43.0


From 64f40c83cd5ff569997f7725f0870c093d3663c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 15/57] fix: only one processor is created per name, and only
 it leaves routing

---
 src/common/maf/messaging/Processor.cpp |  4 +---
 src/common/maf/messaging/Router.cpp    | 13 ++++++++++++-
 src/common/maf/messaging/Router.h      |  1 +
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index c314551..0c33e14 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -180,10 +180,8 @@ ProcessorInstance Processor::create(ProcessorID id) {
   auto comp = ProcessorInstance{new Processor{std::move(id)}};
 
   if (willJoinRouting) {
-    if (Router::instance().findProcessor(comp->id())) {
+    if (!Router::instance().addProcessor(comp)) {
       comp.reset();
-    } else {
-      Router::instance().addProcessor(comp);
     }
   }
   return comp;
diff --git a/src/common/maf/messaging/Router.cpp b/src/common/maf/messaging/Router.cpp
index 008f4a3..add4e80 100644
--- a/src/common/maf/messaging/Router.cpp
+++ b/src/common/maf/messaging/Router.cpp
@@ -87,8 +87,19 @@ bool Router::addProcessor(ProcessorInstance comp) {
   return false;
 }
 
+bool Router::eraseProcessor(const ProcessorInstance &comp) {
+  // another processor may have taken over the id in the meantime
+  auto atProcessors = messageprocessors_.atomic();
+  auto itProcessor = atProcessors->find(comp);
+  if (itProcessor != atProcessors->end() && *itProcessor == comp) {
+    atProcessors->erase(itProcessor);
+    return true;
+  }
+  return false;
+}
+
 bool Router::removeProcessor(const ProcessorInstance &comp) {
-  if (messageprocessors_.atomic()->erase(comp) != 0) {
+  if (eraseProcessor(comp)) {
     postToAll(ProcessorStatusUpdateMsg{
         comp, ProcessorStatusUpdateMsg::Status::UnReachable});
     return true;
diff --git a/src/common/maf/messaging/Router.h b/src/common/maf/messaging/Router.h
index 7db55d4..fc463ce 100644
--- a/src/common/maf/messaging/Router.h
+++ b/src/common/maf/messaging/Router.h
@@ -45,6 +45,7 @@ class Router : public pattern::SingletonObject<Router> {
 
  private:
   Processors processors() const;
+  bool eraseProcessor(const ProcessorInstance &comp);
 
   using AtomicProcessors = threading::Lockable<Processors, std::mutex>;
 
-- 
2.43.0


From c76fb6796247ff1a3b29c3543395623e72542e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:21 +0000
Subject: [PATCH 16/57] fix: assigning a message connection must not leak the
 former one

---
 src/common/maf/messaging/Processor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 0c33e14..0b2dbfb 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -521,8 +521,7 @@ MsgConnection::MsgConnection(MsgConnection &&con) noexcept {
 }
 
 MsgConnection &MsgConnection::operator=(MsgConnection &&con) noexcept {
-  _ = con._;
-  con._ = nullptr;
+  std::swap(_, con._);
   return *this;
 }
 
-- 
2.43.0


From f51e1ff8c509a141d12d24877c3d9600f68e797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:15 +0000
Subject: [PATCH 17/57] fix: clearing a queue must not destroy its elements
 under its lock

---
 include/maf/threading/ThreadSafeQueue.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/maf/threading/ThreadSafeQueue.h b/include/maf/threading/ThreadSafeQueue.h
index eeda289..932f83c 100644
--- a/include/maf/threading/ThreadSafeQueue.h
+++ b/include/maf/threading/ThreadSafeQueue.h
@@ -121,16 +121,19 @@ class ThreadSafeQueue {
   bool isClosed() const { return closed_.load(std::memory_order_acquire); }
 
   void clear(ApplyAction onClearCallback = nullptr) {
-    using namespace std;
-    lock_guard lock(queue_);
+    // Removed elements are handled and destroyed outside of the lock: what they
+    // own may use this queue.
+    QueueClass removed;
+    {
+      std::lock_guard lock(queue_);
+      std::swap(*queue_, removed);
+    }
     if (onClearCallback) {
-      while (!queue_->empty()) {
-        auto v = std::move(queue_->front());
+      while (!removed.empty()) {
+        auto v = std::move(removed.front());
         onClearCallback(v);
-        queue_->pop();
+        removed.pop();
       }
-    } else {
-      *queue_ = {};
     }
   }
 
-- 
2.43.0


From 603e61a0700c79f0639ebde2372da6f9cd303793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 18/57] fix: executors must report that a stopped processor
 refused

---
 src/common/maf/messaging/Processor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 0b2dbfb..e7f45d4 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -42,8 +42,7 @@ class AsyncExecutor : public util::ExecutorIF {
   AsyncExecutor(ProcessorRef &&cr) : compref{std::move(cr)} {}
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
-      comp->executeAsync(std::move(callback));
-      return true;
+      return comp->executeAsync(std::move(callback));
     }
     return false;
   }
@@ -56,8 +55,7 @@ class DefaultExecutor : public util::ExecutorIF {
   DefaultExecutor(ProcessorRef &&cr) : compref{std::move(cr)} {}
   bool execute(CallbackType callback) noexcept override {
     if (auto comp = compref.lock()) {
-      comp->execute(std::move(callback));
-      return true;
+      return comp->execute(std::move(callback));
     }
     return false;
   }
-- 
2.43.0


From b8049b4883252e908e9a87b7eb1d5dd0d9550215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 19/57] fix: timers must compile with assertions enabled

---
 src/common/maf/messaging/Timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index fbef7a8..fe36ba5 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -222,8 +222,8 @@ void TimerMgr::stop(TimerDataPtr record) {
 void TimerMgr::onTimerModified() {
   auto thisProcessorInstance = this_processor::instance();
   assert(thisProcessorInstance &&
-         "Timer must be triggered in thread of a mesasging::Processor")
-      thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
+         "Timer must be triggered in thread of a mesasging::Processor");
+  thisProcessorInstance->executeAsync([this] { this->checkAllTimers(); });
 }
 
 void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
-- 
2.43.0


From 9062fcd57cbab7e1441e89ad4d428f415835162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 20/57] fix: a timer's callback must survive starting its own
 timer

---
 src/common/maf/messaging/Timer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index fe36ba5..041b05c 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -46,7 +46,11 @@ struct TimerData {
     deadline = Clock::now() + duration;
   }
   bool expired() const { return deadline <= Clock::now(); }
-  void onExpired() { callback(); }
+  void onExpired() {
+    // The callback may start this timer with another callback
+    auto cb = callback;
+    cb();
+  }
   void reset(TimeOutCallback&& cb, ExecutionTimeout d, bool cc = false) {
     callback = move(cb);
     deadline = Clock::now() + d;
-- 
2.43.0


From 8ecb120d2913e5437253e71350a9a6d42a6742e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 21/57] fix: only the timer with the earliest deadline may fire
 and leave the list

---
 src/common/maf/messaging/Timer.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index 041b05c..9c62d72 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -191,15 +191,14 @@ void TimerMgr::checkAllTimers() {
       break;
     }
 
-    if (!timer->expired()) {
+    // while waiting, the timer might have been stopped or restarted, or an
+    // earlier one might have been started
+    if (timer != getShortestTimer() || !timer->expired()) {
       continue;
     }
 
     state_ = State::HaveTimer;
-    // shortest timer might be stopped while waiting
-    if (timer->running) {
-      onShortestTimerExpired(timer);
-    }
+    onShortestTimerExpired(timer);
   }
 }
 
-- 
2.43.0


From 5077741d958cf29049783fea583c8356d0040bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 22/57] fix: restarting a timer that is not running must start
 it

---
 src/common/maf/messaging/Timer.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index 9c62d72..2e4a21e 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -41,10 +41,7 @@ struct TimerData {
         duration(interval),
         cyclic(cc) {}
   void updateNextDeadline() { deadline += duration; }
-  void restart() {
-    running = true;
-    deadline = Clock::now() + duration;
-  }
+  void updateDeadline() { deadline = Clock::now() + duration; }
   bool expired() const { return deadline <= Clock::now(); }
   void onExpired() {
     // The callback may start this timer with another callback
@@ -240,14 +237,10 @@ void TimerMgr::onShortestTimerExpired(const TimerDataPtr& record) {
 }
 
 void TimerMgr::restart(const TimerDataPtr& r) {
-  r->restart();
-  if (r == records_.front()) {
-    pop_heap(begin(), end(), timerGreater);
-    push_heap(begin(), end(), timerGreater);
-  } else {
-    refresh();
+  if (r->callback) {
+    r->updateDeadline();
+    start(r);
   }
-  onTimerModified();
 }
 
 void TimerMgr::add(TimerDataPtr newRecord) {
-- 
2.43.0


From e7c34cf0e2d32182c038ef26fe7009ab42a46179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:27 +0000
Subject: [PATCH 23/57] fix: an exception must not make the remaining timers
 forgotten

---
 src/common/maf/messaging/Timer.cpp | 41 ++++++++++++++++++------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/common/maf/messaging/Timer.cpp b/src/common/maf/messaging/Timer.cpp
index 2e4a21e..44284d9 100644
--- a/src/common/maf/messaging/Timer.cpp
+++ b/src/common/maf/messaging/Timer.cpp
@@ -177,25 +177,34 @@ void TimerMgr::checkAllTimers() {
     return;
   }
   auto comp = this_processor::instance();
-  while (auto timer = getShortestTimer()) {
-    if (!timer->expired()) {
-      state_ = State::Waiting;
-      comp->runOnceUntil(timer->deadline);
-      state_ = State::HaveTimer;
-    }
+  try {
+    while (auto timer = getShortestTimer()) {
+      if (!timer->expired()) {
+        state_ = State::Waiting;
+        comp->runOnceUntil(timer->deadline);
+        state_ = State::HaveTimer;
+      }
 
-    if (comp->stopped()) {
-      break;
-    }
+      if (comp->stopped()) {
+        break;
+      }
 
-    // while waiting, the timer might have been stopped or restarted, or an
-    // earlier one might have been started
-    if (timer != getShortestTimer() || !timer->expired()) {
-      continue;
-    }
+      // while waiting, the timer might have been stopped or restarted, or an
+      // earlier one might have been started
+      if (timer != getShortestTimer() || !timer->expired()) {
+        continue;
+      }
 
-    state_ = State::HaveTimer;
-    onShortestTimerExpired(timer);
+      state_ = State::HaveTimer;
+      onShortestTimerExpired(timer);
+    }
+  } catch (...) {
+    // Nobody waits for the remaining timers any more: come back for them
+    if (!checkRecordListEmpty()) {
+      state_ = State::HaveTimer;
+      onTimerModified();
+    }
+    throw;
   }
 }
 
-- 
2.43.0


From 16c60ca86ef59b3dc0ff38adf3590727c160c22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 24/57] fix: a stopped blocking timer must not go on when
 started again by another thread

---
 src/common/maf/messaging/SyncTimer.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index 0d492b8..b22977c 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -14,8 +14,9 @@ namespace messaging {
 struct SyncTimerDataPrv {
   std::condition_variable_any timeoutCondition;
   std::recursive_mutex mutex;
-  bool running = false;
+  std::atomic_bool running = false;
   bool cyclic = false;
+  unsigned long long generation = 0;
 };
 
 SyncTimer::SyncTimer(bool cyclic)
@@ -42,11 +43,16 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
     }
 
     std::unique_lock lock(d_->mutex);
+    stop();  // another thread might have started it meanwhile
+    // The next start takes over, even before this one has noticed the stop
+    auto generation = ++d_->generation;
+    auto stopped = [this, generation] {
+      return !d_->running || d_->generation != generation;
+    };
     d_->running = true;
 
     do {
-      if (!d_->timeoutCondition.wait_for(lock, milliseconds,
-                                         [this] { return !d_->running; })) {
+      if (!d_->timeoutCondition.wait_for(lock, milliseconds, stopped)) {
         if (executor) {
           executor->execute(d_->cyclic ? callback : std::move(callback));
         } else {
@@ -54,14 +60,15 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
         }
       }
 
-      if (!d_->running)  // restarted
-      {
+      if (stopped()) {
         break;
       }
 
     } while (d_->cyclic);
 
-    d_->running = false;
+    if (d_->generation == generation) {
+      d_->running = false;
+    }
   }
 }
 
@@ -71,7 +78,7 @@ void SyncTimer::stop() {
   std::lock_guard lock(d_->mutex);
   if (d_->running) {
     d_->running = false;
-    d_->timeoutCondition.notify_one();
+    d_->timeoutCondition.notify_all();
   }
 }
 
-- 
2.43.0


From 73ab436df2ac0b66d9e76f32e78a7f5317bdce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:43 +0000
Subject: [PATCH 25/57] fix: a blocking timer made cyclic while it fires must
 keep its callback

---
 src/common/maf/messaging/SyncTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index b22977c..564b805 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -54,7 +54,7 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
     do {
       if (!d_->timeoutCondition.wait_for(lock, milliseconds, stopped)) {
         if (executor) {
-          executor->execute(d_->cyclic ? callback : std::move(callback));
+          executor->execute(callback);  // may still be made cyclic meanwhile
         } else {
           callback();
         }
-- 
2.43.0


From 8dfdf77fd9d86a9f527765e515594b13f2187354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 26/57] fix: bytes that are not a complete message must be
 refused

---
 .../client-server/ipc/LocalIPCMessage.cpp     | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp
index 5ec4113..d354446 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCMessage.cpp
@@ -53,17 +53,32 @@ srz::Buffer LocalIPCMessage::toBytes() noexcept {
 
 bool LocalIPCMessage::fromBytes(Buffer &&bytes) noexcept {
   using namespace std;
-  auto iss = make_shared<IByteStream>(std::move(bytes));
-  Deserializer ds(*iss);
   try {
-    ContentType contentType = ContentType::NA;
-    ds >> serviceID_ >> operationID_ >> operationCode_ >> requestID_ >>
-        sourceAddress_ >> contentType;
+    auto iss = make_shared<IByteStream>(std::move(bytes));
+    Deserializer ds(*iss);
+    auto serviceID = ServiceID{};
+    auto operationID = OpID{};
+    auto operationCode = OpCode::Invalid;
+    auto requestID = RequestIDInvalid;
+    auto sourceAddress = Address{};
+    auto contentType = ContentType::NA;
+    auto payload = CSPayloadIFPtr{};
+    ds >> serviceID >> operationID >> operationCode >> requestID >>
+        sourceAddress >> contentType;
     if (contentType == ContentType::Error) {
-      setPayload(decodeAsError(ds));
-    } else {
-      setPayload(make_shared<IncomingPayload>(std::move(iss)));
+      payload = decodeAsError(ds);
     }
+    if (iss->fail()) {
+      MAF_LOGGER_ERROR("Received bytes are not a complete LocalIPCMessage");
+      return false;
+    }
+    if (!payload) {
+      payload = make_shared<IncomingPayload>(std::move(iss));
+    }
+    static_cast<CSMessage &>(*this) =
+        CSMessage{std::move(serviceID), std::move(operationID),
+                  operationCode,        requestID,
+                  std::move(payload),   std::move(sourceAddress)};
     return true;
   } catch (const exception &e) {
     MAF_LOGGER_ERROR(
-- 
2.43.0


From 396ebfbdd60cdcbd2239c8bd1662f8ed2cd7c91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 27/57] fix: an answer or abort must end the request of its own
 client only, once

---
 src/common/maf/messaging/client-server/Request.cpp |  9 ++++++++-
 src/common/maf/messaging/client-server/Request.h   |  1 +
 .../messaging/client-server/ServiceProvider.cpp    | 14 +++++++++-----
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/common/maf/messaging/client-server/Request.cpp b/src/common/maf/messaging/client-server/Request.cpp
index e71fb72..f709ea7 100644
--- a/src/common/maf/messaging/client-server/Request.cpp
+++ b/src/common/maf/messaging/client-server/Request.cpp
@@ -71,8 +71,10 @@ CSPayloadIFPtr Request::getInput() {
 }
 
 void Request::onAborted(AbortRequestCallback abortCallback) {
-  std::lock_guard lock(_mutex);
+  std::unique_lock lock(_mutex);
   if (!_valid) {
+    // the callback might use this request
+    lock.unlock();
     abortCallback();
   } else {
     _abortCallback = std::move(abortCallback);
@@ -95,6 +97,11 @@ RequestID Request::getRequestID() const {
   return _csMsg->requestID();
 }
 
+Address Request::getSourceAddress() const {
+  std::lock_guard lock(_mutex);
+  return _csMsg->sourceAddress();
+}
+
 ActionCallStatus Request::sendMsgBackToClient() {
   if (auto stub = _svStub.lock()) {
     return stub->respondToRequest(_csMsg);
diff --git a/src/common/maf/messaging/client-server/Request.h b/src/common/maf/messaging/client-server/Request.h
index 97f77f6..f7bf2fb 100644
--- a/src/common/maf/messaging/client-server/Request.h
+++ b/src/common/maf/messaging/client-server/Request.h
@@ -25,6 +25,7 @@ class Request : public RequestIF {
   AbortRequestCallback getAbortCallback();
   ActionCallStatus sendMsgBackToClient();
   void setOperationCode(OpCode opCode);
+  Address getSourceAddress() const;
 
  public:
   OpCode getOperationCode() const override;
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index b1c8169..53b3edd 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -71,7 +71,9 @@ ActionCallStatus ServiceProvider::respondToRequest(const CSMessagePtr &csMsg) {
     request = getRequestInfo(csMsg, false);
   } else {
     request = getRequestInfo(csMsg, true);
-    request->invalidate();
+    if (request) {
+      request->invalidate();
+    }
   }
   if (request) {
     return sendBackMessageToClient(csMsg);
@@ -270,7 +272,9 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
     for (auto itRequest = requestList.begin(); itRequest != requestList.end();
          ++itRequest) {
       RequestPtr &requestTmp = *itRequest;
-      if (requestTmp->getRequestID() == msg->requestID()) {
+      // request ids are unique per client only
+      if (requestTmp->getRequestID() == msg->requestID() &&
+          requestTmp->getSourceAddress() == msg->sourceAddress()) {
         request = requestTmp;
         if (remove) {
           requestList.erase(itRequest);
@@ -283,8 +287,9 @@ ServiceProvider::RequestPtr ServiceProvider::getRequestInfo(
 }
 
 void ServiceProvider::invalidateAndRemoveAllRequests() {
-  std::lock_guard lock(requestsMap_);
-  for (auto &[opID, requests] : *requestsMap_) {
+  RequestMap::DataType requestsMap;
+  requestsMap.swap(*requestsMap_.atomic());
+  for (auto &[opID, requests] : requestsMap) {
     for (auto &request : requests) {
       request->invalidate();
       if (auto abortCallback = request->getAbortCallback()) {
@@ -292,7 +297,6 @@ void ServiceProvider::invalidateAndRemoveAllRequests() {
       }
     }
   }
-  regEntriesMap_->clear();
 }
 
 void ServiceProvider::saveRegisterInfo(const CSMessagePtr &msg) {
-- 
2.43.0


From 1f11144a24a9bc1dddafda2755c665485abe3668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 28/57] fix: publishing fails only when no registered client
 could be told

---
 .../messaging/client-server/ServiceProvider.cpp  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 53b3edd..65f46a4 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -137,7 +137,8 @@ void ServiceProvider::broadcastServerSide(const OpID &opID,
 ActionCallStatus ServiceProvider::broadcastToClients(
     const OpID &propertyID, OpCode opCode, const CSPayloadIFPtr &payload) {
   using AddressList = std::vector<Address>;
-  bool success = false;
+  // failed only when none of the registered clients could be told
+  bool success = true;
   AddressList addresses;
 
   {  // locking _regEntriesMap block
@@ -156,16 +157,18 @@ ActionCallStatus ServiceProvider::broadcastToClients(
     auto csMsg = createCSMessage(serviceID(), propertyID, opCode,
                                  RequestIDInvalid, payload);
 
+    success = false;
     auto trySendToDestinations =
-        [this, &csMsg](AddressList &addresses) -> AddressList {
+        [this, &csMsg, &success](AddressList &addresses) -> AddressList {
       AddressList busyReceivers;
       for (const auto &addr : addresses) {
         auto errCode = sendMessage(csMsg, addr);
         if (errCode == ActionCallStatus::Success) {
+          success = true;
           MAF_LOGGER_INFO("Sent message id: ", csMsg->operationID(),
                           " from server side!");
         } else if (errCode == ActionCallStatus::ReceiverBusy) {
-          busyReceivers.emplace_back(std::move(addr));
+          busyReceivers.emplace_back(addr);
         } else {
           this->removeRegistersOfAddress(addr);
           MAF_LOGGER_WARN(
@@ -186,12 +189,9 @@ ActionCallStatus ServiceProvider::broadcastToClients(
       MAF_LOGGER_WARN("Trying to send message to busy addresses once again!");
       busyReceivers = trySendToDestinations(busyReceivers);
     }
-
-    // success when succeeded to send msg to at least one receiver
-    success = (busyReceivers.size() != addresses.size());
   }
-  return success ? ActionCallStatus::ReceiverUnavailable
-                 : ActionCallStatus::Success;
+  return success ? ActionCallStatus::Success
+                 : ActionCallStatus::ReceiverUnavailable;
 }
 
 CSPayloadIFPtr ServiceProvider::getStatus(const OpID &propertyID) {
-- 
2.43.0


From cd1e818a0f8b3085adbfa85cb5dc48148063ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:32 +0000
Subject: [PATCH 29/57] fix: service status must be told once and without
 holding locks

---
 .../messaging/client-server/ClientBase.cpp    | 20 +++--
 .../client-server/ServiceRequester.cpp        | 85 ++++++++++++-------
 .../client-server/ServiceRequester.h          |  7 +-
 3 files changed, 71 insertions(+), 41 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ClientBase.cpp b/src/common/maf/messaging/client-server/ClientBase.cpp
index ce63a62..a12b50c 100644
--- a/src/common/maf/messaging/client-server/ClientBase.cpp
+++ b/src/common/maf/messaging/client-server/ClientBase.cpp
@@ -14,8 +14,9 @@ void ClientBase::onServerStatusChanged(Availability oldStatus,
                                        Availability newStatus) noexcept {
   if (newStatus != Availability::Available) {
     _serviceStatusMap.atomic()->clear();
-    std::lock_guard lock(_requestersMap);
-    for (auto &[sid, requester] : *_requestersMap) {
+    // observers might ask this client for other requesters
+    auto requesters = *_requestersMap.atomic();
+    for (auto &[sid, requester] : requesters) {
       requester->onServiceStatusChanged(sid, oldStatus, newStatus);
     }
   }
@@ -28,10 +29,17 @@ void ClientBase::onServiceStatusChanged(const ServiceID &sid,
                   "]: ", oldStatus, "-->", newStatus);
 
   (*_serviceStatusMap.atomic())[sid] = newStatus;
-  std::lock_guard lock(_requestersMap);
-  auto itProxy = _requestersMap->find(sid);
-  if (itProxy != _requestersMap->end()) {
-    itProxy->second->onServiceStatusChanged(sid, oldStatus, newStatus);
+  auto requester = ServiceRequesterIFPtr{};
+  {
+    std::lock_guard lock(_requestersMap);
+    if (auto itProxy = _requestersMap->find(sid);
+        itProxy != _requestersMap->end()) {
+      requester = itProxy->second;
+    }
+  }
+  if (requester) {
+    // observers might ask this client for other requesters
+    requester->onServiceStatusChanged(sid, oldStatus, newStatus);
   } else {
     MAF_LOGGER_WARN("There's no proxy for this service id: ", sid);
   }
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 7d803fb..2ba58a4 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -6,6 +6,7 @@
 #include <maf/messaging/client-server/Exceptions.h>
 #include <maf/utils/Pointers.h>
 
+#include <algorithm>
 #include <variant>
 
 #define SET_ERROR_AND_RETURN_IF(condition, pErrorStore, errorValue, \
@@ -134,8 +135,8 @@ void ServiceRequester::registerServiceStatusObserver(
       // dont execute notification in critical section,
       // that might block other thread to update service status
       // when status has changed
-      observer->onServiceStatusChanged(serviceID(), Availability::Unknown,
-                                       Availability::Available);
+      notifyServiceStatus(observer, serviceID(), Availability::Unknown,
+                          Availability::Available);
     }
   }
 }
@@ -245,42 +246,62 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
                                               Availability oldStatus,
                                               Availability newStatus) {
   MAF_LOGGER_INFO("Server status change from ", oldStatus, " to ", newStatus);
-  if ((sid == serviceID()) && (newStatus != serviceStatus_)) {
+  if (sid != serviceID()) {
+    return;
+  }
+
+  ServiceStatusObservers::DataType observers;
+  {
+    // an observer being registered at the same time is either told here or
+    // finds the new status itself
+    std::lock_guard lock(serviceStatusObservers_);
+    if (newStatus == serviceStatus_) {
+      return;
+    }
     serviceStatus_ = newStatus;
-    if (newStatus == Availability::Unavailable) {
-      serviceStatus_ = Availability::Unavailable;
-      clearAllRequests();
-      clearAllRegisterEntries();
+    observers = *serviceStatusObservers_;
+  }
+
+  if (newStatus == Availability::Unavailable) {
+    clearAllRequests();
+    clearAllRegisterEntries();
+  }
+
+  // observers might register and unregister observers
+  for (const auto &observer : observers) {
+    if (isServiceStatusObserver(observer)) {
+      notifyServiceStatus(observer, sid, oldStatus, newStatus);
     }
-    forwardServiceStatusToObservers(sid, oldStatus, newStatus);
   }
 }
 
-void ServiceRequester::forwardServiceStatusToObservers(const ServiceID &sid,
-                                                       Availability oldStatus,
-                                                       Availability newStatus) {
+bool ServiceRequester::isServiceStatusObserver(
+    const ServiceStatusObserverPtr &observer) const {
   std::lock_guard lock(serviceStatusObservers_);
-  for (auto itO = std::begin(*serviceStatusObservers_);
-       itO != std::end(*serviceStatusObservers_);) {
-    try {
-      (*itO)->onServiceStatusChanged(sid, oldStatus, newStatus);
-    } catch (const UnavailableException &) {
-      MAF_LOGGER_WARN(
-          "An observer of ", sid,
-          " is no longer available, then remove it from list observers");
-      itO = serviceStatusObservers_->erase(itO);
-      continue;
-    } catch (const std::exception &e) {
-      MAF_LOGGER_WARN("EXCEPTION: ", e.what(),
-                      " when notify service status change of ", sid);
-      throw;
-    } catch (...) {
-      MAF_LOGGER_WARN(
-          "UNKNOWN EXCEPTION occurred when notify service status change of ",
-          sid);
-      throw;
-    }
-    ++itO;
+  return std::find(serviceStatusObservers_->begin(),
+                   serviceStatusObservers_->end(),
+                   observer) != serviceStatusObservers_->end();
+}
+
+void ServiceRequester::notifyServiceStatus(
+    const ServiceStatusObserverPtr &observer, const ServiceID &sid,
+    Availability oldStatus, Availability newStatus) {
+  try {
+    observer->onServiceStatusChanged(sid, oldStatus, newStatus);
+  } catch (const UnavailableException &) {
+    MAF_LOGGER_WARN(
+        "An observer of ", sid,
+        " is no longer available, then remove it from list observers");
+    unregisterServiceStatusObserver(observer);
+  } catch (const std::exception &e) {
+    MAF_LOGGER_WARN("EXCEPTION: ", e.what(),
+                    " when notify service status change of ", sid);
+    throw;
+  } catch (...) {
+    MAF_LOGGER_WARN(
+        "UNKNOWN EXCEPTION occurred when notify service status change of ",
+        sid);
+    throw;
   }
 }
 
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 90a15f4..9de2d71 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -92,9 +92,10 @@ struct ServiceRequester : public ServiceRequesterIF {
                               Availability newStatus) override;
 
  private:
-  void forwardServiceStatusToObservers(const ServiceID &sid,
-                                       Availability oldStatus,
-                                       Availability newStatus);
+  bool isServiceStatusObserver(const ServiceStatusObserverPtr &observer) const;
+  void notifyServiceStatus(const ServiceStatusObserverPtr &observer,
+                           const ServiceID &sid, Availability oldStatus,
+                           Availability newStatus);
 
   RegID registerNotification(const OpID &opID, OpCode opCode,
                              CSPayloadProcessCallback callback,
-- 
2.43.0


From 772a7e34368c6815ef7c452703de467b2d31d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 30/57] fix: the cached property must follow its observers, and
 only they withdraw it

---
 .../client-server/ServiceRequester.cpp        | 71 ++++++++++---------
 .../client-server/ServiceRequester.h          |  4 +-
 2 files changed, 39 insertions(+), 36 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 2ba58a4..bd25984 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -37,9 +37,9 @@ bool ServiceRequester::onIncomingMessage(const CSMessagePtr &csMsg) {
         onRegistersUpdated(csMsg);
         break;
       case OpCode::StatusRegister: {
-        if (onRegistersUpdated(csMsg)) {
-          cachePropertyStatus(csMsg->operationID(), csMsg->payload());
-        }
+        // the observers are allowed to ask for the status or to unregister
+        cachePropertyStatus(csMsg->operationID(), csMsg->payload());
+        onRegistersUpdated(csMsg);
       } break;
       case OpCode::PartialRequestUpdate:
       case OpCode::Request:
@@ -326,11 +326,13 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
     }
 
     assign_ptr(callStatus, status);
-  } else if (opCode == OpCode::StatusRegister) {
-    if (auto cachedProperty = getCachedProperty(opID)) {
-      callback(cachedProperty);
-    }
+  } else {
     assign_ptr(callStatus, ActionCallStatus::Success);
+    if (opCode == OpCode::StatusRegister) {
+      if (auto cachedProperty = getCachedProperty(opID)) {
+        callback(cachedProperty);
+      }
+    }
   }
 
   return regID;
@@ -367,8 +369,8 @@ ActionCallStatus ServiceRequester::unregister(const RegID &regID) {
   auto callstatus = ActionCallStatus::Success;
   if (regID.valid()) {
     auto propertyID = regID.opID;
-    auto totalRemainer = removeRegEntry(registerEntriesMap_, regID);
-    if (totalRemainer == 0) {
+    auto removed = removeRegEntry(registerEntriesMap_, regID);
+    if (removed && !subscribingProperty(propertyID)) {
       // send unregister if no one from client side interested
       // in this propertyID anymore
       removeCachedProperty(propertyID);
@@ -391,9 +393,10 @@ ActionCallStatus ServiceRequester::unregisterAll(const OpID &propertyID) {
   if (serviceUnavailable()) {
     callstatus = ActionCallStatus::ServiceUnavailable;
   } else {
-    registerEntriesMap_.atomic()->erase(propertyID);
-    sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
-    removeCachedProperty(propertyID);
+    if (registerEntriesMap_.atomic()->erase(propertyID) != 0) {
+      sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
+      removeCachedProperty(propertyID);
+    }
   }
 
   return callstatus;
@@ -428,12 +431,12 @@ ActionCallStatus ServiceRequester::getStatus(
     callback(getCachedProperty(propertyID));
   } else {
     sendMessageAsync(propertyID, OpCode::StatusGet, {}, std::move(callback),
-                     nullptr);
+                     &callstatus);
   }
   return callstatus;
 }
 
-bool ServiceRequester::onRegistersUpdated(const CSMessagePtr &msg) {
+void ServiceRequester::onRegistersUpdated(const CSMessagePtr &msg) {
   std::vector<decltype(RegEntry::callback)> callbacks;
 
   {
@@ -457,7 +460,6 @@ bool ServiceRequester::onRegistersUpdated(const CSMessagePtr &msg) {
       callback(payload);
     }
   }
-  return !callbacks.empty();
 }
 
 void ServiceRequester::onRequestResult(const CSMessagePtr &msg) {
@@ -553,37 +555,33 @@ size_t ServiceRequester::storeRegEntry(RegEntriesMap &regInfoEntries,
   return regEntries.size();
 }
 
-size_t ServiceRequester::removeRegEntry(RegEntriesMap &regInfoEntriesMap,
-                                        const RegID &regID) {
+bool ServiceRequester::removeRegEntry(RegEntriesMap &regInfoEntriesMap,
+                                      const RegID &regID) {
   std::lock_guard lock(regInfoEntriesMap);
   auto itEntries = regInfoEntriesMap->find(regID.opID);
   if (itEntries != regInfoEntriesMap->end()) {
     auto &entries = itEntries->second;
-    for (auto itEntry = std::begin(entries); itEntry != std::end(entries);) {
-      if (itEntry->requestID == regID.requestID) {
-        entries.erase(itEntry);
-        break;
+    auto itEntry = std::find_if(
+        std::begin(entries), std::end(entries), [&regID](const auto &entry) {
+          return entry.requestID == regID.requestID;
+        });
+    if (itEntry != std::end(entries)) {
+      entries.erase(itEntry);
+      if (entries.empty()) {
+        regInfoEntriesMap->erase(itEntries);
       }
-      ++itEntry;
-    }
-
-    RegID::reclaimID(regID, this->idMgr_);
-
-    if (entries.empty()) {
-      regInfoEntriesMap->erase(itEntries);
-      return 0;
-    } else {
-      return itEntries->second.size();
+      RegID::reclaimID(regID, this->idMgr_);
+      return true;
     }
   }
-  return 0;
+  return false;
 }
 
 CSPayloadIFPtr ServiceRequester::getCachedProperty(
     const OpID &propertyID) const {
   std::lock_guard lock(propertiesCache_);
   if (auto itProp = propertiesCache_->find(propertyID);
-      itProp != propertiesCache_->end()) {
+      itProp != propertiesCache_->end() && itProp->second) {
     return CSPayloadIFPtr{itProp->second->clone()};
   }
   return {};
@@ -591,7 +589,12 @@ CSPayloadIFPtr ServiceRequester::getCachedProperty(
 
 void ServiceRequester::cachePropertyStatus(const OpID &propertyID,
                                            CSPayloadIFPtr &&property) {
-  propertiesCache_.atomic()->insert_or_assign(propertyID, std::move(property));
+  // only the status of properties being observed is kept up to date
+  std::lock_guard lock(registerEntriesMap_);
+  if (registerEntriesMap_->count(propertyID) != 0) {
+    propertiesCache_.atomic()->insert_or_assign(propertyID,
+                                                std::move(property));
+  }
 }
 
 void ServiceRequester::removeCachedProperty(const OpID &propertyID) {
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 9de2d71..e99b165 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -115,7 +115,7 @@ struct ServiceRequester : public ServiceRequesterIF {
   CSMessagePtr createCSMessage(const OpID &opID, OpCode opCode,
                                const CSPayloadIFPtr &msgContent = nullptr);
 
-  bool onRegistersUpdated(const CSMessagePtr &msg);
+  void onRegistersUpdated(const CSMessagePtr &msg);
   void onRequestResult(const CSMessagePtr &msg);
   void clearAllRequests();
   void clearAllRegisterEntries();
@@ -129,7 +129,7 @@ struct ServiceRequester : public ServiceRequesterIF {
   size_t storeRegEntry(RegEntriesMap &regInfoEntries, const OpID &propertyID,
                        CSPayloadProcessCallback callback, RegID &regID);
 
-  size_t removeRegEntry(RegEntriesMap &regInfoEntriesMap, const RegID &regID);
+  bool removeRegEntry(RegEntriesMap &regInfoEntriesMap, const RegID &regID);
 
   CSPayloadIFPtr getCachedProperty(const OpID &propertyID) const;
   void cachePropertyStatus(const OpID &propertyID, CSPayloadIFPtr &&property);
-- 
2.43.0


From eef7c71347566d79485cfe245ca310f1bd054cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:57 +0000
Subject: [PATCH 31/57] fix: a waiting request must return the final response,
 not an update

---
 .../client-server/ServiceRequester.cpp        | 25 ++++++++++++-------
 .../client-server/ServiceRequester.h          | 17 +++++++++----
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index bd25984..214dc21 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -178,10 +178,12 @@ RegID ServiceRequester::sendMessageAsync(const OpID &operationID,
                                          OpCode operationCode,
                                          const CSPayloadIFPtr &msgContent,
                                          CSPayloadProcessCallback callback,
-                                         ActionCallStatus *callStatus) {
+                                         ActionCallStatus *callStatus,
+                                         bool acceptUpdates) {
   auto csMsg = this->createCSMessage(operationID, operationCode, msgContent);
   return storeAndSendRequestToServer(requestEntriesMap_, csMsg,
-                                     std::move(callback), callStatus);
+                                     std::move(callback), callStatus,
+                                     acceptUpdates);
 }
 
 CSPayloadIFPtr ServiceRequester::sendMessageSync(
@@ -203,8 +205,10 @@ CSPayloadIFPtr ServiceRequester::sendMessageSync(
         asyncResponse->set_value(msg);
       };
 
-  auto regID = sendMessageAsync(operationID, opCode, msgContent,
-                                std::move(onSyncMsgCallback), callStatus);
+  // only the final response ends the waiting
+  auto regID =
+      sendMessageAsync(operationID, opCode, msgContent,
+                       std::move(onSyncMsgCallback), callStatus, false);
 
   if (regID.valid()) {
     try {
@@ -473,9 +477,11 @@ void ServiceRequester::onRequestResult(const CSMessagePtr &msg) {
       for (auto itRegEntry = regEntries.begin(); itRegEntry != regEntries.end();
            ++itRegEntry) {
         if (itRegEntry->requestID == msg->requestID()) {
-          callback = itRegEntry->callback;
           if (msg->operationCode() != OpCode::PartialRequestUpdate) {
+            callback = std::move(itRegEntry->callback);
             regEntries.erase(itRegEntry);
+          } else if (itRegEntry->acceptUpdates) {
+            callback = itRegEntry->callback;
           }
           found = true;
           break;
@@ -523,11 +529,12 @@ ActionCallStatus ServiceRequester::sendMessageToServer(
 
 RegID ServiceRequester::storeAndSendRequestToServer(
     RegEntriesMap &regEntriesMap, const CSMessagePtr &outgoingMsg,
-    CSPayloadProcessCallback callback, ActionCallStatus *callStatus) {
+    CSPayloadProcessCallback callback, ActionCallStatus *callStatus,
+    bool acceptUpdates) {
   RegID regID;
 
   storeRegEntry(regEntriesMap, outgoingMsg->operationID(), std::move(callback),
-                regID);
+                regID, acceptUpdates);
 
   outgoingMsg->setRequestID(regID.requestID);
   auto status = sendMessageToServer(outgoingMsg);
@@ -544,13 +551,13 @@ RegID ServiceRequester::storeAndSendRequestToServer(
 size_t ServiceRequester::storeRegEntry(RegEntriesMap &regInfoEntries,
                                        const OpID &propertyID,
                                        CSPayloadProcessCallback callback,
-                                       RegID &regID) {
+                                       RegID &regID, bool acceptUpdates) {
   RegID::allocateUniqueID(regID, idMgr_);
   regID.opID = propertyID;
 
   std::lock_guard lock(regInfoEntries);
   auto &regEntries = (*regInfoEntries)[propertyID];
-  regEntries.emplace_back(regID.requestID, std::move(callback));
+  regEntries.emplace_back(regID.requestID, std::move(callback), acceptUpdates);
   // means that already sent register for this propertyID to service
   return regEntries.size();
 }
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index e99b165..7dcbd97 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -22,10 +22,14 @@ struct ServiceRequester : public ServiceRequesterIF {
   struct RegEntry {
     RegID::RequestIDType requestID;
     CSPayloadProcessCallback callback;
+    bool acceptUpdates = true;
 
     RegEntry() = default;
-    RegEntry(RegID::RequestIDType requestID, CSPayloadProcessCallback callback)
-        : requestID(requestID), callback(std::move(callback)) {}
+    RegEntry(RegID::RequestIDType requestID, CSPayloadProcessCallback callback,
+             bool acceptUpdates)
+        : requestID(requestID),
+          callback(std::move(callback)),
+          acceptUpdates(acceptUpdates) {}
   };
 
   struct SyncRegEntry {
@@ -105,7 +109,8 @@ struct ServiceRequester : public ServiceRequesterIF {
   RegID sendMessageAsync(const OpID &operationID, OpCode operationCode,
                          const CSPayloadIFPtr &msgContent,
                          CSPayloadProcessCallback callback,
-                         ActionCallStatus *callStatus);
+                         ActionCallStatus *callStatus,
+                         bool acceptUpdates = true);
 
   CSPayloadIFPtr sendMessageSync(const OpID &operationID, OpCode opCode,
                                  const CSPayloadIFPtr &msgContent,
@@ -124,10 +129,12 @@ struct ServiceRequester : public ServiceRequesterIF {
   RegID storeAndSendRequestToServer(RegEntriesMap &regEntriesMap,
                                     const CSMessagePtr &outgoingMsg,
                                     CSPayloadProcessCallback callback,
-                                    ActionCallStatus *callStatus);
+                                    ActionCallStatus *callStatus,
+                                    bool acceptUpdates);
 
   size_t storeRegEntry(RegEntriesMap &regInfoEntries, const OpID &propertyID,
-                       CSPayloadProcessCallback callback, RegID &regID);
+                       CSPayloadProcessCallback callback, RegID &regID,
+                       bool acceptUpdates = true);
 
   bool removeRegEntry(RegEntriesMap &regInfoEntriesMap, const RegID &regID);
 
-- 
2.43.0


From 8b8e0a2cca9ef02d744fafae9a7b4542646bd80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:08 +0000
Subject: [PATCH 32/57] fix: a request racing the loss of its service must not
 be left pending

---
 .../client-server/ServiceRequester.cpp        | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 214dc21..e1c3fd7 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -7,6 +7,7 @@
 #include <maf/utils/Pointers.h>
 
 #include <algorithm>
+#include <utility>
 #include <variant>
 
 #define SET_ERROR_AND_RETURN_IF(condition, pErrorStore, errorValue, \
@@ -25,13 +26,14 @@ using util::assign_ptr;
 
 bool ServiceRequester::onIncomingMessage(const CSMessagePtr &csMsg) {
   bool handled = true;
-  MAF_LOGGER_INFO(
-      "ServiceRequester - New Incoming message from server:"
-      "\n\t\t sid     = ",
-      csMsg->serviceID(), "\n\t\t opID    = ", csMsg->operationID(),
-      "\n\t\t opCode  = ", csMsg->operationCode());
 
   if (csMsg && csMsg->serviceID() == serviceID()) {
+    MAF_LOGGER_INFO(
+        "ServiceRequester - New Incoming message from server:"
+        "\n\t\t sid     = ",
+        csMsg->serviceID(), "\n\t\t opID    = ", csMsg->operationID(),
+        "\n\t\t opCode  = ", csMsg->operationCode());
+
     switch (csMsg->operationCode()) {
       case OpCode::SignalRegister:
         onRegistersUpdated(csMsg);
@@ -115,6 +117,8 @@ void ServiceRequester::abortRequest(const RegID &regID,
     }
 
     assign_ptr(callStatus, status);
+  } else {
+    assign_ptr(callStatus, ActionCallStatus::NoAction);
   }
 }
 
@@ -167,7 +171,7 @@ void ServiceRequester::init() {}
 void ServiceRequester::deinit() {
   // Prematurely cancel the blocking requests that offers a chance to
   // waiting-thread to exit sooner then prevent some of tricky problems
-  requestEntriesMap_.atomic()->clear();
+  clearAllRequests();
 }
 
 bool ServiceRequester::serviceUnavailable() const noexcept {
@@ -323,7 +327,8 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
 
     registerMessage->setRequestID(regID.requestID);
 
-    auto status = sendMessageToServer(registerMessage);
+    auto status = serviceUnavailable() ? ActionCallStatus::ServiceUnavailable
+                                       : sendMessageToServer(registerMessage);
     if (status != ActionCallStatus::Success) {
       removeRegEntry(registerEntriesMap_, regID);
       regID.clear();
@@ -511,11 +516,12 @@ void ServiceRequester::onRequestResult(const CSMessagePtr &msg) {
 }
 
 void ServiceRequester::clearAllRequests() {
-  requestEntriesMap_.atomic()->clear();
+  // callbacks must not be destroyed under the lock
+  auto entries = std::exchange(*requestEntriesMap_.atomic(), {});
 }
 
 void ServiceRequester::clearAllRegisterEntries() {
-  registerEntriesMap_.atomic()->clear();
+  auto entries = std::exchange(*registerEntriesMap_.atomic(), {});
 }
 
 ActionCallStatus ServiceRequester::sendMessageToServer(
@@ -537,7 +543,9 @@ RegID ServiceRequester::storeAndSendRequestToServer(
                 regID, acceptUpdates);
 
   outgoingMsg->setRequestID(regID.requestID);
-  auto status = sendMessageToServer(outgoingMsg);
+  // the entry is released by the loss of the service only if that comes later
+  auto status = serviceUnavailable() ? ActionCallStatus::ServiceUnavailable
+                                     : sendMessageToServer(outgoingMsg);
   if (status != ActionCallStatus::Success) {
     removeRegEntry(regEntriesMap, regID);
     regID.clear();
-- 
2.43.0


From f6a811934ea9600d06b6bff7da5ad5536a04b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:21 +0000
Subject: [PATCH 33/57] fix: clients must be told that services end when their
 server shuts down

---
 src/common/maf/messaging/client-server/ServerBase.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServerBase.cpp b/src/common/maf/messaging/client-server/ServerBase.cpp
index 16fb8a8..3cd32cf 100644
--- a/src/common/maf/messaging/client-server/ServerBase.cpp
+++ b/src/common/maf/messaging/client-server/ServerBase.cpp
@@ -34,11 +34,15 @@ bool ServerBase::onIncomingMessage(const CSMessagePtr &csMsg) {
 bool ServerBase::init(const Address &) { return true; }
 
 void ServerBase::deinit() {
-  auto providers = std::move(*providers_.atomic());
+  // clients are told only about services that are still in the map
+  auto providers = *providers_.atomic();
 
   for (auto &[_, provider] : providers) {
     provider->stopServing();
   }
+
+  providers_.atomic()->clear();
+
   for (auto &[_, provider] : providers) {
     provider->deinit();
   }
-- 
2.43.0


From 065f06ca2f98c3016bf25a8745f7eb6c794e440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 34/57] fix: a send must succeed only when the whole frame was
 written

---
 .../ipc/LocalIPCBufferSenderImpl.cpp          | 54 +++++++++----------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index abdfb42..f097b8a 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -21,6 +21,19 @@ static bool connectable(sockaddr_un *sockaddr) {
   }
   return fd != INVALID_FD;
 }
+
+// A receiver that goes away while it is written to must not raise SIGPIPE
+static bool writeAll(SockFD fd, const char *bytes, size_t length) {
+  while (length > 0) {
+    auto written = ns_global::send(fd, bytes, length, MSG_NOSIGNAL);
+    if (written <= 0) {
+      return false;
+    }
+    bytes += written;
+    length -= static_cast<size_t>(written);
+  }
+  return true;
+}
 }  // namespace
 
 ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
@@ -45,40 +58,21 @@ ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
                                                 const SocketPath &sockpath) {
   ActionCallStatus acs = ActionCallStatus::FailedUnknown;
   if (auto fd = connectToSocket(sockpath); fd != INVALID_FD) {
-    SizeType totalWritten = 0;
     SizeType payloadSize = static_cast<SizeType>(payload.length());
 
-    // First write is to send payload size to receiver to reserve a buffer
-    if (auto written = ns_global::write(
-            fd, reinterpret_cast<char *>(&payloadSize), sizeof(SizeType));
-        written == sizeof(SizeType)) {
-      // Second write is to send payload content
-      do {
-        if (written = ns_global::write(fd, payload.data() + totalWritten,
-                                       payloadSize - totalWritten);
-            written != -1) {
-          totalWritten += written;
-        } else {
-          MAF_SOCKET_ERROR("Failed to send bytes to receiver, total written = ",
-                           totalWritten);
-          acs = ActionCallStatus::FailedUnknown;
-          break;
-        }
-      } while (totalWritten < payloadSize);
-
-      acs = ActionCallStatus::Success;
-    } else {
+    if (payloadSize != payload.length()) {
+      MAF_LOGGER_ERROR("Payload is too large to be sent: ", payload.length());
+    } else if (!writeAll(fd, reinterpret_cast<const char *>(&payloadSize),
+                         sizeof(SizeType))) {
+      // First write is to send payload size to receiver to reserve a buffer
       MAF_SOCKET_ERROR("Failed to send payload size[", payloadSize,
                        "] to receiver");
-    }
-
-    if (acs != ActionCallStatus::Success) {
-      if (totalWritten == 0) {
-      } else {
-        // ec = FailedUnknown, must provide more info for debugging purpose
-        MAF_LOGGER_ERROR("Failed to send payload to receiver, expected is ",
-                         sizeof(SizeType), ", sent was ", totalWritten);
-      }
+    } else if (!writeAll(fd, payload.data(), payload.length())) {
+      // Second write is to send payload content
+      MAF_SOCKET_ERROR("Failed to send payload to receiver, expected is ",
+                       payloadSize);
+    } else {
+      acs = ActionCallStatus::Success;
     }
   } else {
     acs = ActionCallStatus::ReceiverUnavailable;
-- 
2.43.0


From f19cd921043c93a62e729342c6711a8c3d349925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 35/57] fix: moving a descriptor guard must not close a
 descriptor it does not own

---
 .../maf/messaging/client-server/ipc/SocketShared.h     | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
index 08a58f3..b34a41d 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/SocketShared.h
@@ -25,7 +25,7 @@ class AutoCloseFD {
 
 public:
   AutoCloseFD(FileDescriptor fd_ = INVALID_VALUE) : fd{fd_} {}
-  AutoCloseFD(AutoCloseFD &&rhs) { takefrom(std::move(rhs)); }
+  AutoCloseFD(AutoCloseFD &&rhs) : fd{INVALID_VALUE} { takefrom(std::move(rhs)); }
   AutoCloseFD &operator=(AutoCloseFD &&rhs) {
     takefrom(std::move(rhs));
     return *this;
@@ -36,9 +36,11 @@ public:
 
 private:
   void takefrom(AutoCloseFD &&rhs) {
-    closeFD();
-    fd = rhs.fd;
-    rhs.fd = INVALID_VALUE;
+    if (this != &rhs) {
+      closeFD();
+      fd = rhs.fd;
+      rhs.fd = INVALID_VALUE;
+    }
   }
   void closeFD() {
     if (fd != INVALID_VALUE) {
-- 
2.43.0


From e3934f45853e05116fce946bd90340fc4601d358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 36/57] fix: an address that does not fit must not be built to
 check a receiver

---
 .../messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
index f097b8a..e3da08d 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferSenderImpl.cpp
@@ -43,6 +43,10 @@ ActionCallStatus LocalIPCBufferSenderImpl::send(const Buffer &payload,
 
 Availability LocalIPCBufferSenderImpl::checkReceiverStatus(
     const Address &destination) const {
+  if (!isValidSocketPath(destination.get_name())) {
+    return Availability::Unavailable;
+  }
+
   static thread_local sockaddr_un destSockAddr;
   static thread_local Address destAddr;
   if (destination != destAddr) {
-- 
2.43.0


From b489394c5df67c6bc67a05ba1e59b1864ca837c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:08 +0000
Subject: [PATCH 37/57] fix: a frame must be received whole, or not at all,
 however it is fragmented

---
 .../ipc/LocalIPCBufferReceiverImpl.cpp        | 56 +++++++++++++------
 1 file changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 9a22f2a..e37330e 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -6,6 +6,8 @@
 #include <stdlib.h>
 #include <sys/stat.h>
 
+#include <algorithm>
+
 #include "SocketShared.h"
 
 namespace maf {
@@ -13,6 +15,38 @@ namespace messaging {
 namespace ipc {
 namespace local {
 
+namespace {
+
+constexpr size_t MAX_READ_CHUNK = 64 * 1024;
+
+// Returns false if the peer fails or closes before `length` bytes have come
+bool readAll(SockFD fd, char *bytes, size_t length) {
+  while (length > 0) {
+    auto bytesRead = read(fd, bytes, length);
+    if (bytesRead <= 0) {
+      return false;
+    }
+    bytes += bytesRead;
+    length -= static_cast<size_t>(bytesRead);
+  }
+  return true;
+}
+
+// The buffer grows with the bytes that come, not with the length announced
+bool readPayload(SockFD fd, srz::Buffer &payload, size_t length) {
+  while (payload.size() < length) {
+    auto offset = payload.size();
+    auto chunk = std::min(length - offset, MAX_READ_CHUNK);
+    payload.resize(offset + chunk);
+    if (!readAll(fd, payload.data() + offset, chunk)) {
+      return false;
+    }
+  }
+  return true;
+}
+
+}  // namespace
+
 LocalIPCBufferReceiverImpl::~LocalIPCBufferReceiverImpl() { stop(); }
 
 bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
@@ -153,24 +187,14 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
       auto sd = fdClientSocks[i];
       if (FD_ISSET(sd, &readfds)) {
         SizeType messageLength = 0;
-        ssize_t totalRead = 0;
-        if (auto bytesRead = read(sd, reinterpret_cast<char *>(&messageLength),
-                                  sizeof(SizeType));
-            bytesRead == sizeof(SizeType)) {
+        if (readAll(sd, reinterpret_cast<char *>(&messageLength),
+                    sizeof(SizeType))) {
           auto payload = srz::Buffer{};
-          payload.resize(messageLength);
-          while (totalRead < messageLength) {
-            if (bytesRead = read(sd, payload.data() + totalRead, messageLength);
-                bytesRead != -1) {
-              totalRead += bytesRead;
-            } else {
-              MAF_SOCKET_ERROR("Could not read bytes from socket total read = ",
-                               totalRead, " total expected = ", messageLength);
-              break;
-            }
-          }
-          if (totalRead == messageLength) {
+          if (readPayload(sd, payload, messageLength)) {
             bytesComeCallback_(std::move(payload));
+          } else {
+            MAF_SOCKET_ERROR("Could not read bytes from socket total expected = ",
+                             messageLength);
           }
         }
         close(sd);
-- 
2.43.0


From af03534496b0d6ede7b72ac5fad51705319ee22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:12 +0000
Subject: [PATCH 38/57] fix: the receiver must own and close each of its
 descriptors

---
 .../ipc/LocalIPCBufferReceiverImpl.cpp        | 41 +++++++++++--------
 .../ipc/LocalIPCBufferReceiverImpl.h          |  2 +-
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index e37330e..d937851 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -55,11 +55,10 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
   auto sockpath = myaddr_.get_name();
   if (isValidSocketPath(sockpath)) {
     mySockAddr_ = createUnixAbstractSocketAddr(sockpath);
-    setState(State::Initialized);
     // Create the socket.
     int opt = true;
     fdMySock_ = socket(AF_UNIX, SOCK_STREAM, 0);
-    if (fdMySock_ != INVALID_FD &&
+    if (fdMySock_ != INVALID_FD && fdMySock_ < FD_SETSIZE &&
         (setsockopt(fdMySock_, SOL_SOCKET, SO_REUSEADDR,
                     reinterpret_cast<char *>(&opt), sizeof(opt)) >= 0)) {
       if (bind(fdMySock_, _2sockAddr(&mySockAddr_), sizeof(mySockAddr_)) >= 0) {
@@ -77,6 +76,9 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
     }
   }
 
+  if (!startable) {
+    fdMySock_.reset();
+  }
   return startable;
 }
 
@@ -89,7 +91,9 @@ bool LocalIPCBufferReceiverImpl::start() {
       return false;
     }
   } catch (StoppedInterruption) {
+    fdMySock_.reset();
   } catch (...) {
+    fdMySock_.reset();
     return false;
   }
   return true;
@@ -127,23 +131,28 @@ void LocalIPCBufferReceiverImpl::setObserver(BytesComeCallback callback) {
 bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
   auto maxSd = INVALID_FD;
   socklen_t sockLen = sizeof(mySockAddr_);
-  std::vector<int> fdClientSocks(MAXCLIENTS, 0);
+  std::vector<AutoCloseFD<SockFD>> fdClientSocks(MAXCLIENTS);
   fd_set readfds;
   do {
     // clear the socket set
     FD_ZERO(&readfds);
 
-    // add master socket to set
-    FD_SET(fdMySock_, &readfds);
+    // add master socket to set, new connections wait when there's no room
     maxSd = fdMySock_;
+    for (auto &sd : fdClientSocks) {
+      if (sd == INVALID_FD) {
+        FD_SET(fdMySock_, &readfds);
+        break;
+      }
+    }
 
     // add child sockets to set
     for (size_t i = 0; i < MAXCLIENTS; i++) {
       // socket descriptor
-      auto sd = fdClientSocks[i];
+      SockFD sd = fdClientSocks[i];
 
       // if valid socket descriptor then add to read list
-      if (sd > 0) FD_SET(sd, &readfds);
+      if (sd != INVALID_FD) FD_SET(sd, &readfds);
 
       // highest file descriptor number, need it for the select function
       if (sd > maxSd) maxSd = sd;
@@ -166,17 +175,18 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
     // If something happened on the master socket ,
     // then its an incoming connection
     if (FD_ISSET(fdMySock_, &readfds)) {
-      auto acceptedSD = accept(fdMySock_, _2sockAddr(&mySockAddr_), &sockLen);
-      if (acceptedSD < 0) {
+      AutoCloseFD<SockFD> acceptedSD =
+          accept(fdMySock_, _2sockAddr(&mySockAddr_), &sockLen);
+      if (acceptedSD == INVALID_FD || acceptedSD >= FD_SETSIZE) {
         MAF_LOGGER_ERROR("Failed on accepting new socket connection");
-        return false;
+        acceptedSD.reset();
       }
 
       // add new socket to array of sockets
       for (size_t i = 0; i < MAXCLIENTS; i++) {
         // if position is empty
-        if (fdClientSocks[i] == 0) {
-          fdClientSocks[i] = acceptedSD;
+        if (fdClientSocks[i] == INVALID_FD) {
+          fdClientSocks[i] = std::move(acceptedSD);
           break;
         }
       }
@@ -184,8 +194,8 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
 
     // else its some IO operation on some other socket
     for (size_t i = 0; i < MAXCLIENTS; i++) {
-      auto sd = fdClientSocks[i];
-      if (FD_ISSET(sd, &readfds)) {
+      SockFD sd = fdClientSocks[i];
+      if (sd != INVALID_FD && FD_ISSET(sd, &readfds)) {
         SizeType messageLength = 0;
         if (readAll(sd, reinterpret_cast<char *>(&messageLength),
                     sizeof(SizeType))) {
@@ -197,8 +207,7 @@ bool LocalIPCBufferReceiverImpl::waitAndProcessConnections() {
                              messageLength);
           }
         }
-        close(sd);
-        fdClientSocks[i] = 0;
+        fdClientSocks[i].reset();
       }
     }
   } while (true);
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
index 6678aac..683d7fa 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.h
@@ -46,7 +46,7 @@ class LocalIPCBufferReceiverImpl {
   BytesComeCallback bytesComeCallback_;
   Address myaddr_;
   sockaddr_un mySockAddr_;
-  int fdMySock_;
+  AutoCloseFD<SockFD> fdMySock_;
   std::atomic<State> state_ = State::Uninitialized;
 };
 
-- 
2.43.0


From 098290969ed999372cb4e573fe2aed249bbdf96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:14 +0000
Subject: [PATCH 39/57] fix: stopping a receiver must end it even when it has
 not started yet

---
 .../messaging/client-server/ipc/LocalIPCServer.cpp |  4 +---
 .../ipc/LocalIPCBufferReceiverImpl.cpp             | 14 +++++---------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
index 87a6adc..90e3e5f 100644
--- a/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
+++ b/src/common/maf/messaging/client-server/ipc/LocalIPCServer.cpp
@@ -35,9 +35,7 @@ bool LocalIPCServer::start() {
 }
 
 void LocalIPCServer::stop() {
-  if (pReceiver_->running()) {
-    pReceiver_->stop();
-  }
+  pReceiver_->stop();
   if (listeningThread_.joinable()) {
     listeningThread_.join();
   }
diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index d937851..6ce25b9 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -84,8 +84,8 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
 
 bool LocalIPCBufferReceiverImpl::start() {
   try {
-    if (getState() == State::Initialized) {
-      setState(State::Running);
+    auto expected = State::Initialized;
+    if (state_.compare_exchange_strong(expected, State::Running)) {
       waitAndProcessConnections();
     } else {
       return false;
@@ -100,13 +100,9 @@ bool LocalIPCBufferReceiverImpl::start() {
 }
 
 void LocalIPCBufferReceiverImpl::stop() {
-  if (running()) {
-    auto currentState = getState();
-    setState(State::Stopped);
-    // trying connect to socket to wake the running thread
-    if (currentState == State::WaitingConnection) {
-      connectToSocket(myaddr_.get_name());
-    }
+  // trying connect to socket to wake the running thread
+  if (state_.exchange(State::Stopped) == State::WaitingConnection) {
+    connectToSocket(myaddr_.get_name());
   }
 }
 
-- 
2.43.0


From 13a014b1e9ffe656e711489c5baa63d9c1789c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:23 +0000
Subject: [PATCH 40/57] fix: replacing an unanswered request must answer it as
 ignored

---
 include/maf/messaging/client-server/RequestT.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/maf/messaging/client-server/RequestT.h b/include/maf/messaging/client-server/RequestT.h
index 7799446..7da5674 100644
--- a/include/maf/messaging/client-server/RequestT.h
+++ b/include/maf/messaging/client-server/RequestT.h
@@ -36,7 +36,11 @@ PTrait::template getOperationID<Output>(),                \
  public:
   RequestT() = default;
   RequestT(RequestT &&) = default;
-  RequestT &operator=(RequestT &&) = default;
+  RequestT &operator=(RequestT &&rhs) {
+    // the request that is replaced must not be left without a response
+    RequestT{std::move(rhs)}.delegate_.swap(delegate_);
+    return *this;
+  }
 
   ~RequestT() {
     if (delegate_ && valid()) {
-- 
2.43.0


From 0067148af18c26af34b6f4604667a89286a674f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:09 +0000
Subject: [PATCH 41/57] fix: a receiver that could not be set up again must not
 start

---
 .../messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
index 6ce25b9..3f0826f 100644
--- a/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
+++ b/src/platforms/unix/maf/messaging/client-server/ipc/LocalIPCBufferReceiverImpl.cpp
@@ -78,6 +78,7 @@ bool LocalIPCBufferReceiverImpl::init(const Address &addr) {
 
   if (!startable) {
     fdMySock_.reset();
+    setState(State::Uninitialized);
   }
   return startable;
 }
-- 
2.43.0


From becd560592dbd4a3883c4e7dccebd13bff6ed2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:15 +0000
Subject: [PATCH 42/57] fix: a thread function that throws leaves no current
 processor behind

---
 src/common/maf/messaging/Processor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index e7f45d4..fae9df0 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -193,15 +193,18 @@ const ProcessorID &Processor::id() const noexcept { return d_->id; }
 
 void Processor::run(ThreadFunction threadInit, ThreadFunction threadDeinit) {
   auto justSet = this_processor::testAndSetThreadLocalInstance(this);
+  CallOnExit clearInstance = [justSet] {
+    this_processor::clearTLInstanceIfSet(justSet);
+  };
+
   if (threadInit) {
     threadInit();
   }
 
-  CallOnExit deinit = [justSet, threadDeinit = std::move(threadDeinit)] {
+  CallOnExit deinit = [threadDeinit = std::move(threadDeinit)] {
     if (threadDeinit) {
       threadDeinit();
     }
-    this_processor::clearTLInstanceIfSet(justSet);
   };
 
   ExecutionUPtr exc;
-- 
2.43.0


From cdf0f9e9f7d4e5b55c55120a2c4e02d46693f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 43/57] fix: enabling a log level leaves the other levels on

enable() and-ed the mask of allowed levels with the level, which
switched every other level off (and the level itself, if it was off).
---
 src/common/maf/logging/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/logging/Logger.cpp b/src/common/maf/logging/Logger.cpp
index 2aa992c..66528cc 100644
--- a/src/common/maf/logging/Logger.cpp
+++ b/src/common/maf/logging/Logger.cpp
@@ -43,7 +43,7 @@ bool allowed(LogLevel level) {
   return statics().allowedLevels.load(std::memory_order_relaxed) & level;
 }
 
-void enable(LogLevel level) { statics().allowedLevels &= level; }
+void enable(LogLevel level) { statics().allowedLevels |= level; }
 
 void disable(LogLevel level) { statics().allowedLevels &= ~level; }
 
-- 
2.43.0


From 846b6a068fb0e13bf70d3fb0f496b30bae7b5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:52 +0000
Subject: [PATCH 44/57] fix: the elements of a vector of bool are dumped

The elements of a vector<bool> are proxies, for which no dumper was
selected, so that nothing was written for them.
---
 include/maf/utils/serialization/Dumper.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/maf/utils/serialization/Dumper.h b/include/maf/utils/serialization/Dumper.h
index c1e4a57..b5f5f82 100644
--- a/include/maf/utils/serialization/Dumper.h
+++ b/include/maf/utils/serialization/Dumper.h
@@ -6,6 +6,7 @@
 #include <sstream>
 #include <string>
 #include <string_view>
+#include <vector>
 
 #include "JsonTrait.h"
 #include "Tuplizable.h"
@@ -230,6 +231,12 @@ void _dump(OStream &ds, bool val, int /*indentLevel*/) {
   ds << (val ? "true" : "false");
 }
 
+template <class OStream>
+void _dump(OStream &ds, const std::vector<bool>::reference &val,
+           int indentLevel) {
+  _dump(ds, static_cast<bool>(val), indentLevel);
+}
+
 template <class OStream, typename T>
 void _dump(OStream &ds, const T &val, int indentLevel) {
   details::DumperSFINAE<OStream, T>::write(ds, val, indentLevel);
-- 
2.43.0


From 3e64bf6855fe877bebf7c93ede56665b5b26cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 45/57] fix: a refused registration for a bare signal reports
 its status

Registering for a signal without attributes left the caller's status
untouched when there was no callback or no executor, unlike every other
registration.
---
 include/maf/messaging/client-server/BasicProxy.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/maf/messaging/client-server/BasicProxy.h b/include/maf/messaging/client-server/BasicProxy.h
index df4dc15..90a2019 100644
--- a/include/maf/messaging/client-server/BasicProxy.h
+++ b/include/maf/messaging/client-server/BasicProxy.h
@@ -379,11 +379,13 @@ RegID BasicProxy<PTrait>::registerSignal(
       return requester_->registerSignal(signalID, std::move(asyncHandler),
                                         callStatus);
     } else {
+      util::assign_ptr(callStatus, ActionCallStatus::InvalidParam);
       MAF_LOGGER_ERROR("Executer for BasicProxy of service id `",
                        requester_->serviceID(),
                        "` has not been set yet(nullptr)!");
     }
   } else {
+    util::assign_ptr(callStatus, ActionCallStatus::InvalidParam);
     MAF_LOGGER_ERROR("Registering signal id[, ", signalID,
                      "] failed, Please provide non-empty callback");
   }
-- 
2.43.0


From 2402e3bd3a154a921d3264d2026729905f2ce163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:27 +0000
Subject: [PATCH 46/57] fix: a time measurement reports only once when its
 report fails

---
 include/maf/utils/TimeMeasurement.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/utils/TimeMeasurement.h b/include/maf/utils/TimeMeasurement.h
index a6c6a66..338a49b 100644
--- a/include/maf/utils/TimeMeasurement.h
+++ b/include/maf/utils/TimeMeasurement.h
@@ -42,9 +42,9 @@ class TimeMeasurement : public TimeCounter {
 
   MicroSeconds stop() {
     auto elapsed = this->elapsedTime();
-    if (_onReportCallback) {
-      _onReportCallback(elapsed);
+    if (auto callback = std::move(_onReportCallback)) {
       _onReportCallback = nullptr;
+      callback(elapsed);
     }
     return elapsed;
   }
-- 
2.43.0


From 9527fcad963f828402e7ab1603b7eb3d01a1a062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:24 +0000
Subject: [PATCH 47/57] fix: dereferencing an atomic session gives the guarded
 object, not a copy of it

---
 include/maf/threading/AtomicObject.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/threading/AtomicObject.h b/include/maf/threading/AtomicObject.h
index 612e28b..b840b03 100644
--- a/include/maf/threading/AtomicObject.h
+++ b/include/maf/threading/AtomicObject.h
@@ -42,7 +42,7 @@ class AtomicObject : public pattern::UnCopyable {
     decltype(auto) operator->() {
       return std::addressof(this->pointed_->data_);
     }
-    decltype(auto) operator*() { return this->pointed_->data_; }
+    decltype(auto) operator*() { return (this->pointed_->data_); }
   };
 
   template <class _D>
@@ -71,7 +71,7 @@ class AtomicObject : public pattern::UnCopyable {
     decltype(auto) operator->() const {
       return std::addressof(Base_::pointed_->data_);
     }
-    decltype(auto) operator*() const { return this->pointed_->data_; }
+    decltype(auto) operator*() const { return (this->pointed_->data_); }
   };
 
   template <class _D, class _M>
-- 
2.43.0


From cf33da62630c2ece5af1e5c17f81b5a6feb9d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:13 +0000
Subject: [PATCH 48/57] fix: an atomic session can take over another one,
 releasing its own guard

---
 include/maf/threading/AtomicObject.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/maf/threading/AtomicObject.h b/include/maf/threading/AtomicObject.h
index b840b03..0c5e3e2 100644
--- a/include/maf/threading/AtomicObject.h
+++ b/include/maf/threading/AtomicObject.h
@@ -19,8 +19,8 @@ class AtomicObject : public pattern::UnCopyable {
     }
 
     AtomicRefBase_ &operator=(AtomicRefBase_ &&other) {
-      pointed_ = other.pointed_;
-      other.pointed_ = nullptr;
+      std::swap(pointed_, other.pointed_);
+      return *this;
     }
 
     ~AtomicRefBase_() {
-- 
2.43.0


From 44a6104e1bfc7303873a068bdbd1d9dd1936c976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:25 +0000
Subject: [PATCH 49/57] fix: an execution bound to a processor can be called
 more than once

---
 src/common/maf/messaging/Processor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index fae9df0..712e221 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -346,7 +346,7 @@ Processor::Executor Processor::getBlockingExecutor() {
 Execution Processor::willExecuteOnThis(Execution exec) {
   return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
     if (auto processor = wprocessor.lock()) {
-      processor->execute(move(exec));
+      processor->execute(exec);
     }
   };
 }
@@ -354,7 +354,7 @@ Execution Processor::willExecuteOnThis(Execution exec) {
 Execution Processor::willAsyncExecuteOnThis(Execution exec) {
   return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
     if (auto processor = wprocessor.lock()) {
-      processor->executeAsync(move(exec));
+      processor->executeAsync(exec);
     }
   };
 }
@@ -362,7 +362,7 @@ Execution Processor::willAsyncExecuteOnThis(Execution exec) {
 Execution Processor::willBlockingExecuteOnThis(Execution exec) {
   return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
     if (auto processor = wprocessor.lock()) {
-      processor->waitableExecute(move(exec)).wait();
+      processor->waitableExecute(exec).wait();
     }
   };
 }
-- 
2.43.0


From cc68a10f66d5e00a1728cf4ae47fdc34edbe551c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:35 +0000
Subject: [PATCH 50/57] fix: a blocking execution bound to a processor that has
 stopped does not throw

---
 src/common/maf/messaging/Processor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/Processor.cpp b/src/common/maf/messaging/Processor.cpp
index 712e221..b05474d 100644
--- a/src/common/maf/messaging/Processor.cpp
+++ b/src/common/maf/messaging/Processor.cpp
@@ -362,7 +362,9 @@ Execution Processor::willAsyncExecuteOnThis(Execution exec) {
 Execution Processor::willBlockingExecuteOnThis(Execution exec) {
   return [wprocessor = this->weak_from_this(), exec = move(exec)]() mutable {
     if (auto processor = wprocessor.lock()) {
-      processor->waitableExecute(exec).wait();
+      if (auto done = processor->waitableExecute(exec); done.valid()) {
+        done.wait();
+      }
     }
   };
 }
-- 
2.43.0


From 308bbded2e566391f3bcc71a62eef4655b3baed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:06 +0000
Subject: [PATCH 51/57] fix: restarting a blocking timer begins its interval
 anew

---
 src/common/maf/messaging/SyncTimer.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/common/maf/messaging/SyncTimer.cpp b/src/common/maf/messaging/SyncTimer.cpp
index 564b805..4b521d1 100644
--- a/src/common/maf/messaging/SyncTimer.cpp
+++ b/src/common/maf/messaging/SyncTimer.cpp
@@ -17,6 +17,7 @@ struct SyncTimerDataPrv {
   std::atomic_bool running = false;
   bool cyclic = false;
   unsigned long long generation = 0;
+  unsigned restarts = 0;
 };
 
 SyncTimer::SyncTimer(bool cyclic)
@@ -52,7 +53,16 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
     d_->running = true;
 
     do {
-      if (!d_->timeoutCondition.wait_for(lock, milliseconds, stopped)) {
+      unsigned restarts;
+      bool interrupted;
+      do {
+        restarts = d_->restarts;
+        interrupted = d_->timeoutCondition.wait_for(
+            lock, milliseconds,
+            [&] { return stopped() || d_->restarts != restarts; });
+      } while (interrupted && !stopped());
+
+      if (!interrupted) {
         if (executor) {
           executor->execute(callback);  // may still be made cyclic meanwhile
         } else {
@@ -72,7 +82,11 @@ void SyncTimer::start(std::chrono::milliseconds milliseconds,
   }
 }
 
-void SyncTimer::restart() { d_->timeoutCondition.notify_one(); }
+void SyncTimer::restart() {
+  std::lock_guard lock(d_->mutex);
+  ++d_->restarts;
+  d_->timeoutCondition.notify_all();
+}
 
 void SyncTimer::stop() {
   std::lock_guard lock(d_->mutex);
-- 
2.43.0


From 139ced56112cc584dbc19926528a09c80089acff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:42 +0000
Subject: [PATCH 52/57] fix: an observer registered while the last one leaves
 is not withdrawn with it

---
 .../client-server/ServiceRequester.cpp        | 33 ++++++++++++++++---
 .../client-server/ServiceRequester.h          | 10 ++++--
 2 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index e1c3fd7..12f6a8f 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -321,7 +321,7 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
 
   RegID regID;
   auto sameRegisterCount =
-      storeRegEntry(registerEntriesMap_, opID, callback, regID);
+      storeRegEntry(registerEntriesMap_, opID, callback, regID, true, opCode);
   if (sameRegisterCount == 1) {
     auto registerMessage = createCSMessage(opID, opCode);
 
@@ -386,7 +386,7 @@ ActionCallStatus ServiceRequester::unregister(const RegID &regID) {
       if (serviceUnavailable()) {
         callstatus = ActionCallStatus::ServiceUnavailable;
       } else {
-        sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
+        withdrawInterest(propertyID);
       }
     }
   } else {
@@ -403,8 +403,8 @@ ActionCallStatus ServiceRequester::unregisterAll(const OpID &propertyID) {
     callstatus = ActionCallStatus::ServiceUnavailable;
   } else {
     if (registerEntriesMap_.atomic()->erase(propertyID) != 0) {
-      sendMessageToServer(createCSMessage(propertyID, OpCode::Unregister));
       removeCachedProperty(propertyID);
+      withdrawInterest(propertyID);
     }
   }
 
@@ -559,13 +559,15 @@ RegID ServiceRequester::storeAndSendRequestToServer(
 size_t ServiceRequester::storeRegEntry(RegEntriesMap &regInfoEntries,
                                        const OpID &propertyID,
                                        CSPayloadProcessCallback callback,
-                                       RegID &regID, bool acceptUpdates) {
+                                       RegID &regID, bool acceptUpdates,
+                                       OpCode opCode) {
   RegID::allocateUniqueID(regID, idMgr_);
   regID.opID = propertyID;
 
   std::lock_guard lock(regInfoEntries);
   auto &regEntries = (*regInfoEntries)[propertyID];
-  regEntries.emplace_back(regID.requestID, std::move(callback), acceptUpdates);
+  regEntries.emplace_back(regID.requestID, std::move(callback), acceptUpdates,
+                          opCode);
   // means that already sent register for this propertyID to service
   return regEntries.size();
 }
@@ -592,6 +594,27 @@ bool ServiceRequester::removeRegEntry(RegEntriesMap &regInfoEntriesMap,
   return false;
 }
 
+void ServiceRequester::withdrawInterest(const OpID &opID) {
+  do {
+    sendMessageToServer(createCSMessage(opID, OpCode::Unregister));
+
+    // An observer that came meanwhile has announced itself before that: it must
+    // not be withdrawn with the ones that left
+    CSMessagePtr registerMessage;
+    {
+      std::lock_guard lock(registerEntriesMap_);
+      auto it = registerEntriesMap_->find(opID);
+      if (it == registerEntriesMap_->end()) {
+        return;
+      }
+      auto &entry = it->second.front();
+      registerMessage = createCSMessage(opID, entry.opCode);
+      registerMessage->setRequestID(entry.requestID);
+    }
+    sendMessageToServer(registerMessage);
+  } while (!subscribingProperty(opID));
+}
+
 CSPayloadIFPtr ServiceRequester::getCachedProperty(
     const OpID &propertyID) const {
   std::lock_guard lock(propertiesCache_);
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 7dcbd97..6b77079 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -23,13 +23,15 @@ struct ServiceRequester : public ServiceRequesterIF {
     RegID::RequestIDType requestID;
     CSPayloadProcessCallback callback;
     bool acceptUpdates = true;
+    OpCode opCode = OpCode::Request;
 
     RegEntry() = default;
     RegEntry(RegID::RequestIDType requestID, CSPayloadProcessCallback callback,
-             bool acceptUpdates)
+             bool acceptUpdates, OpCode opCode)
         : requestID(requestID),
           callback(std::move(callback)),
-          acceptUpdates(acceptUpdates) {}
+          acceptUpdates(acceptUpdates),
+          opCode(opCode) {}
   };
 
   struct SyncRegEntry {
@@ -134,9 +136,11 @@ struct ServiceRequester : public ServiceRequesterIF {
 
   size_t storeRegEntry(RegEntriesMap &regInfoEntries, const OpID &propertyID,
                        CSPayloadProcessCallback callback, RegID &regID,
-                       bool acceptUpdates = true);
+                       bool acceptUpdates = true,
+                       OpCode opCode = OpCode::Request);
 
   bool removeRegEntry(RegEntriesMap &regInfoEntriesMap, const RegID &regID);
+  void withdrawInterest(const OpID &opID);
 
   CSPayloadIFPtr getCachedProperty(const OpID &propertyID) const;
   void cachePropertyStatus(const OpID &propertyID, CSPayloadIFPtr &&property);
-- 
2.43.0


From f0cbaaa3fbc027f7c1d7da29489a0898370a9045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:54 +0000
Subject: [PATCH 53/57] fix: an observer that registers while its property
 changes is left with the last value

---
 .../client-server/ServiceRequester.cpp        | 69 +++++++++++--------
 .../client-server/ServiceRequester.h          |  7 +-
 2 files changed, 45 insertions(+), 31 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 12f6a8f..7f86c02 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -36,13 +36,9 @@ bool ServiceRequester::onIncomingMessage(const CSMessagePtr &csMsg) {
 
     switch (csMsg->operationCode()) {
       case OpCode::SignalRegister:
+      case OpCode::StatusRegister:
         onRegistersUpdated(csMsg);
         break;
-      case OpCode::StatusRegister: {
-        // the observers are allowed to ask for the status or to unregister
-        cachePropertyStatus(csMsg->operationID(), csMsg->payload());
-        onRegistersUpdated(csMsg);
-      } break;
       case OpCode::PartialRequestUpdate:
       case OpCode::Request:
       case OpCode::StatusGet:
@@ -320,9 +316,33 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
                           {});
 
   RegID regID;
-  auto sameRegisterCount =
-      storeRegEntry(registerEntriesMap_, opID, callback, regID, true, opCode);
-  if (sameRegisterCount == 1) {
+  RegID::allocateUniqueID(regID, idMgr_);
+  regID.opID = opID;
+
+  // A further observer is told the cached status before it gets the updates, so
+  // that it's not left with an older status than the last one received
+  bool first = false;
+  for (CSPayloadIFPtr told;;) {
+    {
+      std::lock_guard lock(registerEntriesMap_);
+      auto &regEntries = (*registerEntriesMap_)[opID];
+      auto current = regEntries.empty() || opCode != OpCode::StatusRegister
+                         ? told
+                         : findCachedProperty(opID);
+      if (current == told) {
+        first = regEntries.empty();
+        regEntries.emplace_back(regID.requestID, std::move(callback), true,
+                                opCode);
+        break;
+      }
+      told = std::move(current);
+    }
+    // a callback might be good for one call only
+    auto tell = callback;
+    tell(CSPayloadIFPtr{told ? told->clone() : nullptr});
+  }
+
+  if (first) {
     auto registerMessage = createCSMessage(opID, opCode);
 
     registerMessage->setRequestID(regID.requestID);
@@ -337,11 +357,6 @@ RegID ServiceRequester::registerNotification(const OpID &opID, OpCode opCode,
     assign_ptr(callStatus, status);
   } else {
     assign_ptr(callStatus, ActionCallStatus::Success);
-    if (opCode == OpCode::StatusRegister) {
-      if (auto cachedProperty = getCachedProperty(opID)) {
-        callback(cachedProperty);
-      }
-    }
   }
 
   return regID;
@@ -452,6 +467,11 @@ void ServiceRequester::onRegistersUpdated(const CSMessagePtr &msg) {
     std::lock_guard lock(registerEntriesMap_);
     auto it = registerEntriesMap_->find(msg->operationID());
     if (it != registerEntriesMap_->end()) {
+      // the observers are allowed to ask for the status or to unregister
+      if (msg->operationCode() == OpCode::StatusRegister) {
+        propertiesCache_.atomic()->insert_or_assign(msg->operationID(),
+                                                    msg->payload());
+      }
       for (auto &regEntry : it->second) {
         callbacks.push_back(regEntry.callback);
       }
@@ -559,15 +579,13 @@ RegID ServiceRequester::storeAndSendRequestToServer(
 size_t ServiceRequester::storeRegEntry(RegEntriesMap &regInfoEntries,
                                        const OpID &propertyID,
                                        CSPayloadProcessCallback callback,
-                                       RegID &regID, bool acceptUpdates,
-                                       OpCode opCode) {
+                                       RegID &regID, bool acceptUpdates) {
   RegID::allocateUniqueID(regID, idMgr_);
   regID.opID = propertyID;
 
   std::lock_guard lock(regInfoEntries);
   auto &regEntries = (*regInfoEntries)[propertyID];
-  regEntries.emplace_back(regID.requestID, std::move(callback), acceptUpdates,
-                          opCode);
+  regEntries.emplace_back(regID.requestID, std::move(callback), acceptUpdates);
   // means that already sent register for this propertyID to service
   return regEntries.size();
 }
@@ -615,6 +633,13 @@ void ServiceRequester::withdrawInterest(const OpID &opID) {
   } while (!subscribingProperty(opID));
 }
 
+CSPayloadIFPtr ServiceRequester::findCachedProperty(
+    const OpID &propertyID) const {
+  std::lock_guard lock(propertiesCache_);
+  auto itProp = propertiesCache_->find(propertyID);
+  return itProp != propertiesCache_->end() ? itProp->second : nullptr;
+}
+
 CSPayloadIFPtr ServiceRequester::getCachedProperty(
     const OpID &propertyID) const {
   std::lock_guard lock(propertiesCache_);
@@ -625,16 +650,6 @@ CSPayloadIFPtr ServiceRequester::getCachedProperty(
   return {};
 }
 
-void ServiceRequester::cachePropertyStatus(const OpID &propertyID,
-                                           CSPayloadIFPtr &&property) {
-  // only the status of properties being observed is kept up to date
-  std::lock_guard lock(registerEntriesMap_);
-  if (registerEntriesMap_->count(propertyID) != 0) {
-    propertiesCache_.atomic()->insert_or_assign(propertyID,
-                                                std::move(property));
-  }
-}
-
 void ServiceRequester::removeCachedProperty(const OpID &propertyID) {
   propertiesCache_.atomic()->erase(propertyID);
 }
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index 6b77079..e6130c6 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -27,7 +27,7 @@ struct ServiceRequester : public ServiceRequesterIF {
 
     RegEntry() = default;
     RegEntry(RegID::RequestIDType requestID, CSPayloadProcessCallback callback,
-             bool acceptUpdates, OpCode opCode)
+             bool acceptUpdates, OpCode opCode = OpCode::Request)
         : requestID(requestID),
           callback(std::move(callback)),
           acceptUpdates(acceptUpdates),
@@ -136,14 +136,13 @@ struct ServiceRequester : public ServiceRequesterIF {
 
   size_t storeRegEntry(RegEntriesMap &regInfoEntries, const OpID &propertyID,
                        CSPayloadProcessCallback callback, RegID &regID,
-                       bool acceptUpdates = true,
-                       OpCode opCode = OpCode::Request);
+                       bool acceptUpdates = true);
 
   bool removeRegEntry(RegEntriesMap &regInfoEntriesMap, const RegID &regID);
   void withdrawInterest(const OpID &opID);
 
+  CSPayloadIFPtr findCachedProperty(const OpID &propertyID) const;
   CSPayloadIFPtr getCachedProperty(const OpID &propertyID) const;
-  void cachePropertyStatus(const OpID &propertyID, CSPayloadIFPtr &&property);
   void removeCachedProperty(const OpID &propertyID);
   bool cachedPropertyUpToDate(const OpID &propertyID) const;
   bool subscribingProperty(const OpID &propertyID) const;
-- 
2.43.0


From 77b9d1dfb8a2e6a5729e59a5020a251ac3154e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:21 +0000
Subject: [PATCH 54/57] fix: a status observer that registers while its service
 ends is not left believing it available

---
 .../client-server/ServiceRequester.cpp        | 56 +++++++++++++++----
 .../client-server/ServiceRequester.h          |  2 +
 2 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index 7f86c02..ef88308 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -121,30 +121,62 @@ void ServiceRequester::abortRequest(const RegID &regID,
 void ServiceRequester::registerServiceStatusObserver(
     ServiceStatusObserverPtr observer) {
   if (observer) {
-    Availability currentServiceStatus;
+    auto &newObservers = newServiceStatusObservers_;
+    auto find = [&newObservers, &observer] {
+      return std::find(newObservers.begin(), newObservers.end(), observer);
+    };
+    auto accept = [this, &newObservers](auto it) {
+      serviceStatusObservers_->splice(serviceStatusObservers_->end(),
+                                      newObservers, it);
+    };
     {
-      // both getting serviceStatus and pushing observer
-      // to list must be in critical section to make sure
-      // observer will never be missed the latest status event
       std::lock_guard lock(serviceStatusObservers_);
-      currentServiceStatus = serviceStatus();
-      serviceStatusObservers_->push_back(observer);
+      newObservers.push_back(observer);
     }
-
-    if (currentServiceStatus == Availability::Available) {
+    // Until the observer has been told the latest status it's not told the
+    // changes, so that it's not left with an older status than that
+    for (auto told = Availability::Unknown;;) {
+      auto currentServiceStatus = Availability::Unknown;
+      {
+        // both getting serviceStatus and pushing observer
+        // to list must be in critical section to make sure
+        // observer will never be missed the latest status event
+        std::lock_guard lock(serviceStatusObservers_);
+        auto it = find();
+        if (it == newObservers.end()) {
+          break;  // has unregistered meanwhile
+        }
+        currentServiceStatus = serviceStatus();
+        if (currentServiceStatus == told ||
+            (told == Availability::Unknown &&
+             currentServiceStatus != Availability::Available)) {
+          accept(it);
+          break;
+        }
+      }
       // dont execute notification in critical section,
       // that might block other thread to update service status
       // when status has changed
-      notifyServiceStatus(observer, serviceID(), Availability::Unknown,
-                          Availability::Available);
+      try {
+        notifyServiceStatus(observer, serviceID(), told, currentServiceStatus);
+      } catch (...) {
+        std::lock_guard lock(serviceStatusObservers_);
+        if (auto it = find(); it != newObservers.end()) {
+          accept(it);
+        }
+        throw;
+      }
+      told = currentServiceStatus;
     }
   }
 }
 
 void ServiceRequester::unregisterServiceStatusObserver(
     const ServiceStatusObserverPtr &observer) {
-  serviceStatusObservers_.atomic()->remove_if(
-      [&observer](const auto &obsv) { return obsv == observer; });
+  auto isObserver = [&observer](const auto &obsv) { return obsv == observer; };
+  std::lock_guard lock(serviceStatusObservers_);
+  serviceStatusObservers_->remove_if(isObserver);
+  newServiceStatusObservers_.remove_if(isObserver);
 }
 
 CSPayloadIFPtr ServiceRequester::sendRequest(const OpID &opID,
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index e6130c6..adc03bf 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -150,6 +150,8 @@ struct ServiceRequester : public ServiceRequesterIF {
   RegEntriesMap registerEntriesMap_;
   RegEntriesMap requestEntriesMap_;
   ServiceStatusObservers serviceStatusObservers_;
+  // not told the latest status yet; locked with serviceStatusObservers_
+  std::list<ServiceStatusObserverPtr> newServiceStatusObservers_;
   CSMsgContentMap propertiesCache_;
   std::weak_ptr<ClientIF> client_;
   CSIDManager idMgr_;
-- 
2.43.0


From ffffe7aa3f1c91508f206cd2a238af6f949e1730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:21 +0000
Subject: [PATCH 55/57] fix: a client that registers while a property changes
 is left with the last value

---
 .../client-server/ServiceProvider.cpp         | 42 ++++++++++++++-----
 .../messaging/client-server/ServiceProvider.h |  4 +-
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 65f46a4..5e18983 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -245,10 +245,29 @@ ActionCallStatus ServiceProvider::sendBackMessageToClient(
 }
 
 void ServiceProvider::onStatusChangeRegister(const CSMessagePtr &msg) {
-  // Do this for notifying status when changed
-  saveRegisterInfo(msg);
-  // Do this for server to update latest status for new registered client
-  updateLatestStatus(msg);
+  // The latest status is sent to a client before the changes, so that it's not
+  // left with an older status than the one published last
+  const Registration registration{msg->sourceAddress(), msg->operationID()};
+  registering_.atomic()->insert(registration);
+  for (CSPayloadIFPtr sent;;) {
+    {
+      std::lock_guard lock(propertyMap_);
+      auto it = propertyMap_->find(msg->operationID());
+      auto current = it != propertyMap_->end() ? it->second : nullptr;
+      if (current == sent) {
+        // Might have been withdrawn meanwhile
+        if (registering_.atomic()->erase(registration) != 0) {
+          // Do this for notifying status when changed
+          saveRegisterInfo(msg);
+        }
+        break;
+      }
+      sent = std::move(current);
+    }
+    sendBackMessageToClient(createCSMessage(
+        msg->serviceID(), msg->operationID(), msg->operationCode(),
+        msg->requestID(), sent, msg->sourceAddress()));
+  }
 }
 
 void ServiceProvider::onStatusChangeUnregister(const CSMessagePtr &msg) {
@@ -306,14 +325,22 @@ void ServiceProvider::saveRegisterInfo(const CSMessagePtr &msg) {
 }
 
 void ServiceProvider::removeRegisterInfo(const CSMessagePtr &msg) {
+  registering_.atomic()->erase({msg->sourceAddress(), msg->operationID()});
   (*regEntriesMap_.atomic())[msg->sourceAddress()].erase(msg->operationID());
 }
 
 void ServiceProvider::removeAllRegisterInfo() {
+  registering_.atomic()->clear();
   regEntriesMap_.atomic()->clear();
 }
 
 void ServiceProvider::removeRegistersOfAddress(const Address &addr) {
+  {
+    std::lock_guard lock(registering_);
+    for (auto it = registering_->begin(); it != registering_->end();) {
+      it = it->first == addr ? registering_->erase(it) : std::next(it);
+    }
+  }
   regEntriesMap_.atomic()->erase(addr);
 }
 
@@ -368,13 +395,6 @@ signal_slots::Connection ServiceProvider::registerNotification(
   return (*serverSideListenersMap_)[opID].connect(move(callback));
 }
 
-void ServiceProvider::updateLatestStatus(const CSMessagePtr &registerMsg) {
-  if (auto currentStatus = getStatus(registerMsg->operationID())) {
-    registerMsg->setPayload(currentStatus);
-    sendBackMessageToClient(registerMsg);
-  }
-}
-
 void ServiceProvider::onStatusGetRequest(const CSMessagePtr &getMsg) {
   if (auto status = getStatus(getMsg->operationID())) {
     getMsg->setPayload(std::move(status));
diff --git a/src/common/maf/messaging/client-server/ServiceProvider.h b/src/common/maf/messaging/client-server/ServiceProvider.h
index 8238614..73850f6 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.h
+++ b/src/common/maf/messaging/client-server/ServiceProvider.h
@@ -27,6 +27,8 @@ class ServiceProvider : public ServiceProviderIF,
   using ServerSideListenersMap                    = OpIDMap<PropertyStatusChangedSignal>;
   using RequestHandlerMap                         = OpIDMap<RequestHandlerFunction>;
   using Address2OpIDsMap                          = threading::Lockable<std::map<Address, std::set<OpID>>>;
+  using Registration                              = std::pair<Address, OpID>;
+  using RegisteringSet                            = threading::Lockable<std::set<Registration>>;
   // clang-format on
  public:
   ServiceProvider(ServiceID sid, std::weak_ptr<ServerIF> server);
@@ -86,7 +88,6 @@ class ServiceProvider : public ServiceProviderIF,
   void onClientGoesOff(const CSMessagePtr &msg);
 
   void onActionRequest(const CSMessagePtr &msg);
-  void updateLatestStatus(const CSMessagePtr &registerMsg);
   void onStatusGetRequest(const CSMessagePtr &getMsg);
   RequestHandlerFunction getRequestHandlerCallback(const OpID &opID);
 
@@ -94,6 +95,7 @@ class ServiceProvider : public ServiceProviderIF,
   // clang-format off
   ServiceID                    sid_;
   Address2OpIDsMap             regEntriesMap_;
+  RegisteringSet               registering_;
   RequestMap                   requestsMap_;
   std::weak_ptr<ServerIF>      server_;
   PropertyMap                  propertyMap_;
-- 
2.43.0


From 24db4954b1df69898bd8ff953a883d97b3dcae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:30 +0000
Subject: [PATCH 56/57] fix: status observers are told changes from several
 threads in their order

---
 .../client-server/ServiceRequester.cpp        | 36 +++++++++++++++----
 .../client-server/ServiceRequester.h          |  9 +++++
 2 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/common/maf/messaging/client-server/ServiceRequester.cpp b/src/common/maf/messaging/client-server/ServiceRequester.cpp
index ef88308..2d920f7 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.cpp
+++ b/src/common/maf/messaging/client-server/ServiceRequester.cpp
@@ -286,7 +286,6 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
     return;
   }
 
-  ServiceStatusObservers::DataType observers;
   {
     // an observer being registered at the same time is either told here or
     // finds the new status itself
@@ -295,7 +294,7 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
       return;
     }
     serviceStatus_ = newStatus;
-    observers = *serviceStatusObservers_;
+    statusChanges_.push_back({oldStatus, newStatus, *serviceStatusObservers_});
   }
 
   if (newStatus == Availability::Unavailable) {
@@ -303,11 +302,36 @@ void ServiceRequester::onServiceStatusChanged(const ServiceID &sid,
     clearAllRegisterEntries();
   }
 
-  // observers might register and unregister observers
-  for (const auto &observer : observers) {
-    if (isServiceStatusObserver(observer)) {
-      notifyServiceStatus(observer, sid, oldStatus, newStatus);
+  notifyStatusChanges();
+}
+
+void ServiceRequester::notifyStatusChanges() {
+  // One thread at a time, so that observers are told the changes in the order
+  // in which they happened
+  for (;;) {
+    std::unique_lock lock(serviceStatusObservers_);
+    if (notifyingStatus_ || statusChanges_.empty()) {
+      return;
+    }
+    notifyingStatus_ = true;
+    auto change = std::move(statusChanges_.front());
+    statusChanges_.pop_front();
+    lock.unlock();
+    try {
+      // observers might register and unregister observers
+      for (const auto &observer : change.observers) {
+        if (isServiceStatusObserver(observer)) {
+          notifyServiceStatus(observer, serviceID(), change.oldStatus,
+                              change.newStatus);
+        }
+      }
+    } catch (...) {
+      lock.lock();
+      notifyingStatus_ = false;
+      throw;
     }
+    lock.lock();
+    notifyingStatus_ = false;
   }
 }
 
diff --git a/src/common/maf/messaging/client-server/ServiceRequester.h b/src/common/maf/messaging/client-server/ServiceRequester.h
index adc03bf..e61e4fc 100644
--- a/src/common/maf/messaging/client-server/ServiceRequester.h
+++ b/src/common/maf/messaging/client-server/ServiceRequester.h
@@ -48,6 +48,11 @@ struct ServiceRequester : public ServiceRequesterIF {
   using ServiceStatusObserverPtr = ServiceRequesterIF::ServiceStatusObserverPtr;
   using ServiceStatusObservers =
       threading::Lockable<std::list<ServiceStatusObserverPtr>>;
+  struct StatusChange {
+    Availability oldStatus;
+    Availability newStatus;
+    std::list<ServiceStatusObserverPtr> observers;
+  };
 
   ServiceRequester(const ServiceID &sid, std::weak_ptr<ClientIF> client);
   ~ServiceRequester();
@@ -102,6 +107,7 @@ struct ServiceRequester : public ServiceRequesterIF {
   void notifyServiceStatus(const ServiceStatusObserverPtr &observer,
                            const ServiceID &sid, Availability oldStatus,
                            Availability newStatus);
+  void notifyStatusChanges();
 
   RegID registerNotification(const OpID &opID, OpCode opCode,
                              CSPayloadProcessCallback callback,
@@ -152,6 +158,9 @@ struct ServiceRequester : public ServiceRequesterIF {
   ServiceStatusObservers serviceStatusObservers_;
   // not told the latest status yet; locked with serviceStatusObservers_
   std::list<ServiceStatusObserverPtr> newServiceStatusObservers_;
+  // not told to the observers yet; locked with serviceStatusObservers_
+  std::list<StatusChange> statusChanges_;
+  bool notifyingStatus_ = false;
   CSMsgContentMap propertiesCache_;
   std::weak_ptr<ClientIF> client_;
   CSIDManager idMgr_;
-- 
2.43.0


From 180fc051439fda7fbcd886ccf4df6bd7c816d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:11 +0000
Subject: [PATCH 57/57] fix: a client that goes while it is being registered is
 not registered

---
 src/common/maf/messaging/client-server/ServiceProvider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/maf/messaging/client-server/ServiceProvider.cpp b/src/common/maf/messaging/client-server/ServiceProvider.cpp
index 5e18983..c047fb1 100644
--- a/src/common/maf/messaging/client-server/ServiceProvider.cpp
+++ b/src/common/maf/messaging/client-server/ServiceProvider.cpp
@@ -369,7 +369,7 @@ void ServiceProvider::onActionRequest(const CSMessagePtr &msg) {
 }
 
 void ServiceProvider::onClientGoesOff(const CSMessagePtr &msg) {
-  regEntriesMap_.atomic()->erase(msg->sourceAddress());
+  removeRegistersOfAddress(msg->sourceAddress());
 }
 
 bool ServiceProvider::registerRequestHandler(
-- 
2.43.0

