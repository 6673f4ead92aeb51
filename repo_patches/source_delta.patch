From c150b28879dbfcf24a9ddd6cd9146adad6661ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:31 +0000
Subject: [PATCH 01/59] fix: BufferAccumulator only folds a pool buffer back
 into bytes it was copied from

pop() moved the remainder of the front buffer into front+1 whenever front+1
started far enough inside its own memory, even when front was not a pool
buffer any more (the flag outlived the empty pool buffer that push() drops)
or its bytes came from other chunks. Consumers then saw bytes that were
never posted. Track how many bytes are really shared with front+1.
---
 include/Pothos/Framework/BufferAccumulator.hpp |  2 +-
 lib/Framework/BufferAccumulator.cpp            | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/Pothos/Framework/BufferAccumulator.hpp b/include/Pothos/Framework/BufferAccumulator.hpp
index 914e115..e13172d 100644
--- a/include/Pothos/Framework/BufferAccumulator.hpp
+++ b/include/Pothos/Framework/BufferAccumulator.hpp
@@ -86,7 +86,7 @@ public:
 private:
     Util::RingDeque<BufferChunk> _queue;
     size_t _bytesAvailable;
-    bool _inPoolBuffer;
+    size_t _poolOverlap; //bytes at the end of a front pool buffer that also precede front+1 in memory
     BufferPool _pool;
 };
 
diff --git a/lib/Framework/BufferAccumulator.cpp b/lib/Framework/BufferAccumulator.cpp
index 7dc7476..8d61506 100644
--- a/lib/Framework/BufferAccumulator.cpp
+++ b/lib/Framework/BufferAccumulator.cpp
@@ -16,7 +16,7 @@
 Pothos::BufferAccumulator::BufferAccumulator(void):
     _queue(64/*arbitrary*/),
     _bytesAvailable(0),
-    _inPoolBuffer(false)
+    _poolOverlap(0)
 {
     //never let the queue become empty -- hold an empty buffer
     if (_queue.empty()) _queue.push_front(BufferChunk());
@@ -26,7 +26,7 @@ void Pothos::BufferAccumulator::clear(void)
 {
     _queue.clear();
     _bytesAvailable = 0;
-    _inPoolBuffer = false;
+    _poolOverlap = 0;
     _pool.clear();
 
     //never let the queue become empty -- hold an empty buffer
@@ -128,11 +128,11 @@ void Pothos::BufferAccumulator::pop(const size_t numBytes)
     const size_t queueSize = queue.size();
 
     //If the front buffer is from the pool,
-    //and the remainder bytes are in front+1,
+    //and the remainder bytes were copied from front+1,
     //then pop the front and move into front+1.
     if (
-        _inPoolBuffer and queue.size() > 1 and //pool in front
-        queue.front().length <= (queue[1].address - queue[1].getBuffer().getAddress()))
+        _poolOverlap != 0 and queue.size() > 1 and //pool in front
+        queue.front().length <= _poolOverlap)
     {
         queue[1].address -= queue.front().length;
         queue[1].length += queue.front().length;
@@ -161,7 +161,7 @@ void Pothos::BufferAccumulator::pop(const size_t numBytes)
     }
 
     //clear the pool buffer state when the queue size shrinks
-    if (_inPoolBuffer and queueSize != queue.size()) _inPoolBuffer = false;
+    if (queueSize != queue.size()) _poolOverlap = 0;
 
     //pop all of the front-most consumed buffers
     while (not queue.empty() and queue.front().length == 0) queue.pop_front();
@@ -187,7 +187,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
     if (_bytesAvailable < numBytes and queue.size() == 1 and
         numBytes <= queue.front().getBuffer().getLength()) return;
 
-    //Actually this is ok: assert(not _inPoolBuffer);
+    //Actually this is ok: assert(_poolOverlap == 0);
     //The smaller pool buffer in front will be absorbed and popped.
 
     //get a buffer that can hold the required bytes
@@ -197,6 +197,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
     newBuffer.length = 0;
 
     //copy from the queue into the new buffer
+    size_t overlapBytes = 0;
     while (not queue.empty())
     {
         //copy the front buffer into the new buffer
@@ -220,12 +221,13 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
             assert(newBuffBytes == 0);
             f.length -= copyBytes;
             f.address += copyBytes;
+            overlapBytes = copyBytes;
             break;
         }
     }
 
     //finally store the new buffer to the front
-    _inPoolBuffer = true;
+    _poolOverlap = overlapBytes;
     queue.push_front(std::move(newBuffer));
 }
 
-- 
2.43.0


From bc4a6646fac35dba8fdcddc7b05b2955cd8477f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:31 +0000
Subject: [PATCH 02/59] fix: acquire when reading a managed buffer's use count

unique() and useCount() decide that a buffer may be written again; with a
relaxed load that write is not ordered after the reads of the last holder.
---
 include/Pothos/Framework/ManagedBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/ManagedBuffer.hpp b/include/Pothos/Framework/ManagedBuffer.hpp
index bf308cd..4fe2980 100644
--- a/include/Pothos/Framework/ManagedBuffer.hpp
+++ b/include/Pothos/Framework/ManagedBuffer.hpp
@@ -249,13 +249,13 @@ inline bool Pothos::ManagedBuffer::operator<(const ManagedBuffer &rhs) const
 inline bool Pothos::ManagedBuffer::unique(void) const
 {
     if (_impl == nullptr) return false;
-    return _impl->counter.load(std::memory_order_relaxed) == 1;
+    return _impl->counter.load(std::memory_order_acquire) == 1;
 }
 
 inline size_t Pothos::ManagedBuffer::useCount(void) const
 {
     if (_impl == nullptr) return 0;
-    return _impl->counter.load(std::memory_order_relaxed);
+    return _impl->counter.load(std::memory_order_acquire);
 }
 
 inline void Pothos::ManagedBuffer::setNextBuffer(const ManagedBuffer &next)
-- 
2.43.0


From ea26ba6bf3199a35998549d430ba3579564e6fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:31 +0000
Subject: [PATCH 03/59] fix: start the work time statistics at zero

The accumulated durations were never initialised.
---
 lib/Framework/WorkerActor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/WorkerActor.hpp b/lib/Framework/WorkerActor.hpp
index b2d9d7a..30846ed 100644
--- a/lib/Framework/WorkerActor.hpp
+++ b/lib/Framework/WorkerActor.hpp
@@ -22,7 +22,11 @@ public:
         activeState(false),
         activityIndicator(0),
         numTaskCalls(0),
-        numWorkCalls(0)
+        numWorkCalls(0),
+        totalTimeTask(0),
+        totalTimeWork(0),
+        totalTimePreWork(0),
+        totalTimePostWork(0)
     {
         return;
     }
-- 
2.43.0


From ee3b9d67ef9e05b28697eca9b50116ea77cd949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:40 +0000
Subject: [PATCH 04/59] fix: no in-place read-before-write on circular buffers

Windows of a circular buffer overlap, so a front chunk that already includes
bytes of the next managed buffer can end inside its own window. The use count
of the first managed buffer then says nothing about who else still reads
those bytes, and a sibling subscriber saw them overwritten.
---
 lib/Framework/WorkerActor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index f166d78..0914ede 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -317,7 +317,8 @@ bool Pothos::WorkerActor::preWorkTasks(void)
 
         //now determine the buffer provided to this port
         if (tryRBW and port._buffer.useCount() == 2 and //2 -> accumulator + this port
-            port._buffer.getEnd() <= port._buffer.getBuffer().getEnd()) //no amalgamation
+            port._buffer.getEnd() <= port._buffer.getBuffer().getEnd() and //no amalgamation
+            port._buffer.getAlias() == 0) //circular buffers overlap, the end does not tell
         {
             port._bufferFromManager = false;
         }
-- 
2.43.0


From 9acfc24df16eeb37e911ba3280fad80bfcd0c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:05 +0000
Subject: [PATCH 05/59] fix: assignment of Object, ManagedBuffer and
 BufferChunk to themselves or from their own contents

---
 include/Pothos/Framework/BufferChunk.hpp   |  1 +
 include/Pothos/Framework/ManagedBuffer.hpp |  2 +-
 lib/Object/Object.cpp                      | 12 ++++++++----
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/Pothos/Framework/BufferChunk.hpp b/include/Pothos/Framework/BufferChunk.hpp
index 299f121..ba2c89f 100644
--- a/include/Pothos/Framework/BufferChunk.hpp
+++ b/include/Pothos/Framework/BufferChunk.hpp
@@ -350,6 +350,7 @@ inline Pothos::BufferChunk::~BufferChunk(void)
 
 inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(const BufferChunk &other)
 {
+    if (this == &other) return *this;
     _decrNextBuffers();
     address = other.address;
     length = other.length;
diff --git a/include/Pothos/Framework/ManagedBuffer.hpp b/include/Pothos/Framework/ManagedBuffer.hpp
index 4fe2980..af491e5 100644
--- a/include/Pothos/Framework/ManagedBuffer.hpp
+++ b/include/Pothos/Framework/ManagedBuffer.hpp
@@ -221,9 +221,9 @@ inline Pothos::ManagedBuffer::ManagedBuffer(ManagedBuffer &&obj) noexcept:
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(const ManagedBuffer &obj)
 {
+    if (obj._impl != nullptr) obj._impl->incr();
     if (_impl != nullptr) _impl->decr();
     this->_impl = obj._impl;
-    if (_impl != nullptr) _impl->incr();
     return *this;
 }
 
diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index 20339c3..ff13125 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -87,17 +87,21 @@ Pothos::Object::operator bool(void) const
 
 Pothos::Object &Pothos::Object::operator=(const Object &rhs)
 {
+    //hold the new value before releasing the old one:
+    //rhs may be this object, or belong to the value being released
+    auto impl = rhs._impl;
+    incr(impl);
     decr(_impl);
-    _impl = rhs._impl;
-    incr(_impl);
+    _impl = impl;
     return *this;
 }
 
 Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 {
-    decr(_impl);
-    _impl = rhs._impl;
+    auto impl = rhs._impl;
     rhs._impl = nullptr;
+    decr(_impl);
+    _impl = impl;
     return *this;
 }
 
-- 
2.43.0


From 7a09924aaf46c460c610426a7f41d0340569190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:14 +0000
Subject: [PATCH 06/59] fix: acquire when reading an Object's use count

---
 lib/Object/Object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index ff13125..6374fbe 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -107,7 +107,7 @@ Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 
 bool Pothos::Object::unique(void) const
 {
-    return _impl->counter.load(std::memory_order_relaxed) == 1;
+    return _impl->counter.load(std::memory_order_acquire) == 1;
 }
 
 std::string Pothos::Object::getTypeString(void) const
-- 
2.43.0


From d9e65a6802d5da669f52b7ef6a673627491fbbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:32 +0000
Subject: [PATCH 07/59] fix: FileLock leaked its state when the file cannot be
 opened

---
 lib/Util/FileLockUnix.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Util/FileLockUnix.cpp b/lib/Util/FileLockUnix.cpp
index cb47bcb..33a3696 100644
--- a/lib/Util/FileLockUnix.cpp
+++ b/lib/Util/FileLockUnix.cpp
@@ -30,7 +30,12 @@ Pothos::Util::FileLock::FileLock(const std::string &filePath):
     _impl(new Impl())
 {
     _impl->fd = open(filePath.c_str(), O_RDONLY | O_CREAT, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
-    if (_impl->fd == -1) throw Pothos::RuntimeException("Pothos::Util::FileLock("+filePath+")", strerror(errno));
+    if (_impl->fd == -1)
+    {
+        const int errnoSave = errno;
+        delete _impl;
+        throw Pothos::RuntimeException("Pothos::Util::FileLock("+filePath+")", strerror(errnoSave));
+    }
 }
 
 Pothos::Util::FileLock::~FileLock(void)
-- 
2.43.0


From c619b0b2cbdfdefa420feaf286cd3e097745de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:39 +0000
Subject: [PATCH 08/59] fix: circular buffers check that both halves are mapped
 where they belong

---
 lib/Framework/SharedBufferUnix.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/Framework/SharedBufferUnix.cpp b/lib/Framework/SharedBufferUnix.cpp
index da55b32..495dee6 100644
--- a/lib/Framework/SharedBufferUnix.cpp
+++ b/lib/Framework/SharedBufferUnix.cpp
@@ -186,6 +186,13 @@ CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
         tmpFd, off_t(0));
     if (mapPtr0 == MAP_FAILED) this->errorOut("mmap(0)");
 
+    //the address is only a hint: another thread may have taken it since munmap
+    if (mapPtr0 != virtualAddr2X)
+    {
+        errno = EEXIST;
+        this->errorOut("mmap(0)");
+    }
+
     mapPtr1 = mmap(
         (void *)(size_t(virtualAddr2X) + numBytes),
         numBytes,
@@ -193,6 +200,11 @@ CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
         MAP_SHARED,
         tmpFd, off_t(0));
     if (mapPtr1 == MAP_FAILED) this->errorOut("mmap(1)");
+    if (mapPtr1 != (void *)(size_t(virtualAddr2X) + numBytes))
+    {
+        errno = EEXIST;
+        this->errorOut("mmap(1)");
+    }
 }
 
 /***********************************************************************
-- 
2.43.0


From 197ef0ba96c78f5df64dc8bc71cf13e23c699262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:04 +0000
Subject: [PATCH 09/59] fix: file mapping released its descriptor and memory
 when creation fails

---
 lib/Framework/MemoryMappedBufferContainer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/Framework/MemoryMappedBufferContainer.cpp b/lib/Framework/MemoryMappedBufferContainer.cpp
index 306c11e..8827b1e 100644
--- a/lib/Framework/MemoryMappedBufferContainer.cpp
+++ b/lib/Framework/MemoryMappedBufferContainer.cpp
@@ -67,10 +67,14 @@ public:
         _buffer = ::mmap(nullptr, _length, mmapProt, mmapFlags, fd, 0);
         if(!_buffer || (MAP_FAILED == _buffer))
         {
-            throw Pothos::IOException("mmap", ::strerror(errno));
+            const int errnoSave = errno;
+            ::close(fd);
+            throw Pothos::IOException("mmap", ::strerror(errnoSave));
         }
 
-        throwErrnoOnFailure<Pothos::FileException>(::close(fd));
+        const int closeRet = ::close(fd);
+        if(closeRet < 0) ::munmap(_buffer, _length);
+        throwErrnoOnFailure<Pothos::FileException>(closeRet);
     }
 
     ~Impl()
-- 
2.43.0


From e769080caa1b403ca72f507c0434cc1890ca53f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:29 +0000
Subject: [PATCH 10/59] fix: sign extension of negative 64-bit integers read
 from an archive

---
 include/Pothos/Archive/Numbers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Pothos/Archive/Numbers.hpp b/include/Pothos/Archive/Numbers.hpp
index c728386..7ffca96 100644
--- a/include/Pothos/Archive/Numbers.hpp
+++ b/include/Pothos/Archive/Numbers.hpp
@@ -138,7 +138,7 @@ typename std::enable_if<
 
     //sign extend the remaining bits when negative
     const auto signbit = byte & 0x40;
-    if (signbit != 0 and shift < (sizeof(T)*8)) t |= -(1 << shift);
+    if (signbit != 0 and shift < (sizeof(T)*8)) t |= T(-1) << shift;
 }
 
 //------------ 32-64 bit unsigned integer types --------------//
-- 
2.43.0


From f5dd7be45c6bf1c1e78e37639a6d548ec8d44a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:47 +0000
Subject: [PATCH 11/59] fix: archive every byte of strings of wide characters

---
 include/Pothos/Archive/String.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Archive/String.hpp b/include/Pothos/Archive/String.hpp
index c7a09d7..2e396ef 100644
--- a/include/Pothos/Archive/String.hpp
+++ b/include/Pothos/Archive/String.hpp
@@ -22,7 +22,7 @@ template<typename Archive, typename T, typename Traits, typename Allocator>
 void save(Archive &ar, const std::basic_string<T, Traits, Allocator> &t, const unsigned int)
 {
     ar << unsigned(t.size());
-    BinaryObject bo(t.data(), t.size());
+    BinaryObject bo(t.data(), t.size()*sizeof(T));
     ar << bo;
 }
 
@@ -32,7 +32,7 @@ void load(Archive &ar, std::basic_string<T, Traits, Allocator> &t, const unsigne
     unsigned size(0);
     ar >> size;
     t.resize(size);
-    BinaryObject bo(t.data(), t.size());
+    BinaryObject bo(t.data(), t.size()*sizeof(T));
     ar >> bo;
 }
 
-- 
2.43.0


From b3db978453d8e02ac3ea54ea17aa7fcce65d4ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:05 +0000
Subject: [PATCH 12/59] fix: archive streams report truncated and failed input
 and output

---
 include/Pothos/Archive/ArchiveEntry.hpp | 5 +++--
 lib/Archive/StreamArchiver.cpp          | 3 +++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Archive/ArchiveEntry.hpp b/include/Pothos/Archive/ArchiveEntry.hpp
index 970cb03..3a4b112 100644
--- a/include/Pothos/Archive/ArchiveEntry.hpp
+++ b/include/Pothos/Archive/ArchiveEntry.hpp
@@ -15,6 +15,7 @@
 #include <type_traits>
 #include <typeinfo>
 #include <iosfwd>
+#include <memory>
 #include <string>
 
 namespace Pothos {
@@ -104,7 +105,7 @@ void Pothos::Archive::ArchiveEntryT<T>::save(OStreamArchiver &ar, const void *t)
 template <typename T>
 void *Pothos::Archive::ArchiveEntryT<T>::load(IStreamArchiver &ar) const
 {
-    T *t = new T();
+    std::unique_ptr<T> t(new T());
     ar >> *t;
-    return t;
+    return t.release();
 }
diff --git a/lib/Archive/StreamArchiver.cpp b/lib/Archive/StreamArchiver.cpp
index 1b95898..44b66af 100644
--- a/lib/Archive/StreamArchiver.cpp
+++ b/lib/Archive/StreamArchiver.cpp
@@ -3,6 +3,7 @@
 
 #include <Pothos/Archive/StreamArchiver.hpp>
 #include <Pothos/Archive/Numbers.hpp>
+#include <Pothos/Archive/Exception.hpp>
 #include <iostream>
 
 #define POTHOS_ARCHIVE_VERSION 2
@@ -17,6 +18,7 @@ void Pothos::Archive::OStreamArchiver::writeBytes(const void *buff, const size_t
 {
     if (len == 0) return;
     os.write(reinterpret_cast<const char *>(buff), len);
+    if (not os) throw Pothos::ArchiveException("OStreamArchiver::writeBytes()", "output stream failed");
 }
 
 Pothos::Archive::IStreamArchiver::IStreamArchiver(std::istream &is):
@@ -29,4 +31,5 @@ void Pothos::Archive::IStreamArchiver::readBytes(void *buff, const size_t len)
 {
     if (len == 0) return;
     is.read(reinterpret_cast<char *>(buff), len);
+    if (not is) throw Pothos::ArchiveException("IStreamArchiver::readBytes()", "input stream ended or failed");
 }
-- 
2.43.0


From 2a1b554aedfbac99beccde2478e2b8d9d8ddddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:00 +0000
Subject: [PATCH 13/59] fix: plugin registry lookups created nodes while
 holding only the shared lock

---
 lib/Plugin/Registry.cpp | 59 ++++++++++++++++-------------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 08b25b7..68b0f11 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -47,6 +47,20 @@ static RegistryEntry &getRegistryRoot(void)
     return regRoot;
 }
 
+//look up the entry at this path, or null when there is no such node
+//readers share the registry lock, so a lookup must not create nodes
+static const RegistryEntry *findRegistryEntry(const Pothos::PluginPath &path)
+{
+    const RegistryEntry *root = &getRegistryRoot();
+    for (const auto &name : path.listNodes())
+    {
+        const auto it = root->nodes.find(name);
+        if (it == root->nodes.end()) return nullptr;
+        root = &it->second;
+    }
+    return root;
+}
+
 /***********************************************************************
  * plugin event handler
  **********************************************************************/
@@ -188,17 +202,10 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
 Pothos::Plugin Pothos::PluginRegistry::get(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
     //throw if the root does not have a plugin
-    if (not root->hasPlugin)
+    if (root == nullptr or not root->hasPlugin)
     {
         throw Pothos::PluginRegistryError("Pothos::PluginRegistry::get("+path.toString()+")", "plugin path not found");
     }
@@ -242,49 +249,29 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
 bool Pothos::PluginRegistry::empty(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
+    const RegistryEntry *root = findRegistryEntry(path);
 
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
-
-    return not root->hasPlugin;
+    return root == nullptr or not root->hasPlugin;
 }
 
 bool Pothos::PluginRegistry::exists(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
-    return root->getNumPlugins() != 0;
+    return root != nullptr and root->getNumPlugins() != 0;
 }
 
 std::vector<std::string> Pothos::PluginRegistry::list(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
     std::vector<std::string> nodes;
+    if (root == nullptr) return nodes;
     for (const auto &name : root->nodeNamesOrdered)
     {
-        if (root->nodes[name].getNumPlugins() != 0) nodes.push_back(name);
+        if (root->nodes.at(name).getNumPlugins() != 0) nodes.push_back(name);
     }
     return nodes;
 }
-- 
2.43.0


From e63f0429184a683771487a669ea0ddca3cd62dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:09 +0000
Subject: [PATCH 14/59] fix: unloaded conversions, comparisons, hashes,
 printers and classes leave no empty entry behind

---
 lib/Managed/Registry.cpp | 6 +++---
 lib/Object/Compare.cpp   | 2 +-
 lib/Object/Convert.cpp   | 2 +-
 lib/Object/Hash.cpp      | 2 +-
 lib/Object/ToString.cpp  | 2 +-
 lib/Proxy/Convert.cpp    | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/Managed/Registry.cpp b/lib/Managed/Registry.cpp
index 1c3d1bd..0579570 100644
--- a/lib/Managed/Registry.cpp
+++ b/lib/Managed/Registry.cpp
@@ -49,9 +49,9 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
         }
         if (event == "remove")
         {
-            getClassMap()[reg.type().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.pointerType().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.sharedType().hash_code()] = Pothos::Plugin();
+            getClassMap().erase(reg.type().hash_code());
+            getClassMap().erase(reg.pointerType().hash_code());
+            getClassMap().erase(reg.sharedType().hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index bbf0fe8..96326f2 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -55,7 +55,7 @@ static void handleComparePluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getCompareMap()[typesHashCombine(t0, t1)] = Pothos::Plugin();
+            getCompareMap().erase(typesHashCombine(t0, t1));
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/Convert.cpp b/lib/Object/Convert.cpp
index 84e9bf5..c2b19e7 100644
--- a/lib/Object/Convert.cpp
+++ b/lib/Object/Convert.cpp
@@ -64,7 +64,7 @@ static void handleConvertPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getConvertMap()[typesHashCombine(inputType, outputType)] = Pothos::Plugin();
+            getConvertMap().erase(typesHashCombine(inputType, outputType));
             getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());
         }
     }
diff --git a/lib/Object/Hash.cpp b/lib/Object/Hash.cpp
index 1e0d16d..0acc355 100644
--- a/lib/Object/Hash.cpp
+++ b/lib/Object/Hash.cpp
@@ -49,7 +49,7 @@ static void handleHashFcnPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getHashFcnMap()[call.type(0).hash_code()] = Pothos::Plugin();
+            getHashFcnMap().erase(call.type(0).hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/ToString.cpp b/lib/Object/ToString.cpp
index 5c2fa35..a91f929 100644
--- a/lib/Object/ToString.cpp
+++ b/lib/Object/ToString.cpp
@@ -59,7 +59,7 @@ static void handleToStringPluginEvent(const Pothos::Plugin &plugin, const std::s
         }
         if (event == "remove")
         {
-            getToStringMap()[t.hash_code()] = Pothos::Plugin();
+            getToStringMap().erase(t.hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Proxy/Convert.cpp b/lib/Proxy/Convert.cpp
index 873805b..5612e90 100644
--- a/lib/Proxy/Convert.cpp
+++ b/lib/Proxy/Convert.cpp
@@ -105,7 +105,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToLocalMap()[hashIt(name, pair.first)] = Pothos::Plugin();
+                getConvertToLocalMap().erase(hashIt(name, pair.first));
             }
         }
         else if (isConvertToProxy(plugin))
@@ -118,7 +118,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToProxyMap()[hashIt(name, callable.type(1))] = Pothos::Plugin();
+                getConvertToProxyMap().erase(hashIt(name, callable.type(1)));
             }
         }
         else
-- 
2.43.0


From bc55d63d31614332330349e4c81a24cf56d24727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:02 +0000
Subject: [PATCH 15/59] fix: disconnect flows to and from a topology's own
 ports

The port lists of the hierarchy were looked up the wrong way around, so
removing such a flow failed (or removed the name from the wrong list).
---
 lib/Framework/Topology.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 23ca564..aa0f688 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -208,22 +208,29 @@ void Pothos::Topology::_disconnect(
     flow.dst = _impl->makePort(dst, dstName);
 
     //validate that the ports exists before disconnection
-    std::vector<std::string> outs = getConnectable(src).call("outputPortNames");
-    if (std::find(outs.begin(), outs.end(), srcName) == outs.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.src.toString() + " has no output port named " + srcName);
-
-    std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
-    if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.dst.toString() + " has no input port named " + dstName);
+    if (flow.src.obj)
+    {
+        std::vector<std::string> outs = getConnectable(src).call("outputPortNames");
+        if (std::find(outs.begin(), outs.end(), srcName) == outs.end())
+            throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.src.toString() + " has no output port named " + srcName);
+    }
 
-    //clear port info for disconnections from the hierarchy
-    if (not flow.src.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), srcName));
-    if (not flow.dst.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), dstName));
+    if (flow.dst.obj)
+    {
+        std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
+        if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
+            throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.dst.toString() + " has no input port named " + dstName);
+    }
 
     const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
     if (it == _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()",
         Poco::format("this flow does not exist in the topology(%s)", flow.toString()));
 
+    //clear port info for disconnections from the hierarchy
+    //the source of a flow is an input of the hierarchy, the destination is an output of the hierarchy
+    if (not flow.src.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), srcName));
+    if (not flow.dst.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), dstName));
+
     //perform auto-deletion, on a block this may or may not delete, on a topology this throws
     try{getConnectable(src).get("_actor").call("autoDeleteOutput", srcName);}catch(const Exception &){}
     try{getConnectable(dst).get("_actor").call("autoDeleteInput", dstName);}catch(const Exception &){}
-- 
2.43.0


From f881d48ea67f626a55d0c48421688ffa3d7c0174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:54 +0000
Subject: [PATCH 16/59] fix: release queued inputs of a block removed from the
 design

Buffers and message tokens queued on a deactivated block never returned
to their source, which stalled the other flows of that source.
---
 lib/Framework/WorkerActor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index 0914ede..63006db 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -204,6 +204,11 @@ void Pothos::WorkerActor::setActiveStateOff(void)
 {
     ActorInterfaceLock lock(this);
 
+    //The block is no longer part of the design and will not process its inputs:
+    //Release what is queued on them, otherwise the buffers and message tokens
+    //would never return to upstream blocks which are still part of the design.
+    for (const auto &entry : this->inputs) entry.second->clear();
+
     //not activated? just return
     if (not this->activeState) return;
 
-- 
2.43.0


From 9c60148b7c8c89fb21c7f92d198dd02961c0e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:47 +0000
Subject: [PATCH 17/59] fix: keep domain bridges across commits so bridged
 connections lose no data

---
 lib/Framework/TopologyDomainFlows.cpp | 23 ++++++++++++++++++-----
 lib/Framework/TopologyImpl.hpp        |  1 +
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/lib/Framework/TopologyDomainFlows.cpp b/lib/Framework/TopologyDomainFlows.cpp
index dd9431d..5409aa9 100644
--- a/lib/Framework/TopologyDomainFlows.cpp
+++ b/lib/Framework/TopologyDomainFlows.cpp
@@ -73,14 +73,17 @@ static bool isDomainCrossingAcceptable(
 /*!
  * Get a copier block for a domain crossing between mainPort and all connected subPorts.
  * If the copier block is not needed to handle this domain crossing, return a null Proxy.
+ * The copier from a previous commit is re-used so its flows (and their data) are preserved.
  */
 static Pothos::Proxy getCopierForDomainCrossing(
     const Port &mainPort,
     const std::vector<Port> &subPorts,
-    const bool isInput
+    const bool isInput,
+    const Pothos::Proxy &previous
 )
 {
     if (isDomainCrossingAcceptable(mainPort, subPorts, isInput)) return Pothos::Proxy();
+    if (previous) return previous;
     auto registry = mainPort.obj.getEnvironment()->findProxy("Pothos/BlockRegistry");
     auto copier = registry.call("/blocks/copier");
     copier.call("setName", "DomainBridge");
@@ -92,14 +95,17 @@ static Pothos::Proxy getCopierForDomainCrossing(
  */
 static std::unordered_map<Port, std::shared_future<Pothos::Proxy>> domainInspection(
     const std::unordered_map<Port, std::vector<Port>> &ports,
-    const bool isInput
+    const bool isInput,
+    const std::unordered_map<Port, Pothos::Proxy> &cache
 )
 {
     std::unordered_map<Port, std::shared_future<Pothos::Proxy>> copiers;
     for (const auto &pair : ports)
     {
+        const auto it = cache.find(pair.first);
         copiers[pair.first] = std::async(std::launch::async,
-            &getCopierForDomainCrossing, pair.first, pair.second, isInput);
+            &getCopierForDomainCrossing, pair.first, pair.second, isInput,
+            (it == cache.end())? Pothos::Proxy() : it->second);
     }
     return copiers;
 }
@@ -121,8 +127,11 @@ std::vector<Flow> Pothos::Topology::Impl::rectifyDomainFlows(const std::vector<F
     }
 
     //get a list of ports with domain problems
-    auto badSrcsToCopier = domainInspection(srcs, false);
-    auto badDstsToCopier = domainInspection(dsts, true);
+    auto badSrcsToCopier = domainInspection(srcs, false, this->srcToCopierCache);
+    auto badDstsToCopier = domainInspection(dsts, true, this->dstToCopierCache);
+
+    //only the copiers that are in-use are saved in the caches
+    std::unordered_map<Port, Pothos::Proxy> newSrcToCopierCache, newDstToCopierCache;
 
     std::vector<Flow> domainSafeFlows;
     for (const auto &flow : flatFlows)
@@ -132,6 +141,8 @@ std::vector<Flow> Pothos::Topology::Impl::rectifyDomainFlows(const std::vector<F
         Pothos::Proxy copier;
         if (srcCopier) copier = srcCopier;
         if (dstCopier) copier = dstCopier;
+        if (srcCopier) newSrcToCopierCache[flow.src] = srcCopier;
+        if (dstCopier) newDstToCopierCache[flow.dst] = dstCopier;
         if (copier)
         {
             //create the flows
@@ -153,5 +164,7 @@ std::vector<Flow> Pothos::Topology::Impl::rectifyDomainFlows(const std::vector<F
         }
     }
 
+    this->srcToCopierCache = newSrcToCopierCache;
+    this->dstToCopierCache = newDstToCopierCache;
     return domainSafeFlows;
 }
diff --git a/lib/Framework/TopologyImpl.hpp b/lib/Framework/TopologyImpl.hpp
index d14437f..11f798c 100644
--- a/lib/Framework/TopologyImpl.hpp
+++ b/lib/Framework/TopologyImpl.hpp
@@ -31,6 +31,7 @@ struct Pothos::Topology::Impl
     std::vector<Flow> flows;
     std::vector<Flow> activeFlatFlows;
     std::unordered_map<Port, std::pair<Pothos::Proxy, Pothos::Proxy>> srcToNetgressCache;
+    std::unordered_map<Port, Pothos::Proxy> srcToCopierCache, dstToCopierCache;
     std::vector<Flow> squashFlows(const std::vector<Flow> &);
     std::vector<Flow> createNetworkFlows(const std::vector<Flow> &);
     std::vector<Flow> rectifyDomainFlows(const std::vector<Flow> &);
-- 
2.43.0


From b9ecf4c48e04a1cc786fa4915bca275138414b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 18/59] fix: waitInactive uses a monotonic clock and
 overlapping idle durations

---
 lib/Framework/Topology.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index aa0f688..3981da1 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -278,26 +278,28 @@ bool Pothos::Topology::waitInactive(const double idleDuration, const double time
     const auto blocks = getObjSetFromFlowList(_impl->activeFlatFlows);
 
     //track block activity indicators and activity time stamps
-    std::vector<std::chrono::high_resolution_clock::time_point> lastActivityTime(blocks.size());
+    std::vector<std::chrono::steady_clock::time_point> lastActivityTime(blocks.size());
     std::vector<int> lastActivityIndicator(blocks.size(), 0);
 
     //loop until exit time
-    const auto entryTime = std::chrono::high_resolution_clock::now();
+    const auto entryTime = std::chrono::steady_clock::now();
     const auto exitTime = entryTime + std::chrono::nanoseconds((long long)(timeout*1e9));
     do
     {
         //check each worker for idle time from the activity indicator
+        //use one time stamp so the idle durations overlap in time
         bool allIdle = true;
+        const auto pollTime = std::chrono::steady_clock::now();
         for (size_t i = 0; i < blocks.size(); i++)
         {
             const auto &block = blocks[i];
             const int activityIndicator = block.get("_actor").call("queryActivityIndicator");
             if (lastActivityIndicator[i] != activityIndicator)
             {
-                lastActivityTime[i] = std::chrono::high_resolution_clock::now();
+                lastActivityTime[i] = std::chrono::steady_clock::now();
                 lastActivityIndicator[i] = activityIndicator;
             }
-            const auto workerIdleDuration = std::chrono::high_resolution_clock::now() - std::max(entryTime, lastActivityTime[i]);
+            const auto workerIdleDuration = pollTime - std::max(entryTime, lastActivityTime[i]);
             if (workerIdleDuration < idleDurationNs) allIdle = false;
         }
 
@@ -307,7 +309,7 @@ bool Pothos::Topology::waitInactive(const double idleDuration, const double time
         //idle time not reached on any workers, therefore sleep
         else std::this_thread::sleep_for(pollSleepTime);
     }
-    while (std::chrono::high_resolution_clock::now() < exitTime or timeout == 0.0);
+    while (std::chrono::steady_clock::now() < exitTime or timeout == 0.0);
 
     return false; //timeout
 }
-- 
2.43.0


From ccbb5efaa346170f293ab7d6b4ee66ce406710c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 19/59] fix: record the committed design also when a block
 failed to activate

---
 lib/Framework/TopologyCommit.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/TopologyCommit.cpp b/lib/Framework/TopologyCommit.cpp
index 4239cc6..e639244 100644
--- a/lib/Framework/TopologyCommit.cpp
+++ b/lib/Framework/TopologyCommit.cpp
@@ -319,7 +319,6 @@ void Pothos::Topology::commit(void)
             errors.append(ex.message()+"\n");
         }
     }
-    if (not errors.empty()) throw Pothos::TopologyConnectError("Pothos::Topology::commit()", errors);
 
     //set thread pools for all blocks in this process
     if (this->getThreadPool()) for (auto block : getObjSetFromFlowList(flatFlows))
@@ -341,4 +340,8 @@ void Pothos::Topology::commit(void)
         newNetgressCache[it->first] = it->second;
     }
     _impl->srcToNetgressCache = newNetgressCache;
+
+    //Report errors only after the new design was recorded above,
+    //because the sub-topologies are now running this set of flows.
+    if (not errors.empty()) throw Pothos::TopologyConnectError("Pothos::Topology::commit()", errors);
 }
-- 
2.43.0


From 6f14bb5670e607f5037d054d0152e761854b3163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 20/59] fix: handled probe calls count as activity

---
 lib/Framework/WorkerActor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index 63006db..db8e4a2 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -275,10 +275,9 @@ void Pothos::WorkerActor::handleSlotCalls(InputPort &port)
                 auto result = block->opaqueCallHandler(callName, args.data(), args.size());
                 if (result) block->call(signalName, result);
                 else block->call(signalName);
-                continue;
             }
+            else block->opaqueCallHandler(port.name(), args.data(), args.size());
 
-            block->opaqueCallHandler(port.name(), args.data(), args.size());
             this->flagInternalChange();
             this->activityIndicator.fetch_add(1, std::memory_order_relaxed);
         }
-- 
2.43.0


From f98a4c2e47890ba1441d2c956023548aa4bfed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:38 +0000
Subject: [PATCH 21/59] fix: work time statistics use a monotonic clock

---
 lib/Framework/WorkerActor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index db8e4a2..4d0d715 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -17,16 +17,16 @@ using json = nlohmann::json;
 struct TimeAccumulator
 {
     inline TimeAccumulator(std::chrono::high_resolution_clock::duration &t):
-        t(t), start(std::chrono::high_resolution_clock::now())
+        t(t), start(std::chrono::steady_clock::now())
     {
         return;
     }
     inline ~TimeAccumulator(void)
     {
-        t += std::chrono::high_resolution_clock::now() - start;
+        t += std::chrono::duration_cast<std::chrono::high_resolution_clock::duration>(std::chrono::steady_clock::now() - start);
     }
     std::chrono::high_resolution_clock::duration &t;
-    const std::chrono::high_resolution_clock::time_point start;
+    const std::chrono::steady_clock::time_point start;
 };
 
 /***********************************************************************
-- 
2.43.0


From 58af9366459d4239de789af43a8af9d5700d59e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 22/59] fix: a remote request that cannot be serialized no
 longer disables the connection

---
 lib/Remote/RemoteProxy.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index 10bd940..1e82e3f 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -30,7 +30,12 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
         std::lock_guard<std::mutex> lock(osMutex);
         sendDatagram(os, reqArgs);
     }
-    POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
+    //the request cannot be serialized and nothing was sent: the connection remains usable
+    POTHOS_EXCEPTION_CATCH(const Pothos::ObjectSerializeError &)
+    {
+        throw;
+    }
+    catch(const Pothos::Exception &ex)
     {
         connectionActive = false;
         throw Pothos::IOException("RemoteProxyEnvironment::sendDatagram()", ex.message());
-- 
2.43.0


From ce8c3d7237696b69faa18a62c630a11bc63f284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 23/59] fix: the remote server reports a result it cannot
 serialize instead of ending the session

---
 lib/Remote/ServerHandler.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/Remote/ServerHandler.cpp b/lib/Remote/ServerHandler.cpp
index 586fb6c..85a7785 100644
--- a/lib/Remote/ServerHandler.cpp
+++ b/lib/Remote/ServerHandler.cpp
@@ -171,7 +171,18 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
     }
 
     //serialize the reply
-    sendDatagram(os, replyArgs);
+    POTHOS_EXCEPTION_TRY
+    {
+        sendDatagram(os, replyArgs);
+    }
+    //the result cannot be serialized and nothing was sent: reply with the error
+    POTHOS_EXCEPTION_CATCH(const Pothos::ObjectSerializeError &ex)
+    {
+        Pothos::ObjectKwargs errorArgs;
+        errorArgs["tid"] = reqArgs.at("tid");
+        errorArgs["errorMsg"] = Pothos::Object(ex.displayText());
+        sendDatagram(os, errorArgs);
+    }
 
     return done;
 }
-- 
2.43.0


From 0fb0bc826d0d9a4f75762fc8ce83c335413e4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 24/59] fix: losing a remote connection fails every waiting
 call

---
 lib/Remote/RemoteProxy.cpp         | 13 +++++++++++--
 lib/Remote/RemoteProxy.hpp         |  3 ++-
 lib/Remote/RemoteProxyDatagram.cpp |  1 +
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index 1e82e3f..5ef8c0c 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -57,6 +57,12 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
             return reply;
         }
 
+        //another thread lost the connection, there will be no reply
+        if (not connectionActive)
+        {
+            throw Pothos::IOException("RemoteProxyEnvironment::transact()", "connection inactive");
+        }
+
         //a thread is blocking on the input stream wait here
         if (isBlocking)
         {
@@ -69,22 +75,25 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
         isBlocking = true;
         lock.unlock();
         Pothos::ObjectKwargs replyArgs;
+        size_t replyTid(0);
         POTHOS_EXCEPTION_TRY
         {
             replyArgs = recvDatagram(is);
+            replyTid = replyArgs.at("tid").convert<size_t>();
         }
         POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
         {
+            lock.lock();
             isBlocking = false;
-            isCond.notify_all();
             connectionActive = false;
+            lock.unlock();
+            isCond.notify_all();
             throw Pothos::IOException("RemoteProxyEnvironment::recvDatagram()", ex.message());
         }
         lock.lock();
         isBlocking = false;
 
         //this is our thread ID, reply args
-        const size_t replyTid(replyArgs.at("tid"));
         if (replyTid == tid)
         {
             lock.unlock();
diff --git a/lib/Remote/RemoteProxy.hpp b/lib/Remote/RemoteProxy.hpp
index b9842c1..86c94b3 100644
--- a/lib/Remote/RemoteProxy.hpp
+++ b/lib/Remote/RemoteProxy.hpp
@@ -7,6 +7,7 @@
 #include <Pothos/Object/Containers.hpp>
 #include <mutex>
 #include <condition_variable>
+#include <atomic>
 
 class RemoteProxyHandle;
 
@@ -72,7 +73,7 @@ public:
     std::istream &is;
     std::ostream &os;
     const std::string name;
-    bool connectionActive;
+    std::atomic<bool> connectionActive;
 
     std::mutex osMutex;
     std::mutex isMutex;
diff --git a/lib/Remote/RemoteProxyDatagram.cpp b/lib/Remote/RemoteProxyDatagram.cpp
index c9f7fef..dc3ca78 100644
--- a/lib/Remote/RemoteProxyDatagram.cpp
+++ b/lib/Remote/RemoteProxyDatagram.cpp
@@ -60,6 +60,7 @@ public:
         os.write(_payloadData.data(), _bytesWritten);
         os.write((const char *)&trailer, sizeof(trailer));
         os.flush();
+        if (not os) throw Pothos::IOException("sendDatagram()", "stream error");
     }
 
     void ensureSize(const std::streamsize count)
-- 
2.43.0


From 9e4a9acde292106f00d6e0c9f9c12adc67bf6601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 25/59] fix: a datagram that is not a request no longer crashes
 the remote server

---
 lib/Remote/RemoteProxyDatagram.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Remote/RemoteProxyDatagram.cpp b/lib/Remote/RemoteProxyDatagram.cpp
index dc3ca78..bcd9811 100644
--- a/lib/Remote/RemoteProxyDatagram.cpp
+++ b/lib/Remote/RemoteProxyDatagram.cpp
@@ -198,5 +198,9 @@ Pothos::ObjectKwargs recvDatagram(std::istream &is)
 {
     Pothos::Object reply;
     PRPCDatagramIbuf(is, reply);
+    if (reply.type() != typeid(Pothos::ObjectKwargs))
+    {
+        throw Pothos::IOException("recvDatagram()", "payload type fail");
+    }
     return std::move(reply.ref<Pothos::ObjectKwargs>());
 }
-- 
2.43.0


From dcbb9f1ac4ab488d2e6909b3f6f0e645a0768d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 26/59] fix: the remote server destroys released objects
 outside of its table lock

---
 lib/Remote/ServerHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Remote/ServerHandler.cpp b/lib/Remote/ServerHandler.cpp
index 85a7785..80b0a76 100644
--- a/lib/Remote/ServerHandler.cpp
+++ b/lib/Remote/ServerHandler.cpp
@@ -47,8 +47,12 @@ static Pothos::Object getObjectAtId(const Pothos::Object &id)
 static void removeObjectAtId(const Pothos::Object &id)
 {
     const size_t key(id);
+    Pothos::Object removed; //destroyed after unlocking: a destructor may take long or use this server
     std::lock_guard<std::mutex> lock(getObjectsMutex());
-    getObjectsMap().erase(key);
+    auto it = getObjectsMap().find(key);
+    if (it == getObjectsMap().end()) return;
+    removed = it->second;
+    getObjectsMap().erase(it);
 }
 
 /***********************************************************************
-- 
2.43.0


From ee0a62cf9168b639f187cf2880d2adfcfb5077db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 27/59] fix: the remote server holds references to the objects
 a request uses

---
 lib/Remote/ServerHandler.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/Remote/ServerHandler.cpp b/lib/Remote/ServerHandler.cpp
index 80b0a76..3a9e8d0 100644
--- a/lib/Remote/ServerHandler.cpp
+++ b/lib/Remote/ServerHandler.cpp
@@ -41,7 +41,9 @@ static Pothos::Object getObjectAtId(const Pothos::Object &id)
 {
     const size_t key(id);
     std::lock_guard<std::mutex> lock(getObjectsMutex());
-    return getObjectsMap()[key];
+    auto it = getObjectsMap().find(key);
+    if (it == getObjectsMap().end()) return Pothos::Object();
+    return it->second;
 }
 
 static void removeObjectAtId(const Pothos::Object &id)
@@ -96,20 +98,20 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
         }
         else if (action == "findProxy")
         {
-            const auto &env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
+            const auto env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
             const auto &proxy = env->findProxy(reqArgs.at("name").extract<std::string>());
             replyArgs["handleID"] = getNewObjectId(Pothos::Object(proxy));
         }
         else if (action == "convertObjectToProxy")
         {
-            const auto &env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
+            const auto env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
             const auto &proxy = env->convertObjectToProxy(reqArgs.at("local"));
             replyArgs["handleID"] = getNewObjectId(Pothos::Object(proxy));
         }
         else if (action == "convertProxyToObject")
         {
-            const auto &env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
-            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
+            const auto env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
+            const auto proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
             auto local = env->convertProxyToObject(proxy);
             replyArgs["local"] = local;
         }
@@ -119,7 +121,7 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
         }
         else if (action == "call")
         {
-            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
+            const auto proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
 
             //load the args
             std::vector<Pothos::Proxy> args;
@@ -145,23 +147,23 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
         }
         else if (action == "compareTo")
         {
-            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
-            const auto &other = getObjectAtId(reqArgs.at("otherID")).extract<Pothos::Proxy>();
+            const auto proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
+            const auto other = getObjectAtId(reqArgs.at("otherID")).extract<Pothos::Proxy>();
             replyArgs["result"] = Pothos::Object(proxy.compareTo(other));
         }
         else if (action == "hashCode")
         {
-            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
+            const auto proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
             replyArgs["result"] = Pothos::Object(proxy.hashCode());
         }
         else if (action == "toString")
         {
-            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
+            const auto proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
             replyArgs["result"] = Pothos::Object(proxy.toString());
         }
         else if (action == "getClassName")
         {
-            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
+            const auto proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
             replyArgs["result"] = Pothos::Object(proxy.getClassName());
         }
         else
-- 
2.43.0


From 5a0e60b4fd5a348702a9371bb663e55468843b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:07 +0000
Subject: [PATCH 28/59] fix: a remote client does not reuse a completed name
 lookup

---
 lib/Remote/Client.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/lib/Remote/Client.cpp b/lib/Remote/Client.cpp
index 148560d..3d563a8 100644
--- a/lib/Remote/Client.cpp
+++ b/lib/Remote/Client.cpp
@@ -64,15 +64,17 @@ static Poco::Net::IPAddress dnsLookupBlocking(const std::string &host)
 //! Perform a DNS lookup with a timeout - throws Poco::Exception
 static Poco::Net::IPAddress dnsLookup(const std::string &host, const long timeoutUs)
 {
-    //create a future or get an existing one
+    //create a future or get one for a lookup in progress
+    //a completed lookup is never reused: its result (or failure) may be outdated
     std::shared_future<Poco::Net::IPAddress> dnsFuture;
     {
         std::lock_guard<std::mutex> l(getDNSLookupMutex());
-        if (getDNSFutures().count(host) == 0)
+        auto &future = getDNSFutures()[host];
+        if (not future.valid() or future.wait_for(std::chrono::seconds(0)) == std::future_status::ready)
         {
-            getDNSFutures()[host] = std::async(std::launch::async, &dnsLookupBlocking, host);
+            future = std::async(std::launch::async, &dnsLookupBlocking, host);
         }
-        dnsFuture = getDNSFutures().at(host);
+        dnsFuture = future;
     }
 
     //wait with a timeout for the future to complete
@@ -82,14 +84,7 @@ static Poco::Net::IPAddress dnsLookup(const std::string &host, const long timeou
     }
 
     //get the future, may throw exceptions from SocketAddress
-    const auto ipAddr = dnsFuture.get();
-
-    //remove the completed future from the map
-    {
-        std::lock_guard<std::mutex> l(getDNSLookupMutex());
-        getDNSFutures().erase(host);
-    }
-    return ipAddr;
+    return dnsFuture.get();
 }
 
 /***********************************************************************
-- 
2.43.0


From b538ed171e82b1076b231235f3f2ced2b9cfdb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:37 +0000
Subject: [PATCH 29/59] fix: do not offer a fragment of an element as an
 in-place output buffer

An input that holds less than one element (a byte oriented upstream cut the
stream) was used as the output buffer of a read-before-write block: no element
fits, so the block never got to ask its accumulator for a whole element and
stalled for good.
---
 lib/Framework/WorkerActor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index 4d0d715..aff76d8 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -321,6 +321,7 @@ bool Pothos::WorkerActor::preWorkTasks(void)
 
         //now determine the buffer provided to this port
         if (tryRBW and port._buffer.useCount() == 2 and //2 -> accumulator + this port
+            port._buffer.length >= port.dtype().size() and //not just a fragment of an element
             port._buffer.getEnd() <= port._buffer.getBuffer().getEnd() and //no amalgamation
             port._buffer.getAlias() == 0) //circular buffers overlap, the end does not tell
         {
-- 
2.43.0


From 4680c8873f842eb24e3e1f11e375eccc23686b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:28 +0000
Subject: [PATCH 30/59] fix: lock the actor while ports of a running block are
 created or deleted automatically

---
 lib/Framework/WorkerActorPortAllocation.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index f946af8..262e4ce 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -101,12 +101,21 @@ void Pothos::WorkerActor::allocateSlot(const std::string &name)
 
 void Pothos::WorkerActor::autoAllocateInput(const std::string &name)
 {
+    //the block may be active: do not change its ports while the worker uses them
+    if (this->inputs.count(name) > 0) return;
+    ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->inputs, block->_namedInputs, block->_indexedInputs, block->_inputPortNames, name);
 }
 
 void Pothos::WorkerActor::autoAllocateOutput(const std::string &name)
 {
+    //the block may be active: do not change its ports while the worker uses them
+    if (this->outputs.count(name) > 0) return;
+    ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames, name);
+
+    //an active block can't work without a buffer manager on every output
+    if (this->activeState and this->outputs.count(name) > 0) this->ensureOutputBufferManagerNoLock(name);
 }
 
 void Pothos::WorkerActor::updatePorts(void)
@@ -126,6 +135,10 @@ void Pothos::WorkerActor::autoDeletePort(const std::string &name, PortsType &por
     if (it == ports.end()) return;
 
     auto &port = *it->second;
+    if (this->automaticPorts.count(&port) == 0) return;
+
+    //the block may be active: do not change its ports while the worker uses them
+    ActorInterfaceLock lock(this);
     if (not port._subscribers.empty()) return;
 
     //remove from the auto ports list
-- 
2.43.0


From a2b3cb8c56ea66ac724d042649ca0df3343ce248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:12 +0000
Subject: [PATCH 31/59] fix: keep an automatically created port that another
 flow of the design still uses

---
 lib/Framework/Topology.cpp                  |  9 ++++----
 lib/Framework/WorkerActor.hpp               |  3 ++-
 lib/Framework/WorkerActorPortAllocation.cpp | 23 +++++++++++++++------
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 3981da1..6b1e4d7 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -128,6 +128,11 @@ void Pothos::Topology::_connect(
     flow.src = _impl->makePort(src, srcName);
     flow.dst = _impl->makePort(dst, dstName);
 
+    //check for an existing flow before anything is changed on behalf of this connection
+    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
+    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
+        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
+
     //perform auto-allocation, on a block this may or may not allocate, on a topology this throws
     try{getConnectable(src).get("_actor").call("autoAllocateOutput", srcName);}catch(const Exception &){}
     try{getConnectable(dst).get("_actor").call("autoAllocateInput", dstName);}catch(const Exception &){}
@@ -187,10 +192,6 @@ void Pothos::Topology::_connect(
         _impl->outputPortInfo[dstName].name = dstName;
     }
 
-    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
-    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
-        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
-
     _impl->flows.push_back(flow);
 }
 
diff --git a/lib/Framework/WorkerActor.hpp b/lib/Framework/WorkerActor.hpp
index 30846ed..f19f9f5 100644
--- a/lib/Framework/WorkerActor.hpp
+++ b/lib/Framework/WorkerActor.hpp
@@ -9,6 +9,7 @@
 #include <Poco/Logger.h>
 #include <atomic>
 #include <set>
+#include <map>
 #include <iostream>
 
 /***********************************************************************
@@ -103,7 +104,7 @@ public:
 
     template <typename PortsType, typename NamedPortsType, typename IndexedPortsType, typename PortNamesType>
     void autoDeletePort(const std::string &name, PortsType &ports, NamedPortsType &namedPorts, IndexedPortsType &indexedPorts, PortNamesType &portNames);
-    std::set<void *> automaticPorts; //set of automatically allocated ports
+    std::map<void *, size_t> automaticPorts; //automatically allocated ports and the number of flows that use them
     void autoDeleteInput(const std::string &name);
     void autoDeleteOutput(const std::string &name);
 
diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index 262e4ce..cbb58a7 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -52,7 +52,7 @@ void Pothos::WorkerActor::allocatePort(PortsType &ports, NamedPortsType &namedPo
     }
 
     //record automatically created ports
-    if (automatic) this->automaticPorts.insert(port.get());
+    if (automatic) this->automaticPorts[port.get()] = 1;
 
     //resizes work info indexable pointers
     this->updatePorts();
@@ -63,7 +63,13 @@ void Pothos::WorkerActor::autoAllocatePort(PortsType &ports, NamedPortsType &nam
 {
     const int index = portNameToIndex(name);
     if (index == -1) return;
-    if (ports.count(name) > 0) return;
+    if (ports.count(name) > 0)
+    {
+        //another flow will use this port
+        auto autoIt = this->automaticPorts.find(ports.at(name).get());
+        if (autoIt != this->automaticPorts.end()) autoIt->second++;
+        return;
+    }
 
     //indexed port does not exist, look for a lower index port and allocate
     for (int i = index-1; i >= 0; i--)
@@ -102,7 +108,7 @@ void Pothos::WorkerActor::allocateSlot(const std::string &name)
 void Pothos::WorkerActor::autoAllocateInput(const std::string &name)
 {
     //the block may be active: do not change its ports while the worker uses them
-    if (this->inputs.count(name) > 0) return;
+    if (this->inputs.count(name) > 0 and this->automaticPorts.count(this->inputs.at(name).get()) == 0) return;
     ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->inputs, block->_namedInputs, block->_indexedInputs, block->_inputPortNames, name);
 }
@@ -110,12 +116,13 @@ void Pothos::WorkerActor::autoAllocateInput(const std::string &name)
 void Pothos::WorkerActor::autoAllocateOutput(const std::string &name)
 {
     //the block may be active: do not change its ports while the worker uses them
-    if (this->outputs.count(name) > 0) return;
+    if (this->outputs.count(name) > 0 and this->automaticPorts.count(this->outputs.at(name).get()) == 0) return;
     ActorInterfaceLock lock(this);
+    const bool exists = this->outputs.count(name) > 0;
     this->autoAllocatePort(this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames, name);
 
     //an active block can't work without a buffer manager on every output
-    if (this->activeState and this->outputs.count(name) > 0) this->ensureOutputBufferManagerNoLock(name);
+    if (this->activeState and not exists and this->outputs.count(name) > 0) this->ensureOutputBufferManagerNoLock(name);
 }
 
 void Pothos::WorkerActor::updatePorts(void)
@@ -139,12 +146,16 @@ void Pothos::WorkerActor::autoDeletePort(const std::string &name, PortsType &por
 
     //the block may be active: do not change its ports while the worker uses them
     ActorInterfaceLock lock(this);
-    if (not port._subscribers.empty()) return;
 
     //remove from the auto ports list
     {
         auto idx = this->automaticPorts.find(&port);
         if (idx == this->automaticPorts.end()) return;
+
+        //keep a port that is in use by another flow, which may not be committed yet
+        if (idx->second > 0) idx->second--;
+        if (idx->second > 0) return;
+        if (not port._subscribers.empty()) return;
         this->automaticPorts.erase(idx);
     }
 
-- 
2.43.0


From 3ae4837591d7511c595f018d9b4e42d8912796d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:41 +0000
Subject: [PATCH 32/59] fix: do not replace the callback of a buffer manager
 that is already installed

---
 lib/Framework/OutputPort.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Framework/OutputPort.cpp b/lib/Framework/OutputPort.cpp
index f5fb593..a80b11d 100644
--- a/lib/Framework/OutputPort.cpp
+++ b/lib/Framework/OutputPort.cpp
@@ -94,6 +94,10 @@ void Pothos::OutputPort::bufferManagerPush(Pothos::Util::SpinLock *mutex, const
 void Pothos::OutputPort::bufferManagerSetup(const Pothos::BufferManager::Sptr &manager)
 {
     std::lock_guard<Util::SpinLock> lock(_bufferManagerLock);
+
+    //already in use with this port: its buffers may be returning through the callback in other threads
+    if (manager and _bufferManager == manager) return;
+
     _bufferManager = manager;
     if (manager) manager->setCallback(std::bind(
         &Pothos::OutputPort::bufferManagerPush, this, &_bufferManagerLock, std::placeholders::_1));
-- 
2.43.0


From 98238d3ff21c7aba8600379a2cfb9fcb24053bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:59 +0000
Subject: [PATCH 33/59] fix: commit updates the other environments when one can
 no longer be reached

---
 lib/Framework/TopologyCommit.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/Framework/TopologyCommit.cpp b/lib/Framework/TopologyCommit.cpp
index e639244..0016c1d 100644
--- a/lib/Framework/TopologyCommit.cpp
+++ b/lib/Framework/TopologyCommit.cpp
@@ -290,7 +290,17 @@ void Pothos::Topology::commit(void)
     }
 
     //clear connections on old topologies
-    for (const auto &pair : _impl->remoteTopologies) pair.second.call("disconnectAll");
+    //An environment that can no longer be reached is reported below,
+    //but the blocks in all other environments are still updated.
+    std::string errors;
+    for (const auto &pair : _impl->remoteTopologies)
+    {
+        try {pair.second.call("disconnectAll");}
+        catch (const Exception &ex)
+        {
+            errors.append(ex.message()+"\n");
+        }
+    }
 
     //load each topology with connections from flat flows
     for (const auto &flow : flatFlows)
@@ -310,7 +320,6 @@ void Pothos::Topology::commit(void)
     }
 
     //wait on futures and collect errors
-    std::string errors;
     for (auto &future : futures)
     {
         try {future.get();}
-- 
2.43.0


From 8f5a1b8d181cfc4d8781058bb3899ada2ce1d7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:57 +0000
Subject: [PATCH 34/59] fix: a remote call holds the handles of arguments
 converted for it

---
 lib/Remote/RemoteProxyHandle.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Remote/RemoteProxyHandle.cpp b/lib/Remote/RemoteProxyHandle.cpp
index f53c0ad..0a952bd 100644
--- a/lib/Remote/RemoteProxyHandle.cpp
+++ b/lib/Remote/RemoteProxyHandle.cpp
@@ -5,6 +5,7 @@
 #include <Poco/Format.h>
 #include <Poco/Logger.h>
 #include <iostream>
+#include <vector>
 
 RemoteProxyHandle::RemoteProxyHandle(std::shared_ptr<RemoteProxyEnvironment> env, const size_t remoteID):
     env(env), remoteID(remoteID)
@@ -37,6 +38,10 @@ Pothos::Proxy RemoteProxyHandle::call(const std::string &name, const Pothos::Pro
     req["action"] = Pothos::Object("call");
     req["handleID"] = Pothos::Object(this->remoteID);
     req["name"] = Pothos::Object(name);
+
+    //hold the handles until the call completes: an argument that
+    //was converted for this call has no other reference to its handle
+    std::vector<std::shared_ptr<RemoteProxyHandle>> handles;
     for (size_t i = 0; i < numArgs; i++)
     {
         std::shared_ptr<RemoteProxyHandle> handle;
@@ -50,6 +55,7 @@ Pothos::Proxy RemoteProxyHandle::call(const std::string &name, const Pothos::Pro
                 Poco::format("convert arg %z - %s", i, std::string(ex.what())));
         }
         req[std::to_string(i)] = Pothos::Object(handle->remoteID);
+        handles.push_back(handle);
     }
 
     auto reply = env->transact(req);
-- 
2.43.0


From f5147145679f169d6404f282026e46bfc9d3ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:24 +0000
Subject: [PATCH 35/59] fix: plugins belong to a module only when its load
 registers them

The module being loaded was remembered in a variable shared by all threads:
plugins which other threads registered meanwhile were attributed to it, and
removed when it was unloaded.  After a failed load it was not reset.
---
 lib/Plugin/Module.cpp   | 26 ++++++++++++++++++++------
 lib/Plugin/Registry.cpp |  4 ++--
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index fdc6554..6cf5d89 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -58,6 +58,21 @@ static std::mutex &getModuleMutex(void)
 //where to store the version during module load
 static thread_local std::string *currentModuleVersion(nullptr);
 
+//! Plugins and versions belong to the module for the duration of its load, also when the load fails
+struct ActiveModuleLoadGuard
+{
+    ActiveModuleLoadGuard(const Pothos::PluginModule &module, std::string &version)
+    {
+        registrySetActiveModuleLoading(module);
+        currentModuleVersion = &version;
+    }
+    ~ActiveModuleLoadGuard(void)
+    {
+        currentModuleVersion = nullptr;
+        registrySetActiveModuleLoading(Pothos::PluginModule());
+    }
+};
+
 /***********************************************************************
  * Shared implementation for module data
  **********************************************************************/
@@ -91,12 +106,11 @@ Pothos::PluginModule::PluginModule(const std::string &path):
     try
     {
         std::lock_guard<std::mutex> lock(getModuleMutex());
-        registrySetActiveModuleLoading(*this);
-        currentModuleVersion = &(_impl->version);
-        ErrorMessageDisableGuard emdg;
-        _impl->sharedLibrary.load(path);
-        currentModuleVersion = nullptr;
-        registrySetActiveModuleLoading(PluginModule());
+        {
+            ActiveModuleLoadGuard guard(*this, _impl->version);
+            ErrorMessageDisableGuard emdg;
+            _impl->sharedLibrary.load(path);
+        }
         _impl->pluginPaths = ::getPluginPaths(*this);
     }
     catch(const Poco::LibraryLoadException &ex)
diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 68b0f11..52f677d 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -142,13 +142,13 @@ static void handleMissedSubTreeEvents(const Pothos::Object &handler, const Potho
  **********************************************************************/
 static Pothos::PluginModule &getActiveModuleLoading(void)
 {
-    static Pothos::PluginModule module;
+    //plugins which other threads add during the load are not part of the module
+    static thread_local Pothos::PluginModule module;
     return module;
 }
 
 void registrySetActiveModuleLoading(const Pothos::PluginModule &module)
 {
-    //made thread safe by lock in caller routine from Module.cpp
     getActiveModuleLoading() = module;
 }
 
-- 
2.43.0


From bf46b296ab43814e42b2d7305e11c7f171564983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:12 +0000
Subject: [PATCH 36/59] fix: unload a module exactly once, when its last handle
 is gone

Two threads that dropped the last two handles both saw that they were not
the last, and the module was never unloaded; a handle which the registry
made of a plugin under its lock could be the last one, and deadlocked; a
module loaded twice, or one of whose plugins was removed by hand, threw in
the destructor.  The module is now released by the shared pointer itself,
loads and unloads exclude one another, a file that is loaded already yields
the same module, and the registry does not drop handles under its lock.
---
 lib/Plugin/Module.cpp      | 98 +++++++++++++++++++++++++++++++-------
 lib/Plugin/ModulePaths.cpp | 12 ++++-
 lib/Plugin/Registry.cpp    | 24 ++++++----
 3 files changed, 107 insertions(+), 27 deletions(-)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index 6cf5d89..c534429 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -10,7 +10,10 @@
 #include <Poco/Platform.h>
 #include <Poco/Logger.h>
 #include <Poco/Format.h>
+#include <condition_variable>
+#include <functional>
 #include <mutex>
+#include <map>
 
 /***********************************************************************
  * Disabler for windows error messages
@@ -49,12 +52,22 @@ void registrySetActiveModuleLoading(const Pothos::PluginModule &module);
 
 std::vector<std::string> getPluginPaths(const Pothos::PluginModule &module);
 
-static std::mutex &getModuleMutex(void)
+std::vector<std::string> takePluginPaths(const std::string &modulePath);
+
+//serializes loads and unloads, which may nest by way of plugin event handlers
+static std::recursive_mutex &getModuleMutex(void)
 {
-    static std::mutex mutex;
+    static std::recursive_mutex mutex;
     return mutex;
 }
 
+//notified when a module has been unloaded
+static std::condition_variable_any &getModuleCond(void)
+{
+    static std::condition_variable_any cond;
+    return cond;
+}
+
 //where to store the version during module load
 static thread_local std::string *currentModuleVersion(nullptr);
 
@@ -78,12 +91,63 @@ struct ActiveModuleLoadGuard
  **********************************************************************/
 struct Pothos::PluginModule::Impl
 {
+    //! Unload and delete: called once, when the last handle is gone
+    static void release(Impl *impl);
+
+    //! The module at each path, for as long as it is loaded
+    static std::map<std::string, std::weak_ptr<Impl>> &loaded(void)
+    {
+        static std::map<std::string, std::weak_ptr<Impl>> map;
+        return map;
+    }
+
     Poco::SharedLibrary sharedLibrary;
     std::string path;
     std::vector<std::string> pluginPaths;
     std::string version;
 };
 
+//! Modules released during a load in this thread: the loader is not reentrant, so they are unloaded after it
+static thread_local std::vector<std::function<void(void)>> *pendingReleases(nullptr);
+
+struct PendingReleasesGuard
+{
+    PendingReleasesGuard(void):
+        previous(pendingReleases)
+    {
+        pendingReleases = &releases;
+    }
+    ~PendingReleasesGuard(void)
+    {
+        pendingReleases = previous;
+        for (const auto &release : releases) release();
+    }
+    std::vector<std::function<void(void)>> releases, *previous;
+};
+
+void Pothos::PluginModule::Impl::release(Impl *impl)
+{
+    if (pendingReleases != nullptr)
+    {
+        pendingReleases->push_back(std::bind(&Impl::release, impl));
+        return;
+    }
+
+    std::unique_ptr<Impl> owner(impl);
+    if (not impl->sharedLibrary.isLoaded()) return; //module not loaded
+
+    poco_debug(Poco::Logger::get("Pothos.PluginModule.unload"), impl->sharedLibrary.getPath());
+    std::lock_guard<std::recursive_mutex> lock(getModuleMutex());
+    loaded().erase(impl->path);
+    for (const auto &pluginPath : takePluginPaths(impl->path))
+    {
+        try {PluginRegistry::remove(pluginPath);}
+        catch (const PluginRegistryError &){} //somebody else removed it
+    }
+    impl->sharedLibrary.unload();
+    getModuleCond().notify_all();
+}
+
 /***********************************************************************
  * Module implementation
  **********************************************************************/
@@ -98,20 +162,31 @@ Pothos::PluginModule::PluginModule(void)
     return;
 }
 
-Pothos::PluginModule::PluginModule(const std::string &path):
-    _impl(new Impl())
+Pothos::PluginModule::PluginModule(const std::string &path)
 {
-    _impl->path = path;
     poco_debug(Poco::Logger::get("Pothos.PluginModule.load"), path);
     try
     {
-        std::lock_guard<std::mutex> lock(getModuleMutex());
+        PendingReleasesGuard releases;
+        std::unique_lock<std::recursive_mutex> lock(getModuleMutex());
+
+        //use the module when its loaded already, or wait until its unload is done
+        for (auto it = Impl::loaded().find(path); it != Impl::loaded().end(); it = Impl::loaded().find(path))
+        {
+            _impl = it->second.lock();
+            if (_impl) return;
+            getModuleCond().wait(lock);
+        }
+
+        _impl.reset(new Impl(), &Impl::release);
+        _impl->path = path;
         {
             ActiveModuleLoadGuard guard(*this, _impl->version);
             ErrorMessageDisableGuard emdg;
             _impl->sharedLibrary.load(path);
         }
         _impl->pluginPaths = ::getPluginPaths(*this);
+        Impl::loaded()[path] = _impl;
     }
     catch(const Poco::LibraryLoadException &ex)
     {
@@ -121,16 +196,7 @@ Pothos::PluginModule::PluginModule(const std::string &path):
 
 Pothos::PluginModule::~PluginModule(void)
 {
-    if (not _impl) return; //no private data
-    if (not _impl.unique()) return; //this is not the last copy
-    if (not _impl->sharedLibrary.isLoaded()) return; //module not loaded
-
-    poco_debug(Poco::Logger::get("Pothos.PluginModule.unload"), _impl->sharedLibrary.getPath());
-    for (const auto &pluginPath : this->getPluginPaths())
-    {
-        PluginRegistry::remove(pluginPath);
-    }
-    _impl->sharedLibrary.unload();
+    return;
 }
 
 std::string Pothos::PluginModule::getFilePath(void) const
diff --git a/lib/Plugin/ModulePaths.cpp b/lib/Plugin/ModulePaths.cpp
index 539faaa..05743e7 100644
--- a/lib/Plugin/ModulePaths.cpp
+++ b/lib/Plugin/ModulePaths.cpp
@@ -26,10 +26,18 @@ std::vector<std::string> getPluginPaths(const Pothos::PluginModule &module)
     return getModulePathsMap()[module.getFilePath()];
 }
 
-void updatePluginAssociation(const std::string &action, const Pothos::Plugin &plugin)
+std::vector<std::string> takePluginPaths(const std::string &modulePath)
 {
     std::lock_guard<Pothos::Util::SpinLockRW> lock(getModulePathsMutex());
-    auto &v = getModulePathsMap()[plugin.getModule().getFilePath()];
+    std::vector<std::string> paths;
+    paths.swap(getModulePathsMap()[modulePath]);
+    return paths;
+}
+
+void updatePluginAssociation(const std::string &action, const Pothos::Plugin &plugin, const Pothos::PluginModule &module)
+{
+    std::lock_guard<Pothos::Util::SpinLockRW> lock(getModulePathsMutex());
+    auto &v = getModulePathsMap()[module.getFilePath()];
     const auto &path = plugin.getPath().toString();
     if (action == "add")
     {
diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 52f677d..6464f8d 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -152,7 +152,7 @@ void registrySetActiveModuleLoading(const Pothos::PluginModule &module)
     getActiveModuleLoading() = module;
 }
 
-void updatePluginAssociation(const std::string &action, const Pothos::Plugin &plugin);
+void updatePluginAssociation(const std::string &action, const Pothos::Plugin &plugin, const Pothos::PluginModule &module);
 
 /***********************************************************************
  * Registry implementation
@@ -162,6 +162,7 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
     //copy the plugin -- we need an rw copy to attach module to
     Plugin plugin = plugin_;
     const PluginPath &path = plugin.getPath();
+    PluginModule module; //its last handle must not go under the lock
 
     poco_debug(Poco::Logger::get("Pothos.PluginRegistry.add"), plugin.toString());
 
@@ -183,14 +184,15 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
         if (root->hasPlugin)
         {
             const auto newModulePath = getActiveModuleLoading().getFilePath();
-            const auto currentModulePath = root->plugin.getModule().getFilePath();
+            module = root->plugin.getModule();
+            const auto currentModulePath = module.getFilePath();
             throw Pothos::PluginRegistryError("Pothos::PluginRegistry::add("+path.toString()+")", Poco::format(
                 "plugin already registered\n\tLoading: %s, Conflicts: %s", newModulePath, currentModulePath));
         }
 
         //store the plugin and attach the module
         plugin = Plugin(plugin.getPath(), plugin.getObject(), getActiveModuleLoading());
-        updatePluginAssociation("add", plugin);
+        updatePluginAssociation("add", plugin, getActiveModuleLoading());
         root->hasPlugin = true;
         root->plugin = plugin;
     }
@@ -218,6 +220,7 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
     poco_debug(Poco::Logger::get("Pothos.PluginRegistry.remove"), path.toString());
 
     Plugin plugin;
+    PluginModule module; //its last handle must not go under the lock
     {
         std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
         const std::vector<std::string> pathNodes = path.listNodes();
@@ -237,7 +240,8 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
 
         //clear plugin entry and return result
         plugin = root->plugin;
-        updatePluginAssociation("remove", plugin);
+        module = plugin.getModule();
+        updatePluginAssociation("remove", plugin, module);
         root->hasPlugin = false;
         root->plugin = Plugin(); //clears
     }
@@ -281,7 +285,7 @@ Pothos::PluginRegistryInfoDump::PluginRegistryInfoDump(void)
     return;
 }
 
-static void loadInfoDump(const Pothos::PluginPath &path, const RegistryEntry &entry, Pothos::PluginRegistryInfoDump &dump)
+static void loadInfoDump(const Pothos::PluginPath &path, const RegistryEntry &entry, Pothos::PluginRegistryInfoDump &dump, std::vector<Pothos::PluginModule> &modules)
 {
     dump.pluginPath = path.toString();
     if (entry.hasPlugin)
@@ -289,21 +293,23 @@ static void loadInfoDump(const Pothos::PluginPath &path, const RegistryEntry &en
         assert(path == entry.plugin.getPath());
         const auto &obj = entry.plugin.getObject();
         if (obj) dump.objectType = obj.toString();
-        dump.modulePath = entry.plugin.getModule().getFilePath();
-        dump.moduleVersion = entry.plugin.getModule().getVersion();
+        modules.push_back(entry.plugin.getModule());
+        dump.modulePath = modules.back().getFilePath();
+        dump.moduleVersion = modules.back().getVersion();
     }
     for (const auto &name : entry.nodeNamesOrdered)
     {
         dump.subInfo.push_back(Pothos::PluginRegistryInfoDump());
-        loadInfoDump(path.join(name), entry.nodes.at(name), dump.subInfo.back());
+        loadInfoDump(path.join(name), entry.nodes.at(name), dump.subInfo.back(), modules);
     }
 }
 
 Pothos::PluginRegistryInfoDump Pothos::PluginRegistry::dump(void)
 {
+    std::vector<PluginModule> modules; //their last handles must not go under the lock
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
     PluginRegistryInfoDump dump;
-    loadInfoDump(PluginPath(), getRegistryRoot(), dump);
+    loadInfoDump(PluginPath(), getRegistryRoot(), dump, modules);
     return dump;
 }
 
-- 
2.43.0


From 3dc69bdd55155e569bb78d331c852cac8895b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:46 +0000
Subject: [PATCH 37/59] fix: keep the modules of plugin event handlers loaded
 while they are called

The handlers of a plugin event are collected under the registry lock and
called outside of it: a module unloaded in between had its code called.
---
 lib/Plugin/Registry.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 6464f8d..536c956 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -94,6 +94,7 @@ static void callPluginEventHandler(const Pothos::Object &handler, const Pothos::
 static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &event)
 {
     const Pothos::PluginPath &path = plugin.getPath();
+    std::vector<Pothos::PluginModule> parentModules; //keeps the handlers loaded, destroyed after them
     std::vector<Pothos::Plugin> parentPlugins;
 
     //traverse the tree - store a list of parent plugins
@@ -110,6 +111,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             root = &root->nodes[pathNodes[i]];
         }
         parentPlugins.insert(parentPlugins.begin(), root->plugin);
+        for (const auto &parent : parentPlugins) parentModules.push_back(parent.getModule());
     }
 
     //traverse back up the plugin tree -- calling all potential handlers
-- 
2.43.0


From 930291bfde8ebcba935418dbe033966b772eaf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:54 +0000
Subject: [PATCH 38/59] fix: a cached safe load is for exactly the files that
 were probed

---
 lib/Plugin/ModuleSafeLoad.cpp | 45 +++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/lib/Plugin/ModuleSafeLoad.cpp b/lib/Plugin/ModuleSafeLoad.cpp
index e34fa28..d821567 100644
--- a/lib/Plugin/ModuleSafeLoad.cpp
+++ b/lib/Plugin/ModuleSafeLoad.cpp
@@ -59,14 +59,14 @@ static std::string escape(const std::string &in)
     std::string out;
     for (const auto ch : in)
     {
-        if (std::isalnum(ch)) out.push_back(ch);
-        else out.push_back('_');
+        if (std::isalnum((unsigned char)ch)) out.push_back(ch);
+        else out += "_" + std::to_string((unsigned char)ch) + "_"; //different paths have different keys
     }
     return out;
 }
 
 //! Was a previous safe-load of this module successful?
-static bool previousLoadWasSuccessful(const std::string &modulePath)
+static bool previousLoadWasSuccessful(const std::string &modulePath, const std::string &libTime, const std::string &modTime)
 {
     std::lock_guard<std::mutex> mutexLock(getLoaderMutex());
     std::lock_guard<Pothos::Util::FileLock> fileLock(getLoaderFileLock());
@@ -75,8 +75,6 @@ static bool previousLoadWasSuccessful(const std::string &modulePath)
 
     try
     {
-        auto libTime = getLastModifiedTimeStr(Pothos::System::getPothosRuntimeLibraryPath());
-        auto modTime = getLastModifiedTimeStr(modulePath);
         auto cachedLibTime = cache->getString(escape(Pothos::System::getPothosRuntimeLibraryPath()));
         auto cachedModTime = cache->getString(escape(modulePath));
         return (libTime == cachedLibTime) and (modTime == cachedModTime);
@@ -85,17 +83,22 @@ static bool previousLoadWasSuccessful(const std::string &modulePath)
     return false;
 }
 
-//! Mark that the safe load of this module was successful
-static void markCurrentLoadSuccessful(const std::string &modulePath)
+//! Mark that the safe load of this module was successful with the times of the files that were loaded
+static void markCurrentLoadSuccessful(const std::string &modulePath, const std::string &libTime, const std::string &modTime)
 {
     std::lock_guard<std::mutex> mutexLock(getLoaderMutex());
     std::lock_guard<Pothos::Util::FileLock> fileLock(getLoaderFileLock());
+    const auto libPath = Pothos::System::getPothosRuntimeLibraryPath();
+    if (libTime != getLastModifiedTimeStr(libPath)) return; //replaced meanwhile
+    if (modTime != getLastModifiedTimeStr(modulePath)) return;
+
     Poco::AutoPtr<Poco::Util::PropertyFileConfiguration> cache(new Poco::Util::PropertyFileConfiguration());
     try {cache->load(getModuleLoaderCachePath());} catch(...){}
 
-    auto libTime = getLastModifiedTimeStr(Pothos::System::getPothosRuntimeLibraryPath());
-    auto modTime = getLastModifiedTimeStr(modulePath);
-    cache->setString(escape(Pothos::System::getPothosRuntimeLibraryPath()), libTime);
+    //what was loaded with another runtime library says nothing about this one
+    if (cache->getString(escape(libPath), "") != libTime) cache = new Poco::Util::PropertyFileConfiguration();
+
+    cache->setString(escape(libPath), libTime);
     cache->setString(escape(modulePath), modTime);
     try {cache->save(getModuleLoaderCachePath());} catch(...){}
 }
@@ -103,9 +106,12 @@ static void markCurrentLoadSuccessful(const std::string &modulePath)
 /***********************************************************************
  * module safe load implementation
  **********************************************************************/
-Pothos::PluginModule Pothos::PluginModule::safeLoad(const std::string &path)
+static void testLoadModule(const std::string &path)
 {
-    if (previousLoadWasSuccessful(path)) return PluginModule(path);
+    //the files may be replaced during the test load: these are the times of what it loads, or older
+    const auto libTime = getLastModifiedTimeStr(Pothos::System::getPothosRuntimeLibraryPath());
+    const auto modTime = getLastModifiedTimeStr(path);
+    if (previousLoadWasSuccessful(path, libTime, modTime)) return;
 
     const int success = 200;
 
@@ -133,7 +139,20 @@ Pothos::PluginModule Pothos::PluginModule::safeLoad(const std::string &path)
         throw Pothos::PluginModuleError("Pothos::PluginModule("+path+")", "failed safe load");
     }
 
+    markCurrentLoadSuccessful(path, libTime, modTime);
+}
+
+Pothos::PluginModule Pothos::PluginModule::safeLoad(const std::string &path)
+{
+    POTHOS_EXCEPTION_TRY
+    {
+        testLoadModule(path);
+    }
+    POTHOS_EXCEPTION_CATCH (const Exception &ex)
+    {
+        throw PluginModuleError("Pothos::PluginModule("+path+")", ex);
+    }
+
     //it was safe, load into this process now
-    markCurrentLoadSuccessful(path);
     return PluginModule(path);
 }
-- 
2.43.0


From c5586159e1f382a921425c9372603267be5043d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 39/59] fix: leave out the event handlers of a module that
 another thread unloads

---
 lib/Plugin/Module.cpp   | 10 ++++++++++
 lib/Plugin/Registry.cpp | 19 ++++++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index c534429..3c32c25 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -68,6 +68,14 @@ static std::condition_variable_any &getModuleCond(void)
     return cond;
 }
 
+//how many modules this thread is about to unload
+static thread_local size_t numModulesUnloading(0);
+
+bool isModuleUnloading(void)
+{
+    return numModulesUnloading != 0;
+}
+
 //where to store the version during module load
 static thread_local std::string *currentModuleVersion(nullptr);
 
@@ -139,11 +147,13 @@ void Pothos::PluginModule::Impl::release(Impl *impl)
     poco_debug(Poco::Logger::get("Pothos.PluginModule.unload"), impl->sharedLibrary.getPath());
     std::lock_guard<std::recursive_mutex> lock(getModuleMutex());
     loaded().erase(impl->path);
+    numModulesUnloading++;
     for (const auto &pluginPath : takePluginPaths(impl->path))
     {
         try {PluginRegistry::remove(pluginPath);}
         catch (const PluginRegistryError &){} //somebody else removed it
     }
+    numModulesUnloading--;
     impl->sharedLibrary.unload();
     getModuleCond().notify_all();
 }
diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 536c956..d39891a 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -22,9 +22,10 @@ static Pothos::Util::SpinLockRW &getRegistryMutex(void)
 struct RegistryEntry
 {
     RegistryEntry(void):
-        hasPlugin(false){}
+        hasPlugin(false), hasModule(false){}
     Pothos::Plugin plugin;
     bool hasPlugin;
+    bool hasModule; //added by the load of a module
     std::vector<std::string> nodeNamesOrdered; //so we know the order that they were added
     std::map<std::string, RegistryEntry> nodes;
 
@@ -91,6 +92,8 @@ static void callPluginEventHandler(const Pothos::Object &handler, const Pothos::
     }
 }
 
+bool isModuleUnloading(void);
+
 static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &event)
 {
     const Pothos::PluginPath &path = plugin.getPath();
@@ -104,14 +107,18 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
         const std::vector<std::string> pathNodes = path.listNodes();
         RegistryEntry *root = &getRegistryRoot();
 
-        for (size_t i = 0; i+1 < pathNodes.size(); i++)
+        for (size_t i = 0; true; i++)
         {
-            parentPlugins.insert(parentPlugins.begin(), root->plugin);
+            parentModules.push_back(root->plugin.getModule());
+            //another thread may be unloading this handler: its module cannot be kept loaded
+            if (not root->hasModule or parentModules.back() or isModuleUnloading())
+            {
+                parentPlugins.insert(parentPlugins.begin(), root->plugin);
+            }
+            if (i+1 >= pathNodes.size()) break;
             //next node in the tree at this node name
             root = &root->nodes[pathNodes[i]];
         }
-        parentPlugins.insert(parentPlugins.begin(), root->plugin);
-        for (const auto &parent : parentPlugins) parentModules.push_back(parent.getModule());
     }
 
     //traverse back up the plugin tree -- calling all potential handlers
@@ -196,6 +203,7 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
         plugin = Plugin(plugin.getPath(), plugin.getObject(), getActiveModuleLoading());
         updatePluginAssociation("add", plugin, getActiveModuleLoading());
         root->hasPlugin = true;
+        root->hasModule = bool(getActiveModuleLoading());
         root->plugin = plugin;
     }
 
@@ -245,6 +253,7 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
         module = plugin.getModule();
         updatePluginAssociation("remove", plugin, module);
         root->hasPlugin = false;
+        root->hasModule = false;
         root->plugin = Plugin(); //clears
     }
 
-- 
2.43.0


From d537d939fbc087ae2998a2408b2e006586e6a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:45 +0000
Subject: [PATCH 40/59] fix: repeated and concurrent init() calls are a NOP,
 deinit() cleans up all of it

---
 lib/Init.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/lib/Init.cpp b/lib/Init.cpp
index a8f979a..6499f98 100644
--- a/lib/Init.cpp
+++ b/lib/Init.cpp
@@ -8,6 +8,7 @@
 #include <Poco/Path.h>
 #include <Poco/File.h>
 #include <Poco/Format.h>
+#include <mutex>
 
 //from lib/Framework/ConfLoader.cpp
 std::vector<Pothos::PluginPath> Pothos_ConfLoader_loadConfFiles(void);
@@ -26,6 +27,8 @@ namespace Pothos {
         void unload(void);
 
     private:
+        std::mutex mutex;
+        bool loaded;
         std::vector<Pothos::PluginModule> modules;
         std::vector<Pothos::PluginPath> confLoadedPaths;
     };
@@ -40,25 +43,39 @@ Pothos::InitSingleton &Pothos::InitSingleton::instance(void)
 
 void Pothos::InitSingleton::load(void)
 {
-    if (not modules.empty()) return;
+    std::lock_guard<std::mutex> lock(mutex);
+    if (loaded) return;
     modules = PluginLoader::loadModules();
-    confLoadedPaths = Pothos_ConfLoader_loadConfFiles();
+    try
+    {
+        confLoadedPaths = Pothos_ConfLoader_loadConfFiles();
+    }
+    catch (...)
+    {
+        modules.clear();
+        throw;
+    }
+    loaded = true;
 }
 
 void Pothos::InitSingleton::unload(void)
 {
+    std::lock_guard<std::mutex> lock(mutex);
     for (const auto &path : confLoadedPaths)
     {
-        Pothos::PluginRegistry::remove(path);
+        try {Pothos::PluginRegistry::remove(path);}
+        catch (const PluginRegistryError &){} //somebody else removed it
     }
     confLoadedPaths.clear();
     modules.clear();
+    loaded = false;
 }
 
 /***********************************************************************
  * Actual init implementation
  **********************************************************************/
-Pothos::InitSingleton::InitSingleton(void)
+Pothos::InitSingleton::InitSingleton(void):
+    loaded(false)
 {
     //check the root
     const Poco::File rootPath(System::getRootPath());
-- 
2.43.0


From 9fa6851ac7584be1175bf9f16da60dcb52b7ebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:45 +0000
Subject: [PATCH 41/59] fix: one bad configuration file does not fail the
 initialisation

---
 lib/ConfLoader/ConfLoader.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/lib/ConfLoader/ConfLoader.cpp b/lib/ConfLoader/ConfLoader.cpp
index 6f55d15..0596661 100644
--- a/lib/ConfLoader/ConfLoader.cpp
+++ b/lib/ConfLoader/ConfLoader.cpp
@@ -40,17 +40,17 @@ static std::vector<Pothos::PluginPath> loadConfFile(const std::string &path)
         throw Pothos::Exception("ConfLoader("+path+")", ex.displayText());
     }
 
-    //store then config into a map structure
-    std::map<std::string, std::string> configMap;
-    Poco::Util::AbstractConfiguration::Keys keys; conf->keys(keys);
-    for (const auto &key : keys) configMap[key] = conf->getString(key);
-
-    //and other config file parameters
-    configMap["confFilePath"] = path;
-
     //handle the loader
     POTHOS_EXCEPTION_TRY
     {
+        //store then config into a map structure
+        std::map<std::string, std::string> configMap;
+        Poco::Util::AbstractConfiguration::Keys keys; conf->keys(keys);
+        for (const auto &key : keys) configMap[key] = conf->getString(key);
+
+        //and other config file parameters
+        configMap["confFilePath"] = path;
+
         //get the loader
         if (not conf->hasProperty("loader")) throw Pothos::Exception(
             Poco::format("%s does not specify a loader", path));
@@ -133,14 +133,19 @@ std::vector<Pothos::PluginPath> Pothos_ConfLoader_loadConfFiles(void)
         searchPaths.push_back(Poco::Path(confPath));
     }
 
-    //traverse the search paths and spawn futures
-    std::vector<std::future<std::vector<Pothos::PluginPath>>> futures;
+    //traverse the search paths, before anything is loaded because this may throw
+    std::vector<Poco::Path> paths;
     for (const auto &searchPath : searchPaths)
     {
-        for (const auto &path : getConfFilePaths(searchPath.absolute()))
-        {
-            futures.push_back(std::async(std::launch::async, &loadConfFile, path.toString()));
-        }
+        const auto subpaths = getConfFilePaths(searchPath.absolute());
+        paths.insert(paths.end(), subpaths.begin(), subpaths.end());
+    }
+
+    //spawn futures
+    std::vector<std::future<std::vector<Pothos::PluginPath>>> futures;
+    for (const auto &path : paths)
+    {
+        futures.push_back(std::async(std::launch::async, &loadConfFile, path.toString()));
     }
 
     //wait for completion of future module load
-- 
2.43.0


From f940fac55d0e38598d1e6fae22bdb4a76a6e76ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:45 +0000
Subject: [PATCH 42/59] fix: a rejected block description registers nothing

---
 lib/ConfLoader/BlockDescLoader.cpp | 39 ++++++++++++++++++------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/lib/ConfLoader/BlockDescLoader.cpp b/lib/ConfLoader/BlockDescLoader.cpp
index de4c741..7f88af4 100644
--- a/lib/ConfLoader/BlockDescLoader.cpp
+++ b/lib/ConfLoader/BlockDescLoader.cpp
@@ -23,26 +23,35 @@ static std::vector<Pothos::PluginPath> blockDescParser(std::istream &is, std::ve
     //parse the stream into a JSON array
     auto arrayOut = json::parse(is);
     if (arrayOut.is_object()) arrayOut = {arrayOut};
-    for (const auto &obj : arrayOut)
+    try
     {
-        const std::string JsonObjStr(obj.dump());
-
-        std::vector<std::string> paths;
-        paths.push_back(obj["path"]);
-        for (const auto &alias : obj.value("aliases", json::array()))
+        for (const auto &obj : arrayOut)
         {
-            paths.push_back(alias);
-        }
+            const std::string JsonObjStr(obj.dump());
 
-        //register the block description for every path
-        for (const auto &path : paths)
-        {
-            const auto pluginPath = Pothos::PluginPath("/blocks/docs", path);
-            Pothos::PluginRegistry::add(pluginPath, JsonObjStr);
-            entries.push_back(pluginPath);
-            blockPaths.push_back(Pothos::PluginPath("/blocks", path));
+            std::vector<std::string> paths;
+            paths.push_back(obj.at("path"));
+            for (const auto &alias : obj.value("aliases", json::array()))
+            {
+                paths.push_back(alias);
+            }
+
+            //register the block description for every path
+            for (const auto &path : paths)
+            {
+                const auto pluginPath = Pothos::PluginPath("/blocks/docs", path);
+                Pothos::PluginRegistry::add(pluginPath, JsonObjStr);
+                entries.push_back(pluginPath);
+                blockPaths.push_back(Pothos::PluginPath("/blocks", path));
+            }
         }
     }
+    catch (...)
+    {
+        //the caller does not get to know the entries, leave none behind
+        for (const auto &entry : entries) Pothos::PluginRegistry::remove(entry);
+        throw;
+    }
     return entries;
 }
 
-- 
2.43.0


From 114d6c2f65a744c0d1200674e67a8fffa45b3f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:45 +0000
Subject: [PATCH 43/59] fix: a rejected compiler configuration removes what it
 registered and nothing else

---
 lib/ConfLoader/JITCompilerLoader.cpp | 55 +++++++++++++++++-----------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/lib/ConfLoader/JITCompilerLoader.cpp b/lib/ConfLoader/JITCompilerLoader.cpp
index 4bce11f..4f72f95 100644
--- a/lib/ConfLoader/JITCompilerLoader.cpp
+++ b/lib/ConfLoader/JITCompilerLoader.cpp
@@ -34,6 +34,8 @@ struct RegistryJITResult
 
     std::vector<Pothos::PluginPath> factories; //!< factories created by this module
 
+    std::vector<Pothos::PluginPath> registered; //!< factories currently registered by the handle
+
     std::exception_ptr exception; //!< saved exception thrown while compiling
 
     Pothos::Util::CompilerArgs compilerArgs; //! Compiler arguments
@@ -42,11 +44,12 @@ struct RegistryJITResult
 
     void removeRegistrations(void)
     {
-        for (const auto &factoryPath : this->factories)
+        for (const auto &factoryPath : this->registered)
         {
-            Pothos::PluginRegistry::remove(factoryPath);
+            try {Pothos::PluginRegistry::remove(factoryPath);}
+            catch (const Pothos::PluginRegistryError &){} //somebody else removed it
         }
-        factories.clear();
+        registered.clear();
     }
 
     ~RegistryJITResult(void)
@@ -227,29 +230,39 @@ static std::vector<Pothos::PluginPath> JITCompilerLoader(const std::map<std::str
     Pothos::Util::BlockDescriptionParser parser;
     for (const auto &source : docSources) parser.feedFilePath(source);
 
-    //store block paths in handle, and store doc paths
-    for (const auto &factory : parser.listFactories())
+    try
     {
-        const auto pluginPath = Pothos::PluginPath("/blocks/docs", factory);
-        Pothos::PluginRegistry::add(pluginPath, parser.getJSONObject(factory));
+        //store block paths in handle, and store doc paths
+        for (const auto &factory : parser.listFactories())
+        {
+            const auto pluginPath = Pothos::PluginPath("/blocks/docs", factory);
+            Pothos::PluginRegistry::add(pluginPath, parser.getJSONObject(factory));
+            entries.push_back(pluginPath);
+            handle->factories.push_back(Pothos::PluginPath("/blocks", factory));
+        }
+
+        //register for all factory paths
+        //the handle retains ownership of the factory calls
+        for (const auto &pluginPath : handle->factories)
+        {
+            const auto factory = Pothos::Callable(&opaqueJITCompilerFactory)
+                .bind(handle.get(), 0)
+                .bind(pluginPath, 1);
+            Pothos::PluginRegistry::addCall(pluginPath, factory);
+            handle->registered.push_back(pluginPath);
+        }
+
+        //store the handle in the registry
+        const auto pluginPath = Pothos::PluginPath("/framework/conf_loader/jit_compiler/handles").join(handle->target);
+        Pothos::PluginRegistry::add(pluginPath, handle);
         entries.push_back(pluginPath);
-        handle->factories.push_back(Pothos::PluginPath("/blocks", factory));
     }
-
-    //register for all factory paths
-    //the handle retains ownership of the factory calls
-    for (const auto &pluginPath : handle->factories)
+    catch (...)
     {
-        const auto factory = Pothos::Callable(&opaqueJITCompilerFactory)
-            .bind(handle.get(), 0)
-            .bind(pluginPath, 1);
-        Pothos::PluginRegistry::addCall(pluginPath, factory);
+        //the caller does not get to know the entries, leave none behind
+        for (const auto &entry : entries) Pothos::PluginRegistry::remove(entry);
+        throw;
     }
-
-    //store the handle in the registry
-    const auto pluginPath = Pothos::PluginPath("/framework/conf_loader/jit_compiler/handles").join(handle->target);
-    Pothos::PluginRegistry::add(pluginPath, handle);
-    entries.push_back(pluginPath);
     return entries;
 }
 
-- 
2.43.0


From 25b6afc1fb1794b3c9ca4a61fb367ff03268013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:26 +0000
Subject: [PATCH 44/59] fix: the first block of a compiled module is made like
 any other block

---
 lib/ConfLoader/JITCompilerLoader.cpp | 9 +++++----
 lib/Framework/BlockRegistry.cpp      | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/ConfLoader/JITCompilerLoader.cpp b/lib/ConfLoader/JITCompilerLoader.cpp
index 4f72f95..ed0a459 100644
--- a/lib/ConfLoader/JITCompilerLoader.cpp
+++ b/lib/ConfLoader/JITCompilerLoader.cpp
@@ -22,6 +22,9 @@ static Poco::Logger &sourceLoaderLogger(void)
     return logger;
 }
 
+//from lib/Framework/BlockRegistry.cpp
+Pothos::Object blockRegistryMake(const std::string &path, const Pothos::Object *args, const size_t numArgs);
+
 /*!
  * Shared data structure for a JIT entry:
  * An entry has multiple factories but only one compilation unit.
@@ -139,10 +142,8 @@ static Pothos::Object opaqueJITCompilerFactory(
         handle->pluginModule = Pothos::PluginModule(outPath.toString());
     }
 
-    //the actual function from the compiled module
-    const auto plugin = Pothos::PluginRegistry::get(pluginPath);
-    const auto &call = plugin.getObject().extract<Pothos::Callable>();
-    return call.opaqueCall(args, numArgs);
+    //the actual function from the compiled module, called as for any other block
+    return blockRegistryMake(pluginPath.toString().substr(std::string("/blocks").size()), args, numArgs);
 }
 
 /***********************************************************************
diff --git a/lib/Framework/BlockRegistry.cpp b/lib/Framework/BlockRegistry.cpp
index b70d31c..860cef6 100644
--- a/lib/Framework/BlockRegistry.cpp
+++ b/lib/Framework/BlockRegistry.cpp
@@ -73,7 +73,7 @@ Pothos::BlockRegistry::BlockRegistry(const std::string &path, const Callable &fa
 /***********************************************************************
  * BlockRegistry factory - retrieve factory and instantiate with args
  **********************************************************************/
-static Pothos::Object blockRegistryMake(const std::string &path, const Pothos::Object *args, const size_t numArgs)
+Pothos::Object blockRegistryMake(const std::string &path, const Pothos::Object *args, const size_t numArgs)
 {
     const auto pluginPath = Pothos::PluginPath("/blocks", path);
     const auto plugin = Pothos::PluginRegistry::get(pluginPath);
-- 
2.43.0


From 44a9eda6dd7163bfdb75d18dea0c5d5134d06c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 45/59] fix: blocks compiled on demand stay registered while
 their module gets loaded, or fails to

---
 lib/ConfLoader/JITCompilerLoader.cpp | 60 ++++++++++++++++------------
 lib/Plugin/Registry.cpp              | 26 +++++++++++-
 2 files changed, 58 insertions(+), 28 deletions(-)

diff --git a/lib/ConfLoader/JITCompilerLoader.cpp b/lib/ConfLoader/JITCompilerLoader.cpp
index ed0a459..3549281 100644
--- a/lib/ConfLoader/JITCompilerLoader.cpp
+++ b/lib/ConfLoader/JITCompilerLoader.cpp
@@ -22,6 +22,9 @@ static Poco::Logger &sourceLoaderLogger(void)
     return logger;
 }
 
+//from lib/Plugin/Registry.cpp
+void registrySetReplaceable(const Pothos::PluginPath &path);
+
 //from lib/Framework/BlockRegistry.cpp
 Pothos::Object blockRegistryMake(const std::string &path, const Pothos::Object *args, const size_t numArgs);
 
@@ -49,7 +52,11 @@ struct RegistryJITResult
     {
         for (const auto &factoryPath : this->registered)
         {
-            try {Pothos::PluginRegistry::remove(factoryPath);}
+            try
+            {
+                if (Pothos::PluginRegistry::get(factoryPath).getModule()) continue; //replaced by the module
+                Pothos::PluginRegistry::remove(factoryPath);
+            }
             catch (const Pothos::PluginRegistryError &){} //somebody else removed it
         }
         registered.clear();
@@ -109,37 +116,37 @@ static Pothos::Object opaqueJITCompilerFactory(
     //re-throw if a previous call failed
     if (handle->exception) std::rethrow_exception(handle->exception);
 
-    //determine output file
-    Poco::Path outPath(Pothos::System::getUserDataPath());
-    outPath.append("modules");
-    Poco::File(outPath).createDirectories();
-    outPath.append(handle->target + Poco::SharedLibrary::suffix());
-
-    //file lock for compilation atomicity across processes
-    Pothos::Util::FileLock outputFileLock(outPath.toString());
-    std::lock_guard<Pothos::Util::FileLock> fileLock(outputFileLock);
-
-    //compile if changed
-    try
-    {
-        compilationHelper(handle, outPath);
-    }
-    catch (const Pothos::Exception &ex)
-    {
-        handle->exception = std::current_exception();
-        sourceLoaderLogger().error(ex.message());
-        throw;
-    }
-
-    //load the module, only once for all registered entries
+    //compile and load the module, only once for all registered entries
     if (not handle->pluginModule)
     {
-        //remove all registrations before loading
-        handle->removeRegistrations();
+        //determine output file
+        Poco::Path outPath(Pothos::System::getUserDataPath());
+        outPath.append("modules");
+        Poco::File(outPath).createDirectories();
+        outPath.append(handle->target + Poco::SharedLibrary::suffix());
+
+        //file lock for compilation atomicity across processes
+        Pothos::Util::FileLock outputFileLock(outPath.toString());
+        std::lock_guard<Pothos::Util::FileLock> fileLock(outputFileLock);
+
+        //compile if changed
+        try
+        {
+            compilationHelper(handle, outPath);
+        }
+        catch (const Pothos::Exception &ex)
+        {
+            handle->exception = std::current_exception();
+            sourceLoaderLogger().error(ex.message());
+            throw;
+        }
 
         //load the newly compiled library with plugin module
         //the plugin module now owns the factory path entries
         handle->pluginModule = Pothos::PluginModule(outPath.toString());
+
+        //remove the registrations that the module did not replace
+        handle->removeRegistrations();
     }
 
     //the actual function from the compiled module, called as for any other block
@@ -251,6 +258,7 @@ static std::vector<Pothos::PluginPath> JITCompilerLoader(const std::map<std::str
                 .bind(pluginPath, 1);
             Pothos::PluginRegistry::addCall(pluginPath, factory);
             handle->registered.push_back(pluginPath);
+            registrySetReplaceable(pluginPath);
         }
 
         //store the handle in the registry
diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index d39891a..7a77ac1 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -22,10 +22,11 @@ static Pothos::Util::SpinLockRW &getRegistryMutex(void)
 struct RegistryEntry
 {
     RegistryEntry(void):
-        hasPlugin(false), hasModule(false){}
+        hasPlugin(false), hasModule(false), replaceable(false){}
     Pothos::Plugin plugin;
     bool hasPlugin;
     bool hasModule; //added by the load of a module
+    bool replaceable; //the load of a module may add another plugin here
     std::vector<std::string> nodeNamesOrdered; //so we know the order that they were added
     std::map<std::string, RegistryEntry> nodes;
 
@@ -171,6 +172,8 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
     //copy the plugin -- we need an rw copy to attach module to
     Plugin plugin = plugin_;
     const PluginPath &path = plugin.getPath();
+    Plugin replaced;
+    bool replacing = false;
     PluginModule module; //its last handle must not go under the lock
 
     poco_debug(Poco::Logger::get("Pothos.PluginRegistry.add"), plugin.toString());
@@ -190,7 +193,14 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
         }
 
         //throw if the root already has a plugin
-        if (root->hasPlugin)
+        replacing = root->hasPlugin and root->replaceable and getActiveModuleLoading();
+        if (replacing)
+        {
+            replaced = root->plugin;
+            module = replaced.getModule();
+            updatePluginAssociation("remove", replaced, module);
+        }
+        else if (root->hasPlugin)
         {
             const auto newModulePath = getActiveModuleLoading().getFilePath();
             module = root->plugin.getModule();
@@ -204,9 +214,11 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
         updatePluginAssociation("add", plugin, getActiveModuleLoading());
         root->hasPlugin = true;
         root->hasModule = bool(getActiveModuleLoading());
+        root->replaceable = false;
         root->plugin = plugin;
     }
 
+    if (replacing) handlePluginEvent(replaced, "remove");
     handlePluginEvent(plugin, "add");
     handleMissedSubTreeEvents(plugin.getObject(), plugin.getPath());
 }
@@ -254,6 +266,7 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
         updatePluginAssociation("remove", plugin, module);
         root->hasPlugin = false;
         root->hasModule = false;
+        root->replaceable = false;
         root->plugin = Plugin(); //clears
     }
 
@@ -261,6 +274,15 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
     return plugin;
 }
 
+//! Let the load of a module replace the plugin at this path, so the path is never without a plugin
+void registrySetReplaceable(const Pothos::PluginPath &path)
+{
+    std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
+    RegistryEntry *root = &getRegistryRoot();
+    for (const auto &name : path.listNodes()) root = &root->nodes[name];
+    root->replaceable = root->hasPlugin;
+}
+
 bool Pothos::PluginRegistry::empty(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-- 
2.43.0


From de860f723b14dd07e546f51d946bedaf0712319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:30 +0000
Subject: [PATCH 46/59] fix: a compiled module is used only when completely
 written and not older than its sources

---
 lib/ConfLoader/JITCompilerLoader.cpp | 30 +++++++++++++++-------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/lib/ConfLoader/JITCompilerLoader.cpp b/lib/ConfLoader/JITCompilerLoader.cpp
index 3549281..bad63d6 100644
--- a/lib/ConfLoader/JITCompilerLoader.cpp
+++ b/lib/ConfLoader/JITCompilerLoader.cpp
@@ -11,6 +11,7 @@
 #include <Poco/File.h>
 #include <Poco/StringTokenizer.h>
 #include <Poco/SharedLibrary.h>
+#include <algorithm>
 #include <memory>
 #include <mutex>
 #include <cctype>
@@ -75,20 +76,15 @@ static void compilationHelper(
     RegistryJITResult *handle,
     const Poco::File &outFile)
 {
-    //check if we need to recompile
-    bool recompile = false;
-    if (outFile.exists() and outFile.getSize() != 0)
+    //the newest of the inputs, before they are compiled
+    Poco::Timestamp newest = Poco::File(Pothos::System::getPothosDevLibraryPath()).getLastModified();
+    for (const auto &source : handle->compilerArgs.sources)
     {
-        const auto lastTimeCompiled = outFile.getLastModified();
-        const auto devLib = Pothos::System::getPothosDevLibraryPath();
-        if (Poco::File(devLib).getLastModified() > lastTimeCompiled) recompile = true;
-        for (const auto &source : handle->compilerArgs.sources)
-        {
-            if (Poco::File(source).getLastModified() > lastTimeCompiled) recompile = true;
-        }
+        newest = std::max(newest, Poco::File(source).getLastModified());
     }
-    else recompile = true;
-    if (not recompile) return;
+
+    //check if we need to recompile
+    if (outFile.exists() and outFile.getSize() != 0 and newest <= outFile.getLastModified()) return;
 
     //compiler instance
     const auto compiler = Pothos::Util::Compiler::make();
@@ -96,7 +92,12 @@ static void compilationHelper(
     //compile
     sourceLoaderLogger().information("Compile sources for %s...", handle->target);
     const auto tmpOutput = compiler->compileCppModule(handle->compilerArgs);
-    Poco::File(tmpOutput).moveTo(outFile.path());
+
+    //the output appears when complete, and inputs that change during the compilation are newer
+    Poco::File completeOutput(outFile.path() + ".tmp");
+    Poco::File(tmpOutput).moveTo(completeOutput.path());
+    completeOutput.setLastModified(newest);
+    completeOutput.renameTo(outFile.path());
     sourceLoaderLogger().information("Wrote %s", outFile.path());
 }
 
@@ -126,7 +127,8 @@ static Pothos::Object opaqueJITCompilerFactory(
         outPath.append(handle->target + Poco::SharedLibrary::suffix());
 
         //file lock for compilation atomicity across processes
-        Pothos::Util::FileLock outputFileLock(outPath.toString());
+        //not on the output itself, which gets replaced
+        Pothos::Util::FileLock outputFileLock(outPath.toString() + ".lock");
         std::lock_guard<Pothos::Util::FileLock> fileLock(outputFileLock);
 
         //compile if changed
-- 
2.43.0


From 22da0c62b92e5420c47923a82ec80efd146a2e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 47/59] fix: release the objects of a remote client that
 vanished

A client whose connection breaks cannot release what it made. The objects
stayed in the map of the server process for ever.
---
 include/Pothos/Remote/Handler.hpp |  3 ++
 lib/Remote/ServerHandler.cpp      | 53 ++++++++++++++++++++++++++-----
 2 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/include/Pothos/Remote/Handler.hpp b/include/Pothos/Remote/Handler.hpp
index 9eb3081..7e83c38 100644
--- a/include/Pothos/Remote/Handler.hpp
+++ b/include/Pothos/Remote/Handler.hpp
@@ -10,6 +10,7 @@
 
 #pragma once
 #include <Pothos/Config.hpp>
+#include <memory>
 #include <string>
 #include <iosfwd>
 
@@ -48,6 +49,8 @@ public:
 
 private:
     const std::string _peerAddr;
+    struct Session;
+    std::shared_ptr<Session> _session;
 };
 
 } //namespace Pothos
diff --git a/lib/Remote/ServerHandler.cpp b/lib/Remote/ServerHandler.cpp
index 3a9e8d0..f37ab2f 100644
--- a/lib/Remote/ServerHandler.cpp
+++ b/lib/Remote/ServerHandler.cpp
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <mutex>
 #include <map>
+#include <set>
 
 /***********************************************************************
  * Active objects on the server
@@ -57,6 +58,40 @@ static void removeObjectAtId(const Pothos::Object &id)
     getObjectsMap().erase(it);
 }
 
+/***********************************************************************
+ * The objects that a client made and did not release yet.
+ * The client may vanish without releasing them:
+ * they are released with the handler that served the client.
+ **********************************************************************/
+struct Pothos::RemoteHandler::Session
+{
+    ~Session(void)
+    {
+        //in the reverse order of creation
+        for (auto it = ids.rbegin(); it != ids.rend(); it++) removeObjectAtId(Pothos::Object(*it));
+    }
+
+    Pothos::Object add(const Pothos::Object &obj)
+    {
+        const auto id = getNewObjectId(obj);
+        std::lock_guard<std::mutex> lock(mutex);
+        ids.insert(id.extract<size_t>());
+        return id;
+    }
+
+    void remove(const Pothos::Object &id)
+    {
+        {
+            std::lock_guard<std::mutex> lock(mutex);
+            ids.erase(id.convert<size_t>());
+        }
+        removeObjectAtId(id);
+    }
+
+    std::mutex mutex;
+    std::set<size_t> ids;
+};
+
 /***********************************************************************
  * Handler implementation
  **********************************************************************/
@@ -83,7 +118,7 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
             }
             const auto &name = reqArgs.at("name").extract<std::string>();
             const auto &env = Pothos::ProxyEnvironment::make(name, envArgs);
-            replyArgs["envID"] = getNewObjectId(Pothos::Object(env));
+            replyArgs["envID"] = _session->add(Pothos::Object(env));
 
             //a unique process ID for this server
             const auto info = Pothos::System::HostInfo::get();
@@ -93,20 +128,20 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
         }
         else if (action == "~RemoteProxyEnvironment")
         {
-            removeObjectAtId(reqArgs.at("envID"));
+            _session->remove(reqArgs.at("envID"));
             done = true;
         }
         else if (action == "findProxy")
         {
             const auto env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
             const auto &proxy = env->findProxy(reqArgs.at("name").extract<std::string>());
-            replyArgs["handleID"] = getNewObjectId(Pothos::Object(proxy));
+            replyArgs["handleID"] = _session->add(Pothos::Object(proxy));
         }
         else if (action == "convertObjectToProxy")
         {
             const auto env = getObjectAtId(reqArgs.at("envID")).extract<Pothos::ProxyEnvironment::Sptr>();
             const auto &proxy = env->convertObjectToProxy(reqArgs.at("local"));
-            replyArgs["handleID"] = getNewObjectId(Pothos::Object(proxy));
+            replyArgs["handleID"] = _session->add(Pothos::Object(proxy));
         }
         else if (action == "convertProxyToObject")
         {
@@ -117,7 +152,7 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
         }
         else if (action == "~RemoteProxyHandle")
         {
-            removeObjectAtId(reqArgs.at("handleID"));
+            _session->remove(reqArgs.at("handleID"));
         }
         else if (action == "call")
         {
@@ -138,7 +173,7 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
             {
                 const auto &name = reqArgs.at("name").extract<std::string>();
                 auto result = proxy.getHandle()->call(name, args.data(), args.size());
-                replyArgs["handleID"] = getNewObjectId(Pothos::Object(result));
+                replyArgs["handleID"] = _session->add(Pothos::Object(result));
             }
             catch (const Pothos::ProxyExceptionMessage &ex)
             {
@@ -193,13 +228,15 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
     return done;
 }
 
-Pothos::RemoteHandler::RemoteHandler(void)
+Pothos::RemoteHandler::RemoteHandler(void):
+    _session(std::make_shared<Session>())
 {
     return;
 }
 
 Pothos::RemoteHandler::RemoteHandler(const std::string &peerAddr):
-    _peerAddr(peerAddr)
+    _peerAddr(peerAddr),
+    _session(std::make_shared<Session>())
 {
     return;
 }
-- 
2.43.0


From bc9d299604a1f942cb0379078357b5e4bdd1196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 48/59] fix: RemoteServer closed its pipes while the forwarding
 threads read them

---
 lib/Remote/Server.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Remote/Server.cpp b/lib/Remote/Server.cpp
index 1d82495..d6e6e27 100644
--- a/lib/Remote/Server.cpp
+++ b/lib/Remote/Server.cpp
@@ -33,10 +33,12 @@ struct Pothos::RemoteServer::Impl
     {
         client = RemoteClient(); //reset
         Poco::Process::requestTermination(ph.id());
-        outPipe.close();
-        errPipe.close();
+        //the forwarding threads stop at the end of the output,
+        //only then may the pipes that they read be closed
         if (outThread.joinable()) outThread.join();
         if (errThread.joinable()) errThread.join();
+        outPipe.close();
+        errPipe.close();
         ph.wait();
     }
 
-- 
2.43.0


From 3f2ac8df06dbf3b5a9fcc63fc80f1e9e15254068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 49/59] fix: RemoteServer lost the error message of a server
 that failed to start

---
 lib/Remote/Server.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/Remote/Server.cpp b/lib/Remote/Server.cpp
index d6e6e27..b67288f 100644
--- a/lib/Remote/Server.cpp
+++ b/lib/Remote/Server.cpp
@@ -99,27 +99,25 @@ Pothos::RemoteServer::RemoteServer(const std::string &uriStr, const bool closePi
     }
     const bool readPortError = _impl->actualPort.empty();
 
+    //save our pipes to be used with syslog
+    _impl->outPipe = outPipe;
+    _impl->errPipe = errPipe;
+
     //close pipes to not overfill and backup
-    if (closePipes or readPortError)
+    if (closePipes and not readPortError)
     {
         outPipe.close();
         errPipe.close();
     }
-    //save our pipes to be used with syslog
-    else
-    {
-        _impl->outPipe = outPipe;
-        _impl->errPipe = errPipe;
-    }
 
     //An error spawning the process above could have caused a problem,
     //which can be detected when the parsing of the port fails.
     if (readPortError)
     {
-        _impl.reset(); //kills process
         std::string errMsg;
 
-        //collect error message
+        //collect error message while the pipe is still open
+        Poco::Process::requestTermination(_impl->ph.id());
         try
         {
             Poco::PipeInputStream ies(errPipe);
@@ -127,10 +125,12 @@ Pothos::RemoteServer::RemoteServer(const std::string &uriStr, const bool closePi
                 std::istreambuf_iterator<char>(ies),
                 std::istreambuf_iterator<char>());
         }
-        //If the process failed to launch,
-        //poco throws an assertion exception.
+        catch (...){}
+        _impl.reset(); //kills process
+
+        //If the process failed to launch, it does not print anything.
         //Produce a more useful error message:
-        catch (...)
+        if (errMsg.empty())
         {
             errMsg = "Failed to launch server process: ";
             errMsg += System::getPothosUtilExecutablePath();
-- 
2.43.0


From 1f33b55501fdf038e55727797d835ea135b67bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 50/59] fix: RemoteServer let Poco and std exceptions out
 instead of RemoteServerError

---
 lib/Remote/Server.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/Remote/Server.cpp b/lib/Remote/Server.cpp
index b67288f..cc2059b 100644
--- a/lib/Remote/Server.cpp
+++ b/lib/Remote/Server.cpp
@@ -78,10 +78,17 @@ Pothos::RemoteServer::RemoteServer(const std::string &uriStr, const bool closePi
     //launch
     Poco::Pipe outPipe, errPipe;
     Poco::Process::Env env;
-    Poco::ProcessHandle ph(Poco::Process::launch(
-        System::getPothosUtilExecutablePath(),
-        args, nullptr, &outPipe, &errPipe, env));
-    _impl.reset(new Impl(ph));
+    try
+    {
+        Poco::ProcessHandle ph(Poco::Process::launch(
+            System::getPothosUtilExecutablePath(),
+            args, nullptr, &outPipe, &errPipe, env));
+        _impl.reset(new Impl(ph));
+    }
+    catch (const Poco::Exception &ex)
+    {
+        throw RemoteServerError("Pothos::RemoteServer("+uriStr+")", ex.displayText());
+    }
     _impl->uriStr = uriStr;
 
     //read back the port from the server
@@ -142,6 +149,7 @@ Pothos::RemoteServer::RemoteServer(const std::string &uriStr, const bool closePi
 
     //Try to connect to the server.
     //Store an open connection within this server wrapper.
+    POTHOS_EXCEPTION_TRY
     {
         Poco::URI uri(uriStr);
         uri.setPort(std::stoul(this->getActualPort()));
@@ -157,6 +165,10 @@ Pothos::RemoteServer::RemoteServer(const std::string &uriStr, const bool closePi
 
         _impl->client = RemoteClient(uri.toString());
     }
+    POTHOS_EXCEPTION_CATCH(const Exception &ex)
+    {
+        throw RemoteServerError("Pothos::RemoteServer("+uriStr+")", ex);
+    }
 }
 
 const std::string &Pothos::RemoteServer::getUri(void) const
-- 
2.43.0


From 675bb97cf4fb4c0221623bc886d6d01cb889eca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 51/59] fix: one failed send stopped the forwarding of a
 server's output for ever

---
 lib/Remote/Server.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/Remote/Server.cpp b/lib/Remote/Server.cpp
index cc2059b..a072d45 100644
--- a/lib/Remote/Server.cpp
+++ b/lib/Remote/Server.cpp
@@ -209,17 +209,19 @@ static Poco::Message::Priority guessPrio(const std::string &msg)
 static void pipeToSyslogWorker(Poco::AutoPtr<Poco::Channel> channel, const Poco::Pipe &pipe, const std::string &source)
 {
     Poco::PipeInputStream is(pipe);
-    try
+    std::string line;
+    while (is.good())
     {
-        std::string line;
-        while (is.good())
+        std::getline(is, line);
+        if (line.empty()) continue;
+        //a line that cannot be forwarded is dropped, but keep reading:
+        //otherwise the server would block once the pipe is full
+        try
         {
-            std::getline(is, line);
-            if (line.empty()) continue;
             channel->log(Poco::Message(source, line, guessPrio(line)));
         }
+        catch (...){}
     }
-    catch (...){}
 }
 
 //! Create the syslog channel and forwarding threads
-- 
2.43.0


From 9455bfed8d9e1a2f6ebc74ef8e64e28bbb735224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 52/59] fix: a second RemoteServer::startSyslogForwarding()
 ended the process

---
 lib/Remote/Server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Remote/Server.cpp b/lib/Remote/Server.cpp
index a072d45..0e61545 100644
--- a/lib/Remote/Server.cpp
+++ b/lib/Remote/Server.cpp
@@ -228,6 +228,8 @@ static void pipeToSyslogWorker(Poco::AutoPtr<Poco::Channel> channel, const Poco:
 void Pothos::RemoteServer::startSyslogForwarding(const std::string &addr, const std::string &source)
 {
     assert(_impl);
+    if (_impl->outThread.joinable()) throw RemoteServerError(
+        "Pothos::RemoteServer::startSyslogForwarding("+addr+")", "already forwarding");
     Poco::AutoPtr<Poco::Channel> channel(new Poco::Net::RemoteSyslogChannel(addr, ""/*empty name*/));
     _impl->outThread = std::thread(std::bind(&pipeToSyslogWorker, channel, _impl->outPipe, source));
     _impl->errThread = std::thread(std::bind(&pipeToSyslogWorker, channel, _impl->errPipe, source));
-- 
2.43.0


From c670609c7c3fbb3b955891d4817b3f7c3fa27846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 53/59] fix: output that a server printed right after its port
 was not forwarded

---
 lib/Remote/Server.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/Remote/Server.cpp b/lib/Remote/Server.cpp
index 0e61545..ebf3ad4 100644
--- a/lib/Remote/Server.cpp
+++ b/lib/Remote/Server.cpp
@@ -49,6 +49,7 @@ struct Pothos::RemoteServer::Impl
 
     //members used for syslog forwarding
     Poco::Pipe outPipe, errPipe;
+    std::shared_ptr<Poco::PipeInputStream> outStream; //may hold more than what was read back
     std::thread outThread, errThread;
 };
 
@@ -92,7 +93,8 @@ Pothos::RemoteServer::RemoteServer(const std::string &uriStr, const bool closePi
     _impl->uriStr = uriStr;
 
     //read back the port from the server
-    Poco::PipeInputStream is(outPipe);
+    _impl->outStream = std::make_shared<Poco::PipeInputStream>(outPipe);
+    auto &is = *_impl->outStream;
     while (is.good() and not is.eof())
     {
         std::string line; std::getline(is, line);
@@ -206,13 +208,12 @@ static Poco::Message::Priority guessPrio(const std::string &msg)
 }
 
 //! Worker thread operation to read the pipe and forward to the syslog channel
-static void pipeToSyslogWorker(Poco::AutoPtr<Poco::Channel> channel, const Poco::Pipe &pipe, const std::string &source)
+static void pipeToSyslogWorker(Poco::AutoPtr<Poco::Channel> channel, std::shared_ptr<std::istream> is, const std::string &source)
 {
-    Poco::PipeInputStream is(pipe);
     std::string line;
-    while (is.good())
+    while (is->good())
     {
-        std::getline(is, line);
+        std::getline(*is, line);
         if (line.empty()) continue;
         //a line that cannot be forwarded is dropped, but keep reading:
         //otherwise the server would block once the pipe is full
@@ -231,8 +232,9 @@ void Pothos::RemoteServer::startSyslogForwarding(const std::string &addr, const
     if (_impl->outThread.joinable()) throw RemoteServerError(
         "Pothos::RemoteServer::startSyslogForwarding("+addr+")", "already forwarding");
     Poco::AutoPtr<Poco::Channel> channel(new Poco::Net::RemoteSyslogChannel(addr, ""/*empty name*/));
-    _impl->outThread = std::thread(std::bind(&pipeToSyslogWorker, channel, _impl->outPipe, source));
-    _impl->errThread = std::thread(std::bind(&pipeToSyslogWorker, channel, _impl->errPipe, source));
+    const auto errStream = std::make_shared<Poco::PipeInputStream>(_impl->errPipe);
+    _impl->outThread = std::thread(std::bind(&pipeToSyslogWorker, channel, _impl->outStream, source));
+    _impl->errThread = std::thread(std::bind(&pipeToSyslogWorker, channel, errStream, source));
 }
 
 #include <Pothos/Managed.hpp>
-- 
2.43.0


From ae599323f23b4ef978a79bc7c8b0e076145c858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:22 +0000
Subject: [PATCH 54/59] fix: a server could terminate before it noticed the
 connection of its creator

---
 lib/Remote/Server.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/Remote/Server.cpp b/lib/Remote/Server.cpp
index ebf3ad4..4db2eb5 100644
--- a/lib/Remote/Server.cpp
+++ b/lib/Remote/Server.cpp
@@ -31,6 +31,7 @@ struct Pothos::RemoteServer::Impl
 
     ~Impl(void)
     {
+        env.reset();
         client = RemoteClient(); //reset
         Poco::Process::requestTermination(ph.id());
         //the forwarding threads stop at the end of the output,
@@ -45,6 +46,7 @@ struct Pothos::RemoteServer::Impl
     Poco::ProcessHandle ph;
     std::string actualPort;
     RemoteClient client;
+    ProxyEnvironment::Sptr env;
     std::string uriStr;
 
     //members used for syslog forwarding
@@ -166,6 +168,11 @@ Pothos::RemoteServer::RemoteServer(const std::string &uriStr, const bool closePi
         }
 
         _impl->client = RemoteClient(uri.toString());
+
+        //An established connection may still wait to be accepted by the server.
+        //The server counts it as active once it replies: before that, the server
+        //terminates when another client connects and disconnects.
+        _impl->env = _impl->client.makeEnvironment("managed");
     }
     POTHOS_EXCEPTION_CATCH(const Exception &ex)
     {
-- 
2.43.0


From 06043ebadbcf5d3538b6291634478c93a1ee3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:08 +0000
Subject: [PATCH 55/59] fix: Logger: threads share the redirected standard
 streams

The buffer of InterceptStream was changed by all threads without a lock: output was lost or the string corrupted.
---
 lib/System/Logger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/System/Logger.cpp b/lib/System/Logger.cpp
index 2521892..2d6511f 100644
--- a/lib/System/Logger.cpp
+++ b/lib/System/Logger.cpp
@@ -66,6 +66,8 @@ public:
 protected:
     virtual std::streamsize xsputn(const char *msg, std::streamsize count)
     {
+        std::lock_guard<std::recursive_mutex> lock(_mutex);
+
         //has old data? force flush on sync regardless of newline
         if ((std::chrono::high_resolution_clock::now() - _lastPut) > std::chrono::nanoseconds(long(0.5*1e9))) _flush = true;
         _lastPut = std::chrono::high_resolution_clock::now();
@@ -89,6 +91,7 @@ protected:
 
     int sync(void)
     {
+        std::lock_guard<std::recursive_mutex> lock(_mutex);
         if (not _outbuf.empty() and (_outbuf.back() == '\n' or _flush))
         {
             if (_outbuf.back() == '\n') _outbuf = _outbuf.substr(0, _outbuf.size()-1);
@@ -115,6 +118,7 @@ protected:
     }
 
 private:
+    std::recursive_mutex _mutex; //threads share the stream, and the logger may print
     Poco::Logger &_logger;
     std::string _outbuf;
     std::streambuf*    _orgbuf;
-- 
2.43.0


From a9848505cc4b61a4b0c4c9425470578004114917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:08 +0000
Subject: [PATCH 56/59] fix: Logger: redirected output is logged with its
 source

The source passed to forwardStdIoToLogging() was not part of the messages.
---
 lib/System/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/System/Logger.cpp b/lib/System/Logger.cpp
index 2d6511f..0d39f69 100644
--- a/lib/System/Logger.cpp
+++ b/lib/System/Logger.cpp
@@ -95,7 +95,7 @@ protected:
         if (not _outbuf.empty() and (_outbuf.back() == '\n' or _flush))
         {
             if (_outbuf.back() == '\n') _outbuf = _outbuf.substr(0, _outbuf.size()-1);
-            if (not _outbuf.empty()) _logger.log(Poco::Message("", _outbuf, this->guessPrio(_outbuf)));
+            if (not _outbuf.empty()) _logger.log(Poco::Message(_logger.name(), _outbuf, this->guessPrio(_outbuf)));
             _outbuf.clear();
             _flush = false;
         }
-- 
2.43.0


From 65b2a1d54e3d465206cf0d497bd543009095c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:08 +0000
Subject: [PATCH 57/59] fix: Logger: a second forwardStdIoToLogging() call
 undid the redirection

The new buffer was installed before the old one was destroyed, which restored the original buffer;
the next call left the stream with a buffer that was destroyed.
---
 lib/System/Logger.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/System/Logger.cpp b/lib/System/Logger.cpp
index 0d39f69..627e96f 100644
--- a/lib/System/Logger.cpp
+++ b/lib/System/Logger.cpp
@@ -44,7 +44,7 @@ class InterceptStream : public std::streambuf
 {
 public:
     InterceptStream(std::ostream& stream, const std::string &source):
-      _logger(Poco::Logger::get(source)),
+      _logger(&Poco::Logger::get(source)),
       _orgstream(stream),
       _newstream(nullptr),
       _lastPut(std::chrono::high_resolution_clock::now()),
@@ -63,6 +63,12 @@ public:
     {
         _orgstream.rdbuf(_orgbuf);//Restore old buffer
     }
+
+    void setSource(const std::string &source)
+    {
+        std::lock_guard<std::recursive_mutex> lock(_mutex);
+        _logger = &Poco::Logger::get(source);
+    }
 protected:
     virtual std::streamsize xsputn(const char *msg, std::streamsize count)
     {
@@ -95,7 +101,7 @@ protected:
         if (not _outbuf.empty() and (_outbuf.back() == '\n' or _flush))
         {
             if (_outbuf.back() == '\n') _outbuf = _outbuf.substr(0, _outbuf.size()-1);
-            if (not _outbuf.empty()) _logger.log(Poco::Message(_logger.name(), _outbuf, this->guessPrio(_outbuf)));
+            if (not _outbuf.empty()) _logger->log(Poco::Message(_logger->name(), _outbuf, this->guessPrio(_outbuf)));
             _outbuf.clear();
             _flush = false;
         }
@@ -119,7 +125,7 @@ protected:
 
 private:
     std::recursive_mutex _mutex; //threads share the stream, and the logger may print
-    Poco::Logger &_logger;
+    Poco::Logger *_logger;
     std::string _outbuf;
     std::streambuf*    _orgbuf;
     std::ostream&      _orgstream;
@@ -193,12 +199,12 @@ void Pothos::System::Logger::stopSyslogForwarding(void)
 void Pothos::System::Logger::forwardStdIoToLogging(const std::string &source)
 {
     std::lock_guard<std::mutex> lock(getSetupLoggerMutex());
-    static std::shared_ptr<InterceptStream> clogRedirected;
-    clogRedirected.reset(new InterceptStream(std::clog, source));
-    static std::shared_ptr<InterceptStream> coutRedirected;
-    coutRedirected.reset(new InterceptStream(std::cout, source));
-    static std::shared_ptr<InterceptStream> cerrRedirected;
-    cerrRedirected.reset(new InterceptStream(std::cerr, source));
+    static std::shared_ptr<InterceptStream> clogRedirected(new InterceptStream(std::clog, source));
+    clogRedirected->setSource(source);
+    static std::shared_ptr<InterceptStream> coutRedirected(new InterceptStream(std::cout, source));
+    coutRedirected->setSource(source);
+    static std::shared_ptr<InterceptStream> cerrRedirected(new InterceptStream(std::cerr, source));
+    cerrRedirected->setSource(source);
 }
 
 static void __setupDefaultLogging(void)
-- 
2.43.0


From ec6df6d2c27162b69d03ff28cdfd55685ea57d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:08 +0000
Subject: [PATCH 58/59] fix: Logger: a listener that failed to open was kept

The next startSyslogListener() returned the port of a listener that does not listen.
---
 lib/System/Logger.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/System/Logger.cpp b/lib/System/Logger.cpp
index 627e96f..90c9312 100644
--- a/lib/System/Logger.cpp
+++ b/lib/System/Logger.cpp
@@ -153,9 +153,10 @@ std::string Pothos::System::Logger::startSyslogListener(void)
 
         //create a new listener and feed it the root channel
         //FIXME syslog listener always binds to IPv4...
-        listener = new Poco::Net::RemoteSyslogListener(port);
-        listener->addChannel(Poco::Logger::get("").getChannel());
-        listener->open();
+        Poco::AutoPtr<Poco::Net::RemoteSyslogListener> newListener(new Poco::Net::RemoteSyslogListener(port));
+        newListener->addChannel(Poco::Logger::get("").getChannel());
+        newListener->open();
+        listener = newListener; //only when its open
     }
 
     //return the port number of the log service
-- 
2.43.0


From 1b11a8a2acba28347acf1c0ca3a19979ccbde720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:08 +0000
Subject: [PATCH 59/59] fix: Logger: stopSyslogForwarding() did not stop
 forwarding

The closed channel stayed the channel of the root logger and opened again with the next message, and
subprocesses still got the address. Loggers made before startSyslogForwarding() were not forwarded.
---
 lib/System/Logger.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/System/Logger.cpp b/lib/System/Logger.cpp
index 90c9312..5933220 100644
--- a/lib/System/Logger.cpp
+++ b/lib/System/Logger.cpp
@@ -171,12 +171,30 @@ void Pothos::System::Logger::stopSyslogListener(void)
     listener = nullptr;
 }
 
-static Poco::AutoPtr<Poco::Net::RemoteSyslogChannel> forwarder;
+static Poco::AutoPtr<Poco::Channel> forwarder;
+
+//the channel of the root logger without forwarding
+static Poco::AutoPtr<Poco::Channel> forwarded;
+
+//! Change the channel of the root logger, and of the loggers that inherited its current channel
+static void replaceRootChannel(const Poco::AutoPtr<Poco::Channel> &channel)
+{
+    const Poco::AutoPtr<Poco::Channel> current(Poco::Logger::get("").getChannel());
+    std::vector<std::string> names;
+    Poco::Logger::names(names);
+    for (const auto &name : names)
+    {
+        auto &logger = Poco::Logger::get(name);
+        if (logger.getChannel() == current) logger.setChannel(channel);
+    }
+}
 
 static void __startSyslogForwarding(const std::string &addr)
 {
+    const Poco::AutoPtr<Poco::Channel> current(Poco::Logger::get("").getChannel());
+    if (not forwarder or current != forwarder) forwarded = current;
     forwarder = new Poco::Net::RemoteSyslogChannel(addr, ""/*empty name*/);
-    Poco::Logger::get("").setChannel(forwarder);
+    replaceRootChannel(forwarder);
     Poco::Logger::get("").setLevel(Poco::Environment::get("POTHOS_LOG_LEVEL", "information"));
 
     //subprocesses will automatically forward to this address
@@ -193,8 +211,13 @@ void Pothos::System::Logger::stopSyslogForwarding(void)
 {
     std::lock_guard<std::mutex> lock(getSetupLoggerMutex());
     if (not forwarder) return;
+
+    //a channel that is still in use opens again with the next message
+    if (Poco::Logger::get("").getChannel() == forwarder) replaceRootChannel(forwarded);
+    Poco::Environment::set("POTHOS_SYSLOG_ADDR", "");
     forwarder->close();
     forwarder = nullptr;
+    forwarded = nullptr;
 }
 
 void Pothos::System::Logger::forwardStdIoToLogging(const std::string &source)
-- 
2.43.0

