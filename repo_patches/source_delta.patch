From 9a64d2047f73d7d16c61da97eb4180a96d5f47ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 01/44] fix: always detect a range already locked by the same
 handle

Whether locking twice an area raised RuntimeError or LockingException depended on
the order in which the locks of other handles had been registered.
---
 src/rsfile/rsfile_registries.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 890687a..0a82b8e 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -116,6 +116,7 @@ class IntraProcessLockRegistryClass(object):
 
         if self._ensure_entry_exists(unique_id, create=True):
 
+            conflict = False
             for (other_handle, shared, start, end) in self._lock_registry[unique_id][1]:
 
                 if other_handle != handle and shared == new_shared == True:
@@ -131,8 +132,10 @@ class IntraProcessLockRegistryClass(object):
                     if other_handle == handle:
                         # we don't merge lock areas
                         raise RuntimeError("Same area of file locked twice by the same file descriptor")
-                    else:
-                        return False
+                    conflict = True  # but we continue, to detect locks already owned by this handle
+
+            if conflict:
+                return False
 
         # print (">Thread %s handle %s takes lock with %s" % (threading.current_thread().name, handle, (new_shared,
         # new_start, new_end)))
-- 
2.43.0


From 8f43153612ae3f63c04ce3265db2995a644619a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 02/44] fix: unlocking a never locked area must raise
 RuntimeError

This was only done when some other lock existed on the same file.
---
 src/rsfile/rsfile_registries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 0a82b8e..b098db2 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -152,7 +152,7 @@ class IntraProcessLockRegistryClass(object):
 
         # unprotected method - beware
         if not self._ensure_entry_exists(unique_id, create=False):
-            return True
+            raise RuntimeError("Trying to unlock a file area not owned by this handle")
 
         new_end = (new_start + new_length) if new_length else None  # None -> infinity
 
-- 
2.43.0


From bc16e74522817483acf40aa9832caf332ae9106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 03/44] fix: closing a stream must wake up the threads waiting
 for its locks

Threads blocked in lock_file() stayed blocked forever when the lock they were
waiting for was released by a close().
---
 src/rsfile/rsfile_registries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index b098db2..2f081d7 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -224,6 +224,8 @@ class IntraProcessLockRegistryClass(object):
                     remaining_locks.append(record)
 
             self._lock_registry[unique_id][1] = remaining_locks
+            if removed_locks:
+                self._lock_registry[unique_id][0].notify_all()  # we awake potential waiters - ALL of them
 
             return removed_locks
 
-- 
2.43.0


From 53b4029c5f8c9c232e285237813afb50adba9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 04/44] fix: unlock when a lock_file() block is left by an
 exception

---
 src/rsfile/rsfileio_abstract.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index dab493f..e8e6601 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -7,7 +7,6 @@ import stat
 import sys
 import time
 from array import array
-from contextlib import contextmanager
 
 from . import rsfile_definitions as defs
 from .rsfile_registries import IntraProcessLockRegistry, _default_rsfile_options
@@ -19,6 +18,23 @@ USE_MEMORYVIEW_CAST = hasattr(memoryview, "cast")
 _IOBASE_EMITS_UNRAISABLE = (sys.version_info >= (3, 13)) or (hasattr(sys, "gettotalrefcount") or sys.flags.dev_mode)
 
 
+class LockRemover(object):
+    """
+    Context manager returned by lock_file(), which unlocks the locked area on exit, be it normal or exceptional.
+    """
+
+    def __init__(self, stream, length, offset):
+        self.stream = stream
+        self.length = length
+        self.offset = offset
+
+    def __enter__(self):
+        pass  # we do nothing there
+
+    def __exit__(self, *args):
+        self.stream.unlock_file(length=self.length, offset=self.offset, whence=os.SEEK_SET)
+
+
 class RSFileIOAbstract(defs.io_module.RawIOBase):
     """
     This class is an improved version of the raw stream :class:`io.FileIO`, relying on native OS primitives,
@@ -524,13 +540,6 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
         return abs_offset
 
-    @contextmanager
-    def _lock_remover(self, length, offset, whence):
-        # we do nothing on __enter__()
-        yield
-        # we unlock on __exit__()
-        self.unlock_file(length=length, offset=offset, whence=whence)
-
     def lock_file(self, timeout=None, length=None, offset=None, whence=os.SEEK_SET, shared=None):
 
         self._checkSeekable()  # pipes and such can't be locked... already checks if closed
@@ -635,7 +644,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                     )
                     assert res in (True, False)  # there may or may not be locks left after that, we dunno
 
-        return self._lock_remover(length, abs_offset, os.SEEK_SET)
+        return LockRemover(self, length, abs_offset)
 
     def unlock_file(self, length=None, offset=0, whence=os.SEEK_SET):
 
-- 
2.43.0


From 6976401326670f3862056f53032a309f77e6bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 05/44] fix: don't lose the shared locks of other handles when
 unlocking on unix

fcntl() locks belong to the process, so unlocking (or closing) a stream released
at system level the overlapping shared locks held through other streams.
---
 src/rsfile/rsfile_registries.py | 24 ++++++++++++++++++++++++
 src/rsfile/rsfileio_abstract.py | 13 +++++++++----
 src/rsfile/rsfileio_unix.py     | 15 +++++++++++----
 3 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 2f081d7..41c7ff9 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -205,6 +205,30 @@ class IntraProcessLockRegistryClass(object):
 
             return self._try_unlocking_range(unique_id, handle, length, offset)
 
+    def get_unlocked_areas(self, unique_id, length, offset):
+        """
+        Returns the list of (length, offset) parts of an area, which are not covered by any lock of that unique_id.
+        """
+        assert unique_id, unique_id
+        infinity = float("inf")
+        with self.mutex:
+
+            self._check_forking()
+
+            locks = self._lock_registry[unique_id][1] if self._ensure_entry_exists(unique_id, create=False) else []
+
+            areas = []
+            area_end = (offset + length) if length else infinity
+            for (_, _, start, end) in sorted(locks, key=lambda record: record[2]):
+                if start >= area_end:
+                    break
+                if start > offset:
+                    areas.append((start - offset, offset))
+                offset = max(offset, infinity if end is None else end)
+            if offset < area_end:
+                areas.append((None if area_end == infinity else area_end - offset, offset))
+            return areas
+
     def remove_file_locks(self, unique_id, handle):
         assert unique_id, unique_id
         assert handle is not None, handle
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index e8e6601..8dea0bc 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -639,10 +639,12 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
             finally:
                 if not success:
-                    res = IntraProcessLockRegistry.unregister_file_lock(
-                        self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
-                    )
-                    assert res in (True, False)  # there may or may not be locks left after that, we dunno
+                    with IntraProcessLockRegistry.mutex:
+                        res = IntraProcessLockRegistry.unregister_file_lock(
+                            self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
+                        )
+                        assert res in (True, False)  # there may or may not be locks left after that, we dunno
+                        self._inner_abort_file_lock(length, abs_offset)
 
         return LockRemover(self, length, abs_offset)
 
@@ -734,6 +736,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
     def _inner_file_unlock(self, length, abs_offset):
         self._unsupported("file_unlock")
 
+    def _inner_abort_file_lock(self, length, abs_offset):
+        pass  # nothing to be cleaned up at system level by default
+
 
 assert RSFileIOAbstract.__del__ is defs.io_module.IOBase.__del__  # Ensure the default implementation is used
 defs.io_module.RawIOBase.register(RSFileIOAbstract)
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 7e2f987..62c7e2e 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -294,10 +294,17 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
     @_unix_error_converter
     def _inner_file_unlock(self, length, abs_offset):
 
-        if length is None:
-            length = 0  # that's the "infinity" value for fcntl
-
         try:
-            unix.lockf(self._fileno, unix.LOCK_UN, length, abs_offset, os.SEEK_SET)
+            # fcntl() locks are owned by the whole process, so we spare the areas still locked by other handles
+            for (length, abs_offset) in IntraProcessLockRegistry.get_unlocked_areas(
+                self._lock_registry_inode, length, abs_offset
+            ):
+                if length is None:
+                    length = 0  # that's the "infinity" value for fcntl
+                unix.lockf(self._fileno, unix.LOCK_UN, length, abs_offset, os.SEEK_SET)
         finally:
             self._purge_pending_related_file_descriptors()
+
+    def _inner_abort_file_lock(self, length, abs_offset):
+        # meanwhile, other handles might have spared that area, or left pending file descriptors, because of our attempt
+        self._inner_file_unlock(length, abs_offset)
-- 
2.43.0


From 4bb3a9b3f862d92524f5732f9c490ded7146ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 06/44] fix: use a monotonic clock for locking timeouts

Changes of the system clock shortened or extended (possibly forever) the waits.
---
 src/rsfile/rsfileio_abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 8dea0bc..a29ef98 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -573,14 +573,14 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         # we enforce spin-locking if a global timeout exists
         low_level_blocking = blocking if (self.enforced_locking_timeout_value is None) else False
 
-        start_time = time.time()
+        start_time = time.monotonic()  # immune to system clock changes
 
         def check_timeout(env_error):
             """
             If timeout has expired, raises the exception given as parameter.
             Else, sleeps for a short period.
             """
-            delay = time.time() - start_time
+            delay = time.monotonic() - start_time
             if not blocking:  # we have a timeout set
 
                 if delay >= timeout:  # else, we try again until success or timeout
-- 
2.43.0


From 22d109af6a3d365e7a2bc6f2be032ac40ffebc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 07/44] fix: don't retry forever lock requests that the system
 considers as invalid

---
 src/rsfile/rsfileio_abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index a29ef98..7df688a 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -635,6 +635,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                         success = True  # we leave the two loops
 
                     except EnvironmentError as e:
+                        if e.errno in (errno.EINVAL, errno.EBADF, errno.EOVERFLOW):
+                            raise  # that request will never succeed, eg. because of a negative absolute offset
                         check_timeout(e)
 
             finally:
-- 
2.43.0


From 2374a4d148af0c5e5215e8b59cda706163a1640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 08/44] fix: flush buffered data before leaving a lock_file()
 block

The context manager of the raw stream was returned by upper layers, so data written
inside the block reached the file after the lock had been released.
---
 src/rsfile/rsfile_streams.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 58b5881..6fbb352 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -30,6 +30,25 @@ def __rsfile_stream_repr__(self):
     else:
         return "<%s name=%r>" % (clsname, name)
 
+class FlushingLockRemover(object):
+    """
+    Lock context manager which ensures that buffered data is written before the lock is released.
+    """
+
+    def __init__(self, stream, remover):
+        self.stream = stream
+        self.remover = remover
+
+    def __enter__(self):
+        return self.remover.__enter__()
+
+    def __exit__(self, *args):
+        try:
+            self.stream.flush()
+        finally:
+            self.remover.__exit__(*args)
+
+
 class _buffer_forwarder_mixin(object):
     def _reset_buffers(self):
         self.seek(0, os.SEEK_CUR)  # we flush i/o buffers, didn't work on py26
@@ -50,7 +69,7 @@ class _buffer_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.raw.lock_file(*args, **kwargs)
+        return FlushingLockRemover(self, self.raw.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
@@ -94,7 +113,7 @@ class _text_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.buffer.lock_file(*args, **kwargs)
+        return FlushingLockRemover(self, self.buffer.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
-- 
2.43.0


From cc57923db82024efd32751a2c69644da41698957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 09/44] fix: protect the first call of each method, and the
 iteration, of thread-safe streams

These went straight to the wrapped stream, without taking the mutex.
---
 src/rsfile/rsfile_streams.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 6fbb352..f3f6a4e 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -200,11 +200,16 @@ class RSThreadSafeWrapper(object):
                 return self._secure_call(name, *args, **kwargs)
             # IMPORTANT : cache the thread-safe caller in object, so that we bypass this __getattr__ next time
             setattr(self, name, _method_proxy)
+            return _method_proxy
 
         return attr
 
     def __iter__(self):
-        return iter(self.wrapped_stream)
+        self._secure_call("__iter__")  # might raise if the stream is closed
+        return self
+
+    def __next__(self):
+        return self._secure_call("__next__")
 
     def __str__(self):
         return "Thread Safe Wrapper around %s" % self.wrapped_stream
-- 
2.43.0


From cd57e2c3ba813a5f40efa05eb0d6e4d805584b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 10/44] fix: hold the mutex of thread-safe streams when leaving
 a lock_file() block

---
 src/rsfile/rsfile_streams.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index f3f6a4e..3fbd283 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -49,6 +49,23 @@ class FlushingLockRemover(object):
             self.remover.__exit__(*args)
 
 
+class ThreadSafeLockRemover(object):
+    """
+    Lock context manager which holds a mutex while releasing the lock.
+    """
+
+    def __init__(self, mutex, remover):
+        self.mutex = mutex
+        self.remover = remover
+
+    def __enter__(self):
+        return self.remover.__enter__()
+
+    def __exit__(self, *args):
+        with self.mutex:
+            self.remover.__exit__(*args)
+
+
 class _buffer_forwarder_mixin(object):
     def _reset_buffers(self):
         self.seek(0, os.SEEK_CUR)  # we flush i/o buffers, didn't work on py26
@@ -204,6 +221,9 @@ class RSThreadSafeWrapper(object):
 
         return attr
 
+    def lock_file(self, *args, **kwargs):
+        return ThreadSafeLockRemover(self.mutex, self._secure_call("lock_file", *args, **kwargs))
+
     def __iter__(self):
         self._secure_call("__iter__")  # might raise if the stream is closed
         return self
-- 
2.43.0


From 6a8118664cbfc884e0f17c91e71850294a70583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 11/44] fix: don't leak the file descriptor when opening fails
 halfway

Eg. each attempt at opening a directory left a descriptor open.
---
 src/rsfile/rsfileio_unix.py | 47 +++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 62c7e2e..d7a3045 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -122,24 +122,35 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # print("Creating unix stream with context", locals())
             self._fileno = self._handle = unix.open(strname, flags, permissions)
 
-            # on unix we must prevent the opening of directories, but not named fifos or other special files
-            stats = unix.fstat(self._fileno).st_mode
-            if stat.S_ISDIR(stats):
-                raise IOError(errno.EISDIR, "RSFile can't open directories", self.name)
-
-            # we don't use O_CLOEXEC flag (available since Linux 2.6.23) for compatibility and safety
-            if hasattr(os, "set_inheritable"):
-                os.set_inheritable(self._fileno, inheritable)  # for safety we call it in any case
-            else:
-                # before PEP0446, newly created file descriptors were inheritable by default
-                if not inheritable:
-                    old_flags = unix.fcntl(self._fileno, unix.F_GETFD, 0)
-                    if not (old_flags & unix.FD_CLOEXEC):
-                        unix.fcntl(self._fileno, unix.F_SETFD, old_flags | unix.FD_CLOEXEC)
-
-        # WHATEVER the origin of the stream, we initialize these fields:
-        self._lock_registry_inode = self.unique_id()  # enforces caching of unique_id
-        self._lock_registry_descriptor = self._fileno
+        try:
+            # WHATEVER the origin of the stream, we initialize these fields:
+            self._lock_registry_inode = self.unique_id()  # enforces caching of unique_id
+            self._lock_registry_descriptor = self._fileno
+
+            if handle is None and fileno is None:
+
+                # on unix we must prevent the opening of directories, but not named fifos or other special files
+                stats = unix.fstat(self._fileno).st_mode
+                if stat.S_ISDIR(stats):
+                    raise IOError(errno.EISDIR, "RSFile can't open directories", self.name)
+
+                # we don't use O_CLOEXEC flag (available since Linux 2.6.23) for compatibility and safety
+                if hasattr(os, "set_inheritable"):
+                    os.set_inheritable(self._fileno, inheritable)  # for safety we call it in any case
+                else:
+                    # before PEP0446, newly created file descriptors were inheritable by default
+                    if not inheritable:
+                        old_flags = unix.fcntl(self._fileno, unix.F_GETFD, 0)
+                        if not (old_flags & unix.FD_CLOEXEC):
+                            unix.fcntl(self._fileno, unix.F_SETFD, old_flags | unix.FD_CLOEXEC)
+
+        except BaseException:
+            if handle is None and fileno is None:
+                if hasattr(self, "_lock_registry_descriptor"):
+                    self.close()  # beware, other streams might have locks on that file
+                else:
+                    unix.close(self._fileno)  # not registered yet, so close() would leave it open
+            raise
 
     @_unix_error_converter
     def _inner_close_streams(self):
-- 
2.43.0


From 94d4c87fa9b347a466907a9fcc481885c9d7ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 12/44] fix: support the documented zero_fill argument of
 truncate() in all stream layers

Besides, read buffers are discarded, so that truncated data can't be read anymore.
---
 src/rsfile/rsfile_streams.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 3fbd283..8b2846e 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -84,6 +84,15 @@ class _buffer_forwarder_mixin(object):
         self.flush()
         return self.raw.sync(*args, **kwargs)
 
+    def truncate(self, size=None, zero_fill=True):
+        self._checkClosed()
+        self._checkWritable()
+        self._reset_buffers()
+        if size is None:
+            size = self.tell()
+        kwargs = {} if zero_fill else {"zero_fill": zero_fill}  # the raw stream might not be one of ours
+        return self.raw.truncate(size, **kwargs)
+
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
         return FlushingLockRemover(self, self.raw.lock_file(*args, **kwargs))
@@ -128,6 +137,13 @@ class _text_forwarder_mixin(object):
         self.flush()  # security
         return self.buffer.sync(*args, **kwargs)
 
+    def truncate(self, size=None, zero_fill=True):
+        self.flush()
+        if size is None:
+            size = self.tell()
+        kwargs = {} if zero_fill else {"zero_fill": zero_fill}  # the buffer might not be one of ours
+        return self.buffer.truncate(size, **kwargs)
+
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
         return FlushingLockRemover(self, self.buffer.lock_file(*args, **kwargs))
@@ -176,7 +192,7 @@ class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
 
 # awkward structure to have all methods/inheritance-relations OK even when monkey patching
 class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBufferedReader):
-    pass
+    truncate = _buffer_forwarder_mixin.truncate  # else shadowed by that of BufferedRandom
 
 
 class RSTextIOWrapper(_text_forwarder_mixin, defs.io_module.TextIOWrapper):
-- 
2.43.0


From 05ecc777551e2f008c3a9577b228e1ba6e7e6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 13/44] fix: readinto() must return None when a nonblocking
 stream has no data

---
 src/rsfile/rsfileio_abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 7df688a..6bbf100 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -416,8 +416,10 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             buffer = memoryview(buffer).cast("B")
 
         mybytes = self._inner_read(len(buffer))
-        byteslen = len(mybytes)
         assert mybytes is None or isinstance(mybytes, bytes), type(mybytes)
+        if mybytes is None:
+            return None  # nonblocking stream with no data available
+        byteslen = len(mybytes)
 
         if isinstance(buffer, array):
             typecode = b"b" if (sys.version_info[:2] < (3, 0)) else "b"  # typecode weirdness...
-- 
2.43.0


From 77e2d34fe284ff820dece053a950b8c6ea3299ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 14/44] fix: handle file descriptor 0 like any other one

Wrapping it in a 'w' mode truncated the file, and the stream was mostly unusable.
---
 src/rsfile/rsfile_factories.py  | 6 +++---
 src/rsfile/rsfile_registries.py | 2 +-
 src/rsfile/rsfileio_abstract.py | 2 +-
 src/rsfile/rsfileio_unix.py     | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index f058fa4..4fda687 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -238,7 +238,7 @@ def rsopen(
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
     if opener:
-        if raw_kwargs["fileno"]:
+        if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
         raw_kwargs["fileno"] = opener(
             name, mode
@@ -250,7 +250,7 @@ def rsopen(
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
             raise defs.BadValueTypeError("can't truncate a non-writable file")
-        if raw_kwargs["fileno"] or raw_kwargs["handle"]:
+        if raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
             # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
             extended_kwargs["truncate"] = False
 
@@ -298,7 +298,7 @@ def rsopen(
             buffering = defs.DEFAULT_BUFFER_SIZE
             # do not trigger the libc compatibility layer on windows,
             # since anyway it seems to have no st_blksize...
-            if raw._fileno:
+            if raw._fileno is not None:
                 try:
                     bs = os.fstat(raw._fileno).st_blksize
                 except (os.error, AttributeError):
diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 41c7ff9..0642974 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -276,7 +276,7 @@ class IntraProcessLockRegistryClass(object):
 
     def add_unique_id_data(self, unique_id, data):
         assert unique_id, unique_id
-        assert data, data
+        assert data is not None, data
         with self.mutex:
             self._check_forking()
 
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 6bbf100..2f797a0 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -186,7 +186,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 # we bypass Rsfile for file descriptors that are pipes, devices, directories, symlinks etc.
                 st_mode = os.fstat(self._fileno).st_mode  # might raise
                 if stat.S_ISDIR(st_mode):
-                    assert fileno or handle, (fileno, handle)  # it must NOT be a newly created file object, else bug
+                    assert fileno is not None or handle is not None, (fileno, handle)  # it must NOT be a newly created file object, else bug
                     self._closefd = False  # disown file descriptor
                     raise IOError(errno.EISDIR, "Can't wrap a directory in FileIO")
                 is_regular = stat.S_ISREG(st_mode)
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index d7a3045..60955c7 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -199,11 +199,11 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         # print("FSYNC_UNIX_DONE")
 
     def _inner_fileno(self):
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
-        assert self._handle
+        assert self._handle is not None
         return self._handle
 
     @_unix_error_converter
-- 
2.43.0


From 75d2c9c983fbdded6b15c9e9ceff849b91be860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 15/44] fix: call the opener with integer flags, and only for
 valid arguments, like io.open()

It received the mode string instead, so even os.open() couldn't be used; and the
descriptor it returned was leaked when some other argument was rejected.
---
 src/rsfile/rsfile_factories.py | 45 +++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 4fda687..324124a 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -237,15 +237,8 @@ def rsopen(
     is_interprocess = raw_kwargs["inheritable"] and hasattr(os, "fork")
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
-    if opener:
-        if raw_kwargs["fileno"] is not None:
-            raise defs.BadValueTypeError("can't provide both fileno and opener")
-        raw_kwargs["fileno"] = opener(
-            name, mode
-        )  # we give it the original "name" as parameter, not the normalized path
-        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
-            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
-        raw_kwargs["path"] = None  # irrelevant in this case
+    if opener and raw_kwargs["fileno"] is not None:
+        raise defs.BadValueTypeError("can't provide both fileno and opener")
 
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
@@ -271,6 +264,14 @@ def rsopen(
             2,
         )
 
+    if opener:
+        # we give it the original "name" as parameter, not the normalized path
+        raw_kwargs["fileno"] = opener(name, get_opener_flags(raw_kwargs, extended_kwargs))
+        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
+            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
+        raw_kwargs["path"] = None  # irrelevant in this case
+        extended_kwargs["truncate"] = False  # like other flags, it was submitted to the opener
+
     raw_kwargs["permissions"] = permissions
     # print("We get RSFileIO", RSFileIO)
     raw = RSFileIO(**raw_kwargs)
@@ -346,6 +347,32 @@ if sys.version_info >= (3, 10):
     rsopen = staticmethod(rsopen)
 
 
+def get_opener_flags(raw_kwargs, extended_kwargs):
+    """
+    Returns the flags, similar to those of os.open(), expected by the ``opener`` callables of io.open().
+    """
+    if raw_kwargs["read"] and (raw_kwargs["write"] or raw_kwargs["append"]):
+        flags = os.O_RDWR
+    elif raw_kwargs["read"]:
+        flags = os.O_RDONLY
+    else:
+        flags = os.O_WRONLY
+
+    if raw_kwargs["append"]:
+        flags |= os.O_APPEND
+    if raw_kwargs["must_create"]:
+        flags |= os.O_CREAT | os.O_EXCL
+    elif not raw_kwargs["must_not_create"]:
+        flags |= os.O_CREAT
+    if extended_kwargs["truncate"]:
+        flags |= os.O_TRUNC
+    if raw_kwargs["synchronized"]:
+        flags |= getattr(os, "O_SYNC", 0)
+    if not raw_kwargs["inheritable"]:
+        flags |= getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOINHERIT", 0)
+    return flags | getattr(os, "O_BINARY", 0)
+
+
 def parse_standard_args(name, mode, fileno, handle, closefd):
     # note: name can also be a fileno here, for retrocompatibility...
 
-- 
2.43.0


From c616b3b160efb7913f36282d9f44eb65a50793f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 16/44] fix: write_to_file() and append_to_file() lost data
 when unbuffered and partially written

---
 src/rsfile/rsfile_utilities.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index bcb6511..551816e 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 
+import errno
+
 from .rsfile_definitions import *  # constants, base types and exceptions
 from .rsfile_factories import *
 
@@ -130,6 +132,20 @@ def read_from_file(
         return full_data
 
 
+def _write_fully(stream, data):
+    """
+    Writes the whole data, even if the stream is unbuffered.
+    """
+    count = stream.write(data)
+    if isinstance(stream, RSFileIO):
+        data = memoryview(data).cast("B")
+        while count != len(data):
+            if count is None:
+                raise BlockingIOError(errno.EAGAIN, "write could not complete without blocking")
+            data = data[count:]
+            count = stream.write(data)
+
+
 def write_to_file(
     filename,
     data,
@@ -171,7 +187,7 @@ def write_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_fully(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
@@ -216,7 +232,7 @@ def append_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_fully(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
-- 
2.43.0


From 37d476f441cf4ba3c053c574cc036e0f083c91fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 17/44] fix: don't hide the failures of fdatasync()

Writeback errors are reported only once, so the following fsync() used to succeed
although data had been lost.
---
 src/rsfile/rsfileio_unix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 60955c7..e0c200c 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -192,8 +192,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 unix.fdatasync(self._fileno)  # not supported on Mac OS X
                 # print("FDATASYNC_UNIX_DONE")
                 return
-            except unix.error:
-                pass
+            except unix.error as e:
+                if e.errno not in (errno.EINVAL, errno.ENOSYS, errno.ENOTSUP):
+                    raise  # data might be lost, even if fsync() then succeeds
 
         unix.fsync(self._fileno)  # last attempt : metadata flush without full_sync guarantees
         # print("FSYNC_UNIX_DONE")
-- 
2.43.0


From 986141882a6bce55e33eeec0349c4bc24f78e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 18/44] fix: prevent forked children from blocking forever on
 the lock registry

---
 src/rsfile/rsfile_registries.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 0642974..70e1828 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -313,3 +313,11 @@ class IntraProcessLockRegistryClass(object):
 
 # single global instance
 IntraProcessLockRegistry = IntraProcessLockRegistryClass()
+
+if hasattr(os, "register_at_fork"):
+    # else a child process could inherit a mutex owned forever by a thread which it didn't inherit
+    os.register_at_fork(
+        before=IntraProcessLockRegistry.mutex.acquire,
+        after_in_parent=IntraProcessLockRegistry.mutex.release,
+        after_in_child=IntraProcessLockRegistry.mutex.release,
+    )
-- 
2.43.0


From eb5d7a18d4e19872452f879f48740f0159c825e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 19/44] fix: readinto() failed on buffered streams when
 crossing the end of the buffer

The _pyio implementation computes wrong slices of the target buffer.
---
 src/rsfile/rsfile_streams.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 8b2846e..7fdeea5 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -181,6 +181,17 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
     def readable(self):  # drop when py3.5 not supported anymore
         return self.raw.readable()
 
+    def _readinto(self, buf, read1):
+        # we override that of _pyio, which fails when the data wanted spans several fillings of the buffer
+        if read1:
+            return super()._readinto(buf, read1)
+        buf = memoryview(buf).cast("B")
+        data = self.read(len(buf))
+        if data is None:
+            return None  # nonblocking stream with no data available
+        buf[: len(data)] = data
+        return len(data)
+
 
 class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
     def writable(self):  # drop when py3.5 not supported anymore
-- 
2.43.0


From 4964023d850ff528af474e21064975ea7d2829d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 20/44] fix: readline() of buffered streams could return more
 bytes than the limit given

---
 src/rsfile/rsfile_streams.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 7fdeea5..2c3d3eb 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -3,6 +3,7 @@
 
 import functools
 import multiprocessing
+import operator
 import os
 import threading
 
@@ -192,6 +193,23 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
         buf[: len(data)] = data
         return len(data)
 
+    def readline(self, size=-1):
+        # we override that of _pyio, which exceeds the size limit when the line spans several fillings of the buffer
+        size = -1 if size is None else operator.index(size)
+        line = bytearray()
+        while size < 0 or len(line) < size:
+            readahead = self.peek(1)
+            count = (readahead.find(b"\n") + 1) or len(readahead) or 1
+            if size >= 0:
+                count = min(count, size - len(line))
+            data = self.read(count)
+            if not data:
+                break
+            line += data
+            if line.endswith(b"\n"):
+                break
+        return bytes(line)
+
 
 class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
     def writable(self):  # drop when py3.5 not supported anymore
-- 
2.43.0


From b5c00a0a436f9759935cf0eff971694ad028f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 21/44] fix: refused seeks corrupted the position of buffered
 read-write streams

The read buffer was kept although the raw stream had been moved back, so data
was then read twice, or written at the wrong place.
---
 src/rsfile/rsfile_streams.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 2c3d3eb..c0114f6 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -223,6 +223,14 @@ class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
 class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBufferedReader):
     truncate = _buffer_forwarder_mixin.truncate  # else shadowed by that of BufferedRandom
 
+    def seek(self, pos, whence=os.SEEK_SET):
+        # we do it before the real seek, because _pyio doesn't reset that buffer if the raw seek then fails
+        with self._read_lock:
+            if self._read_buf:
+                self.raw.seek(self._read_pos - len(self._read_buf), os.SEEK_CUR)
+                self._reset_read_buf()
+        return super().seek(pos, whence)
+
 
 class RSTextIOWrapper(_text_forwarder_mixin, defs.io_module.TextIOWrapper):
     pass
-- 
2.43.0


From fee4ff285f35aa073a76240f2adc3f2dec50ee28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:16 +0000
Subject: [PATCH 22/44] fix: closed buffered streams still returned the content
 of their read buffer

---
 src/rsfile/rsfile_streams.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index c0114f6..93c70a3 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -182,6 +182,20 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
     def readable(self):  # drop when py3.5 not supported anymore
         return self.raw.readable()
 
+    # _pyio forgets these checks, and so might return the remaining content of the buffer #
+
+    def read(self, size=-1):
+        self._checkClosed()
+        return super().read(size)
+
+    def read1(self, size=-1):
+        self._checkClosed()
+        return super().read1(size)
+
+    def peek(self, size=0):
+        self._checkClosed()
+        return super().peek(size)
+
     def _readinto(self, buf, read1):
         # we override that of _pyio, which fails when the data wanted spans several fillings of the buffer
         if read1:
-- 
2.43.0


From b63858e4694b662279fa2d822ae04f5369e8612d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 23/44] fix: truncate() crashed or left a hole when extending
 files with zeros by itself

The seek back lacked an argument, and partial writes were ignored.
---
 src/rsfile/rsfileio_abstract.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 2f797a0..3b7de28 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -502,14 +502,14 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 old_pos = self._inner_tell()
                 self._inner_seek(current_size, os.SEEK_SET)
                 bytes_to_write = size - current_size
-                (q, r) = divmod(bytes_to_write, defs.DEFAULT_BUFFER_SIZE)
-
-                for _ in range(q):
-                    padding = b"\0" * defs.DEFAULT_BUFFER_SIZE
-                    self._inner_write(padding)
-                count = self._inner_write(b"\0" * r)
-                assert count == r, (count, r)  # no blocking writes for files, theoretically...
-                self._inner_seek(old_pos)  # important
+
+                try:
+                    while bytes_to_write:
+                        count = self._inner_write(b"\0" * min(bytes_to_write, defs.DEFAULT_BUFFER_SIZE))
+                        assert count, count  # no blocking writes for files, theoretically...
+                        bytes_to_write -= count
+                finally:
+                    self._inner_seek(old_pos, os.SEEK_SET)  # important
         return self.size()
 
     def flush(self):
-- 
2.43.0


From 59790f8da60f786316eea1bb5ee6807cd371cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:21 +0000
Subject: [PATCH 24/44] fix: don't hide the failures of full flushes

---
 src/rsfile/rsfileio_unix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index e0c200c..2e84a35 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -183,8 +183,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 unix.fcntl(self._fileno, unix.F_FULLFSYNC, 0)  # Mac OS X only
                 # print("FULLFLUSH_UNIX_DONE")
                 return
-            except unix.error:
-                pass
+            except unix.error as e:
+                if e.errno not in (errno.EINVAL, errno.ENOSYS, errno.ENOTSUP, errno.ENOTTY):
+                    raise  # data might be lost, even if fsync() then succeeds
 
         if not metadata and hasattr(unix, "fdatasync"):
             try:
-- 
2.43.0


From 8357b5b6cf34acb5d555c1b7b0cf40d29fcbb7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 25/44] fix: closing leaks descriptors when an error occurs
 while unlocking or closing

---
 src/rsfile/rsfileio_abstract.py | 12 +++++++-----
 src/rsfile/rsfileio_unix.py     |  8 +++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 3b7de28..e5819d3 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -1,6 +1,7 @@
 # -*- coding: utf-8 -*-
 
 
+import contextlib
 import errno
 import os
 import stat
@@ -228,7 +229,11 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 defs.io_module.RawIOBase.close(self)  # we first mark the stream as closed... it flushes, also.
             finally:
 
-                with IntraProcessLockRegistry.mutex:
+                # All these callbacks are called (in reversed order), even if some of them fail
+                with IntraProcessLockRegistry.mutex, contextlib.ExitStack() as stack:
+
+                    # Mark the raw stream as closed, even if some operations failed
+                    stack.callback(self._inner_close_streams)  # Might raise OverflowError
 
                     # We are careful, in case object initialization failed
                     if hasattr(self, "_lock_registry_inode") and hasattr(self, "_lock_registry_descriptor"):
@@ -237,10 +242,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                         ):
                             # print (">>>>>>>> ", (handle, shared, start, end))
                             length = None if end is None else (end - start)
-                            self._inner_file_unlock(length, start)
-
-                    # Mark the raw stream as closed, even if some operations failed
-                    self._inner_close_streams()  # Might raise OverflowError
+                            stack.callback(self._inner_file_unlock, length, start)
 
     '''
     def __del__(self):
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 2e84a35..e0e05fb 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -5,6 +5,7 @@
 Reimplementation of raw streams for unix-like OS, with advanced abilities.
 """
 
+import contextlib
 import errno
 import functools
 import locale
@@ -53,9 +54,10 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             res = IntraProcessLockRegistry.unique_id_has_locks(self._lock_registry_inode)
             if not res:  # no more locks left for that unique_id
                 data_list = IntraProcessLockRegistry.remove_unique_id_data(self._lock_registry_inode)
-                for fd in data_list:  # we close all pending file descriptors (which were left opened to prevent
-                    # fcntl() lock autoremoving)
-                    unix.close(fd)
+                with contextlib.ExitStack() as stack:
+                    for fd in data_list:  # we close all pending file descriptors (which were left opened to prevent
+                        # fcntl() lock autoremoving), even if some of these operations fail
+                        stack.callback(unix.close, fd)
 
             return not res
 
-- 
2.43.0


From d5368e4f9f2853cd4cfae8262398733aa9a87292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 26/44] fix: thread-safe streams lost without being closed lost
 their data and kept their locks

---
 src/rsfile/rsfile_streams.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 93c70a3..fe6c273 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -280,8 +280,12 @@ class RSThreadSafeWrapper(object):
 
         if not name.startswith("_") and callable(attr):
             # print ("<<<<<<< WRAPPING METHOD", name)
+            # this proxy must not reference self, else streams would form reference cycles, and so, when lost without
+            # being closed, keep their locks for a while, and have their raw stream finalized before their buffers
+            mutex, wrapped_stream = self.mutex, self.wrapped_stream
             def _method_proxy(*args, **kwargs):
-                return self._secure_call(name, *args, **kwargs)
+                with mutex:
+                    return getattr(wrapped_stream, name)(*args, **kwargs)
             # IMPORTANT : cache the thread-safe caller in object, so that we bypass this __getattr__ next time
             setattr(self, name, _method_proxy)
             return _method_proxy
-- 
2.43.0


From 5a29f9fc3798c66f065cc4872d459a4124378248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 27/44] fix: failed openings could erase the file

---
 src/rsfile/rsfile_factories.py | 52 ++++++++++++++++------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 324124a..ede9605 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -284,10 +284,6 @@ def rsopen(
                 # print "we enforce file locking with %s - %s" %(shared, timeout)
                 raw.lock_file(timeout=timeout)
 
-            if extended_kwargs["truncate"]:
-                # NOW that we've potentially locked the file, we NOW may truncate
-                raw.truncate(0)
-
         if buffering is None:
             buffering = -1
 
@@ -310,32 +306,34 @@ def rsopen(
 
         assert buffering >= 0, "abnormal buffering size %r encountered" % buffering
         if buffering == 0:
-            if extended_kwargs["binary"]:
-                if thread_safe:
-                    result = thread_safe_interface(raw)
-                return result
-            raise defs.BadValueTypeError("can't have unbuffered text I/O")
-
-        if raw.readable() and raw.writable():
-            buffer = RSBufferedRandom(raw, buffering)
-        elif raw.writable():
-            buffer = RSBufferedWriter(raw, buffering)
-        elif raw.readable():
-            buffer = RSBufferedReader(raw, buffering)
+            if not extended_kwargs["binary"]:
+                raise defs.BadValueTypeError("can't have unbuffered text I/O")
         else:
-            raise defs.BadValueTypeError("unknown mode: %r" % mode)
-        result = buffer
-        if extended_kwargs["binary"]:
-            if thread_safe:
-                result = thread_safe_interface(buffer)
-            return result
+            if raw.readable() and raw.writable():
+                buffer = RSBufferedRandom(raw, buffering)
+            elif raw.writable():
+                buffer = RSBufferedWriter(raw, buffering)
+            elif raw.readable():
+                buffer = RSBufferedReader(raw, buffering)
+            else:
+                raise defs.BadValueTypeError("unknown mode: %r" % mode)
+            result = buffer
+
+            if not extended_kwargs["binary"]:
+                text = RSTextIOWrapper(buffer, encoding, errors, newline, line_buffering)
+                text.mode = mode  # this is weird, but so does the _pyio module of stdlib...
+                result = text
+
+        stream = result
+        if thread_safe:
+            result = thread_safe_interface(stream)
 
-        text = RSTextIOWrapper(buffer, encoding, errors, newline, line_buffering)
-        text.mode = mode  # this is weird, but so does the _pyio module of stdlib...
-        result = text
+        if extended_kwargs["truncate"] and raw.seekable():  # thus we skip PIPES silently...
+            # NOW that we've potentially locked the file, and that nothing else can fail, we NOW may truncate
+            raw.truncate(0)
+            if raw_kwargs["append"]:
+                stream.seek(0)  # we were at the previous end of file
 
-        if thread_safe:
-            result = thread_safe_interface(text)
         return result
     except:
         result.close()
-- 
2.43.0


From 3197ee4683544f22c499a5121c11b5d8d291d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 28/44] fix: forked children leaked the file descriptors
 waiting to be closed

---
 src/rsfile/rsfile_registries.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 70e1828..10ed696 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -81,11 +81,15 @@ class IntraProcessLockRegistryClass(object):
         # unprotected method - beware
 
         # reset is required only when the current thread has just forked !
-        # we've then lost all locks in the forking, so just flush the registry
+        # we've then lost all locks in the forking, so just flush the registry (except for pending data)
 
         if os.getpid() != self._original_pid:
+            pending_data = [(unique_id, entry[2]) for (unique_id, entry) in self._lock_registry.items() if entry[2]]
             self._lock_registry = {}
             self._original_pid = os.getpid()
+            for (unique_id, data) in pending_data:
+                self._ensure_entry_exists(unique_id, create=True)
+                self._lock_registry[unique_id][2].extend(data)
 
     def _ensure_entry_exists(self, unique_id, create=False):
         """
-- 
2.43.0


From d6d825f6bc412bcdd507bd9e274d56df1f28d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 29/44] fix: forked children could block forever on the mutex
 of thread-safe streams

---
 src/rsfile/rsfile_streams.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index fe6c273..1217b37 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -6,6 +6,7 @@ import multiprocessing
 import operator
 import os
 import threading
+import weakref
 
 from . import rsfile_definitions as defs
 
@@ -269,6 +270,13 @@ class RSThreadSafeWrapper(object):
                 self.mutex = multiprocessing.RLock()
             else:
                 self.mutex = threading.RLock()
+                _thread_safe_streams.add(self)
+
+    def _release_mutexes_of_lost_threads(self):
+        if not self.mutex._is_owned():
+            for mutex in (self.mutex, getattr(self, "_read_lock", None), getattr(self, "_write_lock", None)):
+                if mutex is not None:
+                    mutex._at_fork_reinit()
 
     def _secure_call(self, name, *args, **kwargs):
         with self.mutex:
@@ -316,3 +324,16 @@ class RSThreadSafeWrapper(object):
     def __exit__(self, *args):
         """Context management protocol.  Calls close()"""
         self.close()
+
+
+_thread_safe_streams = weakref.WeakSet()  # those having their own, intraprocess, mutex
+
+
+def _release_mutexes_of_lost_threads():
+    for stream in list(_thread_safe_streams):
+        stream._release_mutexes_of_lost_threads()
+
+
+if hasattr(os, "register_at_fork") and hasattr(threading.Lock(), "_at_fork_reinit"):
+    # else a child process could inherit a mutex owned forever by a thread which it didn't inherit
+    os.register_at_fork(after_in_child=_release_mutexes_of_lost_threads)
-- 
2.43.0


From 28a723afc811637260b55658ad6cdf6e005a6d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 30/44] fix: read_from_file() took blocking answers for the end
 of file

---
 src/rsfile/rsfile_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 551816e..b41fd33 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -118,6 +118,8 @@ def read_from_file(
         data_blocks = []
         while True:
             temp = myfile.read()  # if unbuffered, might return very little data, so we have to "loop while"
+            if temp is None:
+                raise BlockingIOError(errno.EAGAIN, "read could not complete without blocking")
             if not temp:
                 break
 
-- 
2.43.0


From 80274fa4b81be1822efb273cc476f0b46b6e46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 31/44] fix: FileIO replacement erased the file of the
 descriptor it wrapped

---
 src/rsfile/rsfile_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index b41fd33..bb9193d 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -36,7 +36,7 @@ class RSFileIOWrapper(RSFileIO):
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
         RSFileIO.__init__(self, **raw_kwargs)
-        if self.seekable() and extended_kwargs["truncate"]:
+        if self.seekable() and extended_kwargs["truncate"] and raw_kwargs["path"] is not None:
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
 
 
-- 
2.43.0


From bfc1f64b747729e6ce413c1958570267fdd39e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 32/44] fix: integers and words outside their range were
 silently mangled by native conversions

---
 src/rsfile/rsbackend/_utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsbackend/_utilities.py b/src/rsfile/rsbackend/_utilities.py
index 581519b..52ce38f 100644
--- a/src/rsfile/rsbackend/_utilities.py
+++ b/src/rsfile/rsbackend/_utilities.py
@@ -21,6 +21,8 @@ def pyint_to_double_dwords(mylong, dwordsize=32):
 
     if mylong < 0:
         raise ValueError("Positive argument required")
+    if mylong >> (2 * dwordsize):
+        raise ValueError("Argument too big for two words")
 
     uloworder = mylong & (2**dwordsize - 1)
     uhighorder = (mylong >> dwordsize) & (2**dwordsize - 1)
@@ -31,7 +33,9 @@ def pyint_to_double_dwords(mylong, dwordsize=32):
 def double_dwords_to_pyint(loworder, highorder, dwordsize=32):  # the arguments can be negative or positive integers !
     "Convert a low-order dword, high-order dword) tuple into an unsigned long integer."
 
-    return (highorder << dwordsize) + loworder
+    mask = 2**dwordsize - 1
+
+    return ((highorder & mask) << dwordsize) + (loworder & mask)
 
 
 def win32_filetime_to_python_timestamp(loworder, highorder):
-- 
2.43.0


From df8e5db6f8897ac4f4f1d918681d262db157baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 33/44] fix: empty names were reported as missing arguments

---
 src/rsfile/rsfileio_abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index e5819d3..ae15c3f 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -117,7 +117,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         if path is not None and not isinstance(path, (bytes, str)):
             raise defs.BadValueTypeError("If provided, path must be a string.")
 
-        if bool(path) + (fileno is not None) + (handle is not None) != 1:
+        if (path is not None) + (fileno is not None) + (handle is not None) != 1:
             raise defs.BadValueTypeError("File must provide path, fileno or handle value, and only one of these.")
 
         if not read and not write:
-- 
2.43.0


From 189698ea57d19be68f4bfebf7cfc42868d62264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 34/44] fix: names holding undecodable bytes could not be
 opened

---
 src/rsfile/rsfileio_unix.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index e0e05fb..f0fa05a 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -91,13 +91,8 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
 
         else:  # we open the file with low level posix IO - the unix "open()"  function
 
-            if isinstance(path, str):
-                strname = path.encode(
-                    sys.getfilesystemencoding()
-                )  # let's take no risks - and do not use locale.getpreferredencoding(
-                # ) here
-            else:
-                strname = path
+            # let's take no risks - and do not use locale.getpreferredencoding() here
+            strname = os.fsencode(path)
 
             flags = 0  # Note that unix.O_LARGEFILE is actually irrelevant
 
-- 
2.43.0


From 34fc5844b3a7569e8547acb62714bf334e5b1868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 35/44] fix: results of openers were not validated, nor their
 streams named after the file

---
 src/rsfile/rsfile_factories.py | 40 ++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index ede9605..2368177 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 
+import errno
+import operator
 import sys, os, stat
 from . import rsfile_definitions as defs
 from .rsfile_streams import *
@@ -237,7 +239,7 @@ def rsopen(
     is_interprocess = raw_kwargs["inheritable"] and hasattr(os, "fork")
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
-    if opener and raw_kwargs["fileno"] is not None:
+    if opener is not None and fileno is not None:
         raise defs.BadValueTypeError("can't provide both fileno and opener")
 
     if extended_kwargs["truncate"]:
@@ -264,13 +266,9 @@ def rsopen(
             2,
         )
 
-    if opener:
+    if opener is not None and raw_kwargs["fileno"] is None:  # like in the stdlib, integer names don't need it
         # we give it the original "name" as parameter, not the normalized path
-        raw_kwargs["fileno"] = opener(name, get_opener_flags(raw_kwargs, extended_kwargs))
-        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
-            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
-        raw_kwargs["path"] = None  # irrelevant in this case
-        extended_kwargs["truncate"] = False  # like other flags, it was submitted to the opener
+        call_opener(opener, name, raw_kwargs, extended_kwargs)
 
     raw_kwargs["permissions"] = permissions
     # print("We get RSFileIO", RSFileIO)
@@ -278,6 +276,9 @@ def rsopen(
     result = raw
     try:
 
+        if opener is not None and name is not None:
+            raw.name = name  # like in the stdlib, even though we wrapped the descriptor returned by the opener
+
         if raw.seekable():  # thus we skip PIPES silently...
 
             if locking:
@@ -345,6 +346,31 @@ if sys.version_info >= (3, 10):
     rsopen = staticmethod(rsopen)
 
 
+def call_opener(opener, name, raw_kwargs, extended_kwargs):
+    """
+    Replaces the path to be opened by the descriptor that the ``opener`` callable returns for it.
+    """
+    if name is None:
+        raise defs.BadValueTypeError("a name must be provided to the opener")
+    if not raw_kwargs["closefd"]:
+        raise defs.BadValueTypeError("Cannot use closefd=False without providing a descriptor to wrap.")
+
+    fileno = operator.index(opener(name, get_opener_flags(raw_kwargs, extended_kwargs)))
+    if fileno < 0:  # early catch, just to please the test suite...
+        raise defs.BadValueTypeError("opener returned %s" % fileno)
+    try:
+        is_directory = stat.S_ISDIR(os.fstat(fileno).st_mode)
+    except OverflowError as e:
+        raise defs.BadValueTypeError(e)
+    if is_directory:
+        os.close(fileno)
+        raise IsADirectoryError(errno.EISDIR, os.strerror(errno.EISDIR), name)
+
+    raw_kwargs["fileno"] = fileno
+    raw_kwargs["path"] = None  # irrelevant in this case
+    extended_kwargs["truncate"] = False  # like other flags, it was submitted to the opener
+
+
 def get_opener_flags(raw_kwargs, extended_kwargs):
     """
     Returns the flags, similar to those of os.open(), expected by the ``opener`` callables of io.open().
-- 
2.43.0


From a3739a101e1e88c634d0fd35ea72aeba52f43f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 36/44] fix: open replacement ignored the standard signature
 and permissions

---
 src/rsfile/rsfile_utilities.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index bb9193d..9f5bf00 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -13,7 +13,17 @@ def BUILTIN_OPEN_FUNC_REPLACEMENT(*args, **kwargs):
     with rectified default arguments, and
     tolerant mode for str/unicode mixes in python2.
     """
-    params = dict(handle=None, locking=False, timeout=0, thread_safe=False, mutex=None, permissions=0o777)
+    if "file" in kwargs:
+        kwargs["name"] = kwargs.pop("file")  # standard name of this argument
+    if len(args) > 6:
+        args, others = args[:6], args[6:]  # in the standard signature, these are closefd and opener
+        if len(others) > 2:
+            raise TypeError("open() takes at most 8 positional arguments (%d given)" % (6 + len(others)))
+        for key, value in zip(("closefd", "opener"), others):
+            if key in kwargs:
+                raise TypeError("open() got multiple values for argument %r" % key)
+            kwargs[key] = value
+    params = dict(handle=None, locking=False, timeout=0, thread_safe=False, mutex=None, permissions=0o666)
     params.update(kwargs)
     stream = rsopen(*args, **params)
     return stream
-- 
2.43.0


From 2f1d3b03b67c866686d6312e12644acb9d49a8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 37/44] fix: FileIO replacement ignored path-like names,
 openers and standard permissions

---
 src/rsfile/rsfile_utilities.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 9f5bf00..39b26a9 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -40,12 +40,16 @@ class RSFileIOWrapper(RSFileIO):
     Interface to rsFile accepting the limited "fopen()" modes (no file locking, no O_EXCL|O_CREAT semantic...)
     """
 
-    def __init__(self, name, mode="r", closefd=True):
+    def __init__(self, file, mode="r", closefd=True, opener=None):
 
+        name = file if isinstance(file, int) else os.fspath(file)
         (raw_kwargs, extended_kwargs) = parse_standard_args(name, mode, None, None, closefd)
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
-        RSFileIO.__init__(self, **raw_kwargs)
+        if opener is not None and raw_kwargs["fileno"] is None:
+            call_opener(opener, file, raw_kwargs, extended_kwargs)
+        RSFileIO.__init__(self, permissions=0o666, **raw_kwargs)
+        self.name = file
         if self.seekable() and extended_kwargs["truncate"] and raw_kwargs["path"] is not None:
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
 
-- 
2.43.0


From 4d173bc92d0f37c7835a9f01c7b724df88203720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 38/44] fix: writable streams leaked a C descriptor on Windows

---
 src/rsfile/rsfileio_windows.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 1748d62..138cd8c 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -178,11 +178,10 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         self._use_nonblocking_pipe_write_hack = False
         #print(">>> Detecting _use_nonblocking_pipe_write_hack!", write, BLOCKING_MODES_ENABLED)
         if write and BLOCKING_MODES_ENABLED:
-            _fileno = win32._open_osfhandle(self._handle, (int(append) and os.O_APPEND))
             try:
-                if not os.get_blocking(_fileno):
+                # we always keep this descriptor, since it can't be released without closing the native handle
+                if not os.get_blocking(self._inner_fileno()):
                     #print(">>> We want to use _use_nonblocking_pipe_write_hack!")
-                    self._fileno = _fileno
                     self._use_nonblocking_pipe_write_hack = True
             except OSError:
                 pass  # probably not a PIPE
@@ -298,7 +297,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # NEVER use flag os.O_TEXT, we're in raw IO here !
             self._fileno = win32._open_osfhandle(self._handle, flags)
 
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
-- 
2.43.0


From 8789c521e49acb2d43e22c887b52caf0bac1f737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 39/44] fix: failed truncations moved the stream on Windows

---
 src/rsfile/rsfileio_windows.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 138cd8c..e5968a8 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -218,8 +218,10 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         old_pos = self._inner_tell()
         self.seek(size)
         # print ("---> inner reduce to ", self.tell())
-        win32.SetEndOfFile(self._handle)  # warning - this might fail silently
-        self._inner_seek(old_pos)
+        try:
+            win32.SetEndOfFile(self._handle)  # warning - this might fail silently
+        finally:
+            self._inner_seek(old_pos)
 
     @_win32_error_converter
     def _inner_extend(self, size, zero_fill):
@@ -228,8 +230,10 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         if not zero_fill:
             old_pos = self._inner_tell()
             self.seek(size)
-            win32.SetEndOfFile(self._handle)  # warning - this might fail silently
-            self._inner_seek(old_pos)
+            try:
+                win32.SetEndOfFile(self._handle)  # warning - this might fail silently
+            finally:
+                self._inner_seek(old_pos)
         else:
             pass  # we can't directly truncate with zero-filling on win32, so just upper levels handle it
 
-- 
2.43.0


From 762d4e5ed21c4942489ac3830cb4e841b74310da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 40/44] fix: writing past the end left garbage in the gap on
 Windows, and empty writes moved the stream

---
 src/rsfile/rsfileio_windows.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index e5968a8..082352b 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -393,13 +393,16 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
 
         #print(">> WIN32 WRITING BYTES", len(buffer))
 
+        if not len(buffer):
+            return 0  # nothing to do, even the file pointer must not move
+
         if self._append:  # yep, no atomicity around here, as in truncate(), since FILE_APPEND_DATA can't be used
             self._inner_seek(0, defs.SEEK_END)
 
         cur_pos = self._inner_tell()
         if cur_pos > self._inner_size():
             # we extend the file with zeros until current file pointer position
-            self._inner_extend(cur_pos, zero_fill=True)
+            self.truncate(cur_pos)
 
         if self._use_nonblocking_pipe_write_hack:
             # Non-blocking pipes have horrendous behaviour on Windows
-- 
2.43.0


From 88d621dffb6cd6334001999ada0cba1920c263dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 41/44] fix: unknown whence values crashed on Windows

---
 src/rsfile/rsfileio_windows.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 082352b..684aca1 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -351,7 +351,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         if not isinstance(offset, int):
             raise defs.BadValueTypeError("Offset should be an integer in seek(), not %s object" % type(offset))
 
-        reference = self.__POSITION_REFERENCES[whence]
+        reference = self.__POSITION_REFERENCES.get(whence)
+        if reference is None:
+            raise IOError(errno.EINVAL, "Invalid argument : unknown whence value %r" % (whence,))
         new_offset = win32.SetFilePointer(self._handle, offset, reference)
         return new_offset
 
-- 
2.43.0


From 82847c80c04e0ad00882993d30ccf4f6482f83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 42/44] fix: half of the volumes had no identity with pywin32

---
 src/rsfile/rsfileio_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 684aca1..44c050e 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -266,7 +266,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         """
 
         handle_info = win32.GetFileInformationByHandle(self._handle)
-        device = handle_info.dwVolumeSerialNumber
+        device = utilities.signed_to_unsigned(handle_info.dwVolumeSerialNumber)  # pywin32 gives signed integers
         inode = utilities.double_dwords_to_pyint(handle_info.nFileIndexLow, handle_info.nFileIndexHigh)
 
         if device <= 0 or inode <= 0:
-- 
2.43.0


From a17e95ceffa73d74746460f7268d0d2c75841ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 43/44] fix: too large offsets were truncated by the ctypes
 backend of Windows

---
 src/rsfile/rsbackend/windows_ctypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsbackend/windows_ctypes.py b/src/rsfile/rsbackend/windows_ctypes.py
index 04f0063..2ecf404 100644
--- a/src/rsfile/rsbackend/windows_ctypes.py
+++ b/src/rsfile/rsbackend/windows_ctypes.py
@@ -146,6 +146,9 @@ def GetFileSize(handle):
 
 def SetFilePointer(handle, offset, moveMethod):  # we match the naming of pywin32
 
+    if not -(1 << 63) <= offset < (1 << 63):
+        raise OverflowError("offset too large for a 64 bits integer")  # ctypes would just truncate it
+
     newPos = wintypes.LARGE_INTEGER(5)
 
     res = win32api.SetFilePointerEx(handle, offset, ctypes.byref(newPos), moveMethod)
-- 
2.43.0


From d85d6fa76e3f2105c03b210f73041dc107c4db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 44/44] fix: metadata queries leaked C descriptors with pywin32

---
 src/rsfile/rsbackend/windows_pywin32.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsbackend/windows_pywin32.py b/src/rsfile/rsbackend/windows_pywin32.py
index 3e62d6f..2866f0a 100644
--- a/src/rsfile/rsbackend/windows_pywin32.py
+++ b/src/rsfile/rsbackend/windows_pywin32.py
@@ -87,7 +87,16 @@ def GetFileInformationByHandle(handle):
     ##print(">>>>>>", info.__dict__)
 
     # to workaround bugs, we don't deal with "PyTime" objects, we fallback to stdlib...
-    mystat = os.fstat(_open_osfhandle(handle, 0))
+    # (on a duplicate, because C file descriptors can't be released without closing the native handle)
+    process = win32api.GetCurrentProcess()
+    duplicate = win32api.DuplicateHandle(process, handle, process, 0, False, win32con.DUPLICATE_SAME_ACCESS)
+    fileno = _open_osfhandle(int(duplicate), 0)
+    duplicate.Detach()  # now owned by this descriptor
+    try:
+        mystat = os.fstat(fileno)
+    finally:
+        os.close(fileno)
+
     info.ftCreationTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_ctime))
     info.ftLastAccessTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_atime))
     info.ftLastWriteTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_mtime))
-- 
2.43.0

