From dbaa649458013d37b1917c609fcfc44e89ce4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 01/60] fix: wake up threads waiting for a lock when its owner
 stream gets closed

---
 src/rsfile/rsfile_registries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 890687a..a4bcc24 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -222,6 +222,9 @@ class IntraProcessLockRegistryClass(object):
 
             self._lock_registry[unique_id][1] = remaining_locks
 
+            if removed_locks:
+                self._lock_registry[unique_id][0].notify_all()  # we awake potential waiters - ALL of them
+
             return removed_locks
 
     def try_deleting_unique_id_entry(self, unique_id):
-- 
2.43.0


From faf6e7f8fcee22c46f0bb0ffc441a569669e4f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 02/60] fix: release the lock when a 'with lock_file()' block
 is left by an exception

---
 src/rsfile/rsfileio_abstract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index dab493f..c4d070f 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -527,9 +527,11 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
     @contextmanager
     def _lock_remover(self, length, offset, whence):
         # we do nothing on __enter__()
-        yield
-        # we unlock on __exit__()
-        self.unlock_file(length=length, offset=offset, whence=whence)
+        try:
+            yield
+        finally:
+            # we unlock on __exit__(), even if an exception is leaving the block
+            self.unlock_file(length=length, offset=offset, whence=whence)
 
     def lock_file(self, timeout=None, length=None, offset=None, whence=os.SEEK_SET, shared=None):
 
-- 
2.43.0


From 1e9b012386ca062362bd51eca75855d87f35910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 03/60] fix: do not drop the kernel lock of other handles when
 releasing a shared lock

---
 src/rsfile/rsfile_registries.py | 31 +++++++++++++++++++++++++++++++
 src/rsfile/rsfileio_abstract.py | 13 +++++++++----
 src/rsfile/rsfileio_unix.py     | 17 ++++++++++++++---
 3 files changed, 54 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index a4bcc24..67d67e0 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -227,6 +227,37 @@ class IntraProcessLockRegistryClass(object):
 
             return removed_locks
 
+    def get_unlocked_ranges(self, unique_id, length, offset):
+        """
+        Returns the list of (length, offset) parts, of the range provided, on which no handle has locks anymore.
+        """
+        assert unique_id, unique_id
+        with self.mutex:
+
+            self._check_forking()
+
+            end = (offset + length) if length else None  # None -> infinity
+            records = []
+            if self._ensure_entry_exists(unique_id, create=False):
+                records = sorted(self._lock_registry[unique_id][1], key=lambda record: record[2])
+
+            unlocked_ranges = []
+            for (_, _, other_start, other_end) in records:
+                if end is not None and other_start >= end:
+                    break
+                if other_end is not None and other_end <= offset:
+                    continue
+                if other_start > offset:
+                    unlocked_ranges.append((other_start - offset, offset))
+                if other_end is None:
+                    return unlocked_ranges  # everything is still locked from there
+                offset = other_end
+            if end is None:
+                unlocked_ranges.append((None, offset))
+            elif offset < end:
+                unlocked_ranges.append((end - offset, offset))
+            return unlocked_ranges
+
     def try_deleting_unique_id_entry(self, unique_id):
         """
         Returns True iff an entry existed and could be deleted.
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index c4d070f..49888d8 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -632,10 +632,12 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
             finally:
                 if not success:
-                    res = IntraProcessLockRegistry.unregister_file_lock(
-                        self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
-                    )
-                    assert res in (True, False)  # there may or may not be locks left after that, we dunno
+                    with IntraProcessLockRegistry.mutex:
+                        res = IntraProcessLockRegistry.unregister_file_lock(
+                            self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
+                        )
+                        assert res in (True, False)  # there may or may not be locks left after that, we dunno
+                        self._inner_file_lock_aborted(length, abs_offset)
 
         return self._lock_remover(length, abs_offset, os.SEEK_SET)
 
@@ -724,6 +726,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
     def _inner_file_lock(self, length, abs_offset, blocking, shared):
         self._unsupported("file_lock")
 
+    def _inner_file_lock_aborted(self, length, abs_offset):
+        pass  # called after a failed locking attempt got unregistered
+
     def _inner_file_unlock(self, length, abs_offset):
         self._unsupported("file_unlock")
 
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 7e2f987..d45c6d4 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -294,10 +294,21 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
     @_unix_error_converter
     def _inner_file_unlock(self, length, abs_offset):
 
-        if length is None:
-            length = 0  # that's the "infinity" value for fcntl
+        # fcntl() locks belong to the whole process, so we must not release bytes which are
+        # still (share-)locked via other handles
+        unlocked_ranges = IntraProcessLockRegistry.get_unlocked_ranges(self._lock_registry_inode, length, abs_offset)
 
         try:
-            unix.lockf(self._fileno, unix.LOCK_UN, length, abs_offset, os.SEEK_SET)
+            for (sub_length, sub_offset) in unlocked_ranges:
+                if sub_length is None:
+                    sub_length = 0  # that's the "infinity" value for fcntl
+                unix.lockf(self._fileno, unix.LOCK_UN, sub_length, sub_offset, os.SEEK_SET)
         finally:
             self._purge_pending_related_file_descriptors()
+
+    def _inner_file_lock_aborted(self, length, abs_offset):
+        # bytes released via other handles during our attempt, and descriptors closed meanwhile, were left to our care
+        try:
+            self._inner_file_unlock(length, abs_offset)
+        except (EnvironmentError, OverflowError):
+            pass  # eg. the range is invalid for the kernel, the original exception is more interesting
-- 
2.43.0


From 54e4367b723012a26339adc90197d266daf94e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 04/60] fix: flush written data before the context manager of
 lock_file() releases the lock

---
 src/rsfile/rsfile_streams.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 58b5881..2cbfb4e 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -5,6 +5,7 @@ import functools
 import multiprocessing
 import os
 import threading
+from contextlib import contextmanager
 
 from . import rsfile_definitions as defs
 
@@ -30,6 +31,22 @@ def __rsfile_stream_repr__(self):
     else:
         return "<%s name=%r>" % (clsname, name)
 
+@contextmanager
+def _flushing_lock_remover(stream, lock_remover):
+    """
+    Does on __exit__() the same as an explicit call to unlock_file(): written data must be flushed before lock gets released.
+    """
+    try:
+        yield
+    finally:
+        try:
+            if not stream.closed:
+                stream.flush()
+        finally:
+            with lock_remover:
+                pass
+
+
 class _buffer_forwarder_mixin(object):
     def _reset_buffers(self):
         self.seek(0, os.SEEK_CUR)  # we flush i/o buffers, didn't work on py26
@@ -50,7 +67,7 @@ class _buffer_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.raw.lock_file(*args, **kwargs)
+        return _flushing_lock_remover(self, self.raw.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
@@ -94,7 +111,7 @@ class _text_forwarder_mixin(object):
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return self.buffer.lock_file(*args, **kwargs)
+        return _flushing_lock_remover(self, self.buffer.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
         self._reset_buffers()
@@ -184,6 +201,18 @@ class RSThreadSafeWrapper(object):
 
         return attr
 
+    @contextmanager
+    def _protected_lock_remover(self, lock_remover):
+        try:
+            yield
+        finally:
+            with self.mutex:
+                with lock_remover:
+                    pass
+
+    def lock_file(self, *args, **kwargs):
+        return self._protected_lock_remover(self._secure_call("lock_file", *args, **kwargs))
+
     def __iter__(self):
         return iter(self.wrapped_stream)
 
-- 
2.43.0


From 5c6aabc660a4f0b75cfe228c5701d1dff91b3b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 05/60] fix: do not leak a file descriptor when trying to open
 a directory

---
 src/rsfile/rsfileio_unix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index d45c6d4..1169c77 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -125,6 +125,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # on unix we must prevent the opening of directories, but not named fifos or other special files
             stats = unix.fstat(self._fileno).st_mode
             if stat.S_ISDIR(stats):
+                unix.close(self._fileno)
                 raise IOError(errno.EISDIR, "RSFile can't open directories", self.name)
 
             # we don't use O_CLOEXEC flag (available since Linux 2.6.23) for compatibility and safety
-- 
2.43.0


From 25967c98695385167834208b7777de1c269f9da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 06/60] fix: handle file descriptor 0 like any other one

---
 src/rsfile/rsfile_factories.py  | 6 +++---
 src/rsfile/rsfile_registries.py | 2 +-
 src/rsfile/rsfileio_abstract.py | 2 +-
 src/rsfile/rsfileio_unix.py     | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index f058fa4..4fda687 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -238,7 +238,7 @@ def rsopen(
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
     if opener:
-        if raw_kwargs["fileno"]:
+        if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
         raw_kwargs["fileno"] = opener(
             name, mode
@@ -250,7 +250,7 @@ def rsopen(
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
             raise defs.BadValueTypeError("can't truncate a non-writable file")
-        if raw_kwargs["fileno"] or raw_kwargs["handle"]:
+        if raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
             # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
             extended_kwargs["truncate"] = False
 
@@ -298,7 +298,7 @@ def rsopen(
             buffering = defs.DEFAULT_BUFFER_SIZE
             # do not trigger the libc compatibility layer on windows,
             # since anyway it seems to have no st_blksize...
-            if raw._fileno:
+            if raw._fileno is not None:
                 try:
                     bs = os.fstat(raw._fileno).st_blksize
                 except (os.error, AttributeError):
diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 67d67e0..b83384e 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -281,7 +281,7 @@ class IntraProcessLockRegistryClass(object):
 
     def add_unique_id_data(self, unique_id, data):
         assert unique_id, unique_id
-        assert data, data
+        assert data is not None, data
         with self.mutex:
             self._check_forking()
 
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 49888d8..a117bea 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -170,7 +170,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                 # we bypass Rsfile for file descriptors that are pipes, devices, directories, symlinks etc.
                 st_mode = os.fstat(self._fileno).st_mode  # might raise
                 if stat.S_ISDIR(st_mode):
-                    assert fileno or handle, (fileno, handle)  # it must NOT be a newly created file object, else bug
+                    assert fileno is not None or handle is not None, (fileno, handle)  # it must NOT be a newly created file object, else bug
                     self._closefd = False  # disown file descriptor
                     raise IOError(errno.EISDIR, "Can't wrap a directory in FileIO")
                 is_regular = stat.S_ISREG(st_mode)
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 1169c77..89e3809 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -189,11 +189,11 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         # print("FSYNC_UNIX_DONE")
 
     def _inner_fileno(self):
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
-        assert self._handle
+        assert self._handle is not None
         return self._handle
 
     @_unix_error_converter
-- 
2.43.0


From c9425a5ff4c6b3c8fb9d81f906d4bdfc51ce76f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 07/60] fix: readinto() must return None when a non-blocking
 stream has no data

---
 src/rsfile/rsfileio_abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index a117bea..7e6e1d4 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -400,8 +400,10 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
             buffer = memoryview(buffer).cast("B")
 
         mybytes = self._inner_read(len(buffer))
-        byteslen = len(mybytes)
         assert mybytes is None or isinstance(mybytes, bytes), type(mybytes)
+        if mybytes is None:
+            return None  # non-blocking stream without data available
+        byteslen = len(mybytes)
 
         if isinstance(buffer, array):
             typecode = b"b" if (sys.version_info[:2] < (3, 0)) else "b"  # typecode weirdness...
-- 
2.43.0


From aebb0a06c3cb244806076d69473b41d33468e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 08/60] fix: protect the first call of each method of
 thread-safe streams too

---
 src/rsfile/rsfile_streams.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 2cbfb4e..cb3262b 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -198,6 +198,7 @@ class RSThreadSafeWrapper(object):
                 return self._secure_call(name, *args, **kwargs)
             # IMPORTANT : cache the thread-safe caller in object, so that we bypass this __getattr__ next time
             setattr(self, name, _method_proxy)
+            return _method_proxy
 
         return attr
 
-- 
2.43.0


From 95352f6300dbaa59fc307b5c4ca9209610d289a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 09/60] fix: protect line iteration on thread-safe streams

---
 src/rsfile/rsfile_streams.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index cb3262b..8d86ae7 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -215,7 +215,11 @@ class RSThreadSafeWrapper(object):
         return self._protected_lock_remover(self._secure_call("lock_file", *args, **kwargs))
 
     def __iter__(self):
-        return iter(self.wrapped_stream)
+        self._checkClosed()
+        return self
+
+    def __next__(self):
+        return self._secure_call("__next__")
 
     def __str__(self):
         return "Thread Safe Wrapper around %s" % self.wrapped_stream
-- 
2.43.0


From 0d45bdaee655b1c925a09d459be110680528b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 10/60] fix: truncate() of buffered streams must drop
 read-ahead data and accept zero_fill

---
 src/rsfile/rsfile_streams.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 8d86ae7..f9b681e 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -51,6 +51,12 @@ class _buffer_forwarder_mixin(object):
     def _reset_buffers(self):
         self.seek(0, os.SEEK_CUR)  # we flush i/o buffers, didn't work on py26
 
+    def truncate(self, size=None, zero_fill=True):
+        self._checkClosed()
+        self._checkWritable()
+        self._reset_buffers()  # IMPORTANT - also drops the data read ahead, which might be about to disappear
+        return self.raw.truncate(*((size,) if zero_fill else (size, zero_fill)))
+
     def unique_id(self):
         return self.raw.unique_id()
 
@@ -95,6 +101,12 @@ class _text_forwarder_mixin(object):
     def _reset_buffers(self):
         self.seek(0, os.SEEK_CUR)  # we flush i/o buffers, didn't work on py26
 
+    def truncate(self, size=None, zero_fill=True):
+        self.flush()
+        if size is None:
+            size = self.tell()
+        return self.buffer.truncate(*((size,) if zero_fill else (size, zero_fill)))
+
     def unique_id(self):
         return self.buffer.unique_id()
 
@@ -157,7 +169,7 @@ class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
 
 # awkward structure to have all methods/inheritance-relations OK even when monkey patching
 class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBufferedReader):
-    pass
+    truncate = _buffer_forwarder_mixin.truncate
 
 
 class RSTextIOWrapper(_text_forwarder_mixin, defs.io_module.TextIOWrapper):
-- 
2.43.0


From af0c0ae05c21c856c7441d393e76e91e33a642c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 11/60] fix: do not retry forever locking attempts which can't
 succeed

---
 src/rsfile/rsfileio_abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 7e6e1d4..b824c66 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -630,6 +630,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                         success = True  # we leave the two loops
 
                     except EnvironmentError as e:
+                        if e.errno in (errno.EBADF, errno.EINVAL, errno.EOVERFLOW):
+                            # these errors are permanent, it's useless to wait
+                            raise defs.LockingException(e.errno, e.strerror, getattr(self, "name", "Unknown File"))
                         check_timeout(e)
 
             finally:
-- 
2.43.0


From 6cdd081b49e7b572077c51c37bc6b59405559d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 12/60] fix: close the descriptor even if releasing a lock
 fails on close()

---
 src/rsfile/rsfileio_abstract.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index b824c66..51e5251 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -214,17 +214,18 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
                 with IntraProcessLockRegistry.mutex:
 
-                    # We are careful, in case object initialization failed
-                    if hasattr(self, "_lock_registry_inode") and hasattr(self, "_lock_registry_descriptor"):
-                        for (handle, shared, start, end) in IntraProcessLockRegistry.remove_file_locks(
-                            self._lock_registry_inode, self._lock_registry_descriptor
-                        ):
-                            # print (">>>>>>>> ", (handle, shared, start, end))
-                            length = None if end is None else (end - start)
-                            self._inner_file_unlock(length, start)
-
-                    # Mark the raw stream as closed, even if some operations failed
-                    self._inner_close_streams()  # Might raise OverflowError
+                    try:
+                        # We are careful, in case object initialization failed
+                        if hasattr(self, "_lock_registry_inode") and hasattr(self, "_lock_registry_descriptor"):
+                            for (handle, shared, start, end) in IntraProcessLockRegistry.remove_file_locks(
+                                self._lock_registry_inode, self._lock_registry_descriptor
+                            ):
+                                # print (">>>>>>>> ", (handle, shared, start, end))
+                                length = None if end is None else (end - start)
+                                self._inner_file_unlock(length, start)
+                    finally:
+                        # Mark the raw stream as closed, even if some operations failed
+                        self._inner_close_streams()  # Might raise OverflowError
 
     '''
     def __del__(self):
-- 
2.43.0


From 88238935bc55fce003269a6e441c58bd2516026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 13/60] fix: accept file names containing undecodable bytes

---
 src/rsfile/rsfileio_unix.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 89e3809..dd6189c 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -90,10 +90,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         else:  # we open the file with low level posix IO - the unix "open()"  function
 
             if isinstance(path, str):
-                strname = path.encode(
-                    sys.getfilesystemencoding()
-                )  # let's take no risks - and do not use locale.getpreferredencoding(
-                # ) here
+                strname = os.fsencode(path)  # let's take no risks - and do not use locale.getpreferredencoding() here
             else:
                 strname = path
 
-- 
2.43.0


From 82e3f4f27dbdc95eca769136ba6338f3b6dd7b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 14/60] fix: write_to_file() and append_to_file() must complete
 partial writes of unbuffered streams

---
 src/rsfile/rsfile_utilities.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index bcb6511..a824670 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 
 
+import errno
+
 from .rsfile_definitions import *  # constants, base types and exceptions
 from .rsfile_factories import *
 
@@ -83,6 +85,18 @@ def monkey_patch_open_builtin():
 # ---------------------
 
 
+def _write_all(stream, data):
+    # if unbuffered, the stream might write less than asked, so we have to "loop while"
+    count = stream.write(data)
+    if not isinstance(data, str):
+        remaining = memoryview(data).cast("B")
+        while count is not None and count < len(remaining):
+            remaining = remaining[count:]
+            count = stream.write(remaining)
+        if count is None:
+            raise BlockingIOError(errno.EAGAIN, "write could not complete without blocking")
+
+
 def read_from_file(
     filename, binary=False, buffering=None, encoding=None, errors=None, newline=None, locking=True, timeout=None
 ):
@@ -171,7 +185,7 @@ def write_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_all(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
@@ -216,7 +230,7 @@ def append_to_file(
         thread_safe=False,
     ) as myfile:
 
-        myfile.write(data)
+        _write_all(myfile, data)
         myfile.flush()
         if sync:
             myfile.sync()
-- 
2.43.0


From 57de16ced101fc0ed3f2fe39eb34f18cf6597182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 15/60] fix: always refuse to unlock a file area which was not
 locked

---
 src/rsfile/rsfile_registries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index b83384e..6e34b4e 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -149,7 +149,7 @@ class IntraProcessLockRegistryClass(object):
 
         # unprotected method - beware
         if not self._ensure_entry_exists(unique_id, create=False):
-            return True
+            raise RuntimeError("Trying to unlock a file area not owned by this handle")
 
         new_end = (new_start + new_length) if new_length else None  # None -> infinity
 
-- 
2.43.0


From 7eee5e78b559cd90017d041642e3995021c93a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 16/60] fix: protect the lock registry when a multithreaded
 process forks

---
 src/rsfile/rsfile_registries.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 6e34b4e..2206d94 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -318,3 +318,11 @@ class IntraProcessLockRegistryClass(object):
 
 # single global instance
 IntraProcessLockRegistry = IntraProcessLockRegistryClass()
+
+if hasattr(os, "register_at_fork"):
+    # a child process must not inherit a mutex held by another thread of its parent
+    os.register_at_fork(
+        before=IntraProcessLockRegistry.mutex.acquire,
+        after_in_parent=IntraProcessLockRegistry.mutex.release,
+        after_in_child=IntraProcessLockRegistry.mutex.release,
+    )
-- 
2.43.0


From 6f8835afb6b7a13231d801b965346420e3ae2649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 17/60] fix: give open flags to the custom opener, like
 io.open() does

---
 src/rsfile/rsfile_factories.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 4fda687..8b4938a 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -240,8 +240,10 @@ def rsopen(
     if opener:
         if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
+        # if we're going to lock the file, we only truncate it afterwards
+        flags = get_opener_flags(truncate=(extended_kwargs["truncate"] and not locking), **raw_kwargs)
         raw_kwargs["fileno"] = opener(
-            name, mode
+            name, flags
         )  # we give it the original "name" as parameter, not the normalized path
         if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
             raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
@@ -250,7 +252,7 @@ def rsopen(
     if extended_kwargs["truncate"]:
         if not (raw_kwargs["write"] or raw_kwargs["append"]):
             raise defs.BadValueTypeError("can't truncate a non-writable file")
-        if raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None:
+        if (raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None) and not (opener and locking):
             # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
             extended_kwargs["truncate"] = False
 
@@ -346,6 +348,33 @@ if sys.version_info >= (3, 10):
     rsopen = staticmethod(rsopen)
 
 
+def get_opener_flags(
+    read, write, append, must_create, must_not_create, synchronized, inheritable, truncate=False, **others
+):
+    """
+    Returns the flags to be given to a custom opener, like io.open() does.
+    """
+    if read and write:
+        flags = os.O_RDWR
+    elif write:
+        flags = os.O_WRONLY
+    else:
+        flags = os.O_RDONLY
+    if append:
+        flags |= os.O_APPEND
+    if must_create:
+        flags |= os.O_CREAT | os.O_EXCL
+    elif not must_not_create:
+        flags |= os.O_CREAT
+    if truncate:
+        flags |= os.O_TRUNC
+    if synchronized:
+        flags |= getattr(os, "O_SYNC", 0)
+    if not inheritable:
+        flags |= getattr(os, "O_CLOEXEC", 0) | getattr(os, "O_NOINHERIT", 0)
+    return flags | getattr(os, "O_BINARY", 0)
+
+
 def parse_standard_args(name, mode, fileno, handle, closefd):
     # note: name can also be a fileno here, for retrocompatibility...
 
-- 
2.43.0


From c2c2d9a63d2db65393c6870cd4479cb880b629f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 18/60] fix: the io.FileIO replacement must accept path-like
 objects and openers

---
 src/rsfile/rsfile_utilities.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index a824670..502a42b 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -30,11 +30,18 @@ class RSFileIOWrapper(RSFileIO):
     Interface to rsFile accepting the limited "fopen()" modes (no file locking, no O_EXCL|O_CREAT semantic...)
     """
 
-    def __init__(self, name, mode="r", closefd=True):
+    def __init__(self, name, mode="r", closefd=True, opener=None):
 
+        if USE_FSPATH and not isinstance(name, int):
+            name = os.fspath(name)
         (raw_kwargs, extended_kwargs) = parse_standard_args(name, mode, None, None, closefd)
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
+        if opener and raw_kwargs["fileno"] is None:
+            flags = get_opener_flags(truncate=extended_kwargs["truncate"], **raw_kwargs)
+            extended_kwargs["truncate"] = False  # left to the opener
+            raw_kwargs["fileno"] = opener(name, flags)
+            raw_kwargs["path"] = None
         RSFileIO.__init__(self, **raw_kwargs)
         if self.seekable() and extended_kwargs["truncate"]:
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
-- 
2.43.0


From 2cc5c1bc253c615240c55716ce3b3de6b4d1abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:33 +0000
Subject: [PATCH 19/60] fix: accept any bytes-like object in raw write()

---
 src/rsfile/rsfileio_abstract.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 51e5251..f337d6d 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -434,13 +434,9 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         if isinstance(buffer, str):
             raise defs.BadValueTypeError("can't write unicode to binary stream")
 
-        if isinstance(buffer, memoryview):
-            buffer = buffer.tobytes()
-        elif isinstance(buffer, array):
-            try:
-                buffer = buffer.tobytes()  # New API
-            except AttributeError:
-                buffer = buffer.tostring()
+        if not isinstance(buffer, (bytes, bytearray)):
+            # the length of other buffers (memoryview, array, ctypes arrays...) might not be in bytes
+            buffer = memoryview(buffer).tobytes()
 
         res = self._inner_write(buffer)
         # assert res == len(buffer), str(res, len(buffer)) # NOOO - we might have less than that actually if disk full !
-- 
2.43.0


From e8b4d3289dc30113a141e1bfeb64777b49ac6d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:42 +0000
Subject: [PATCH 20/60] fix: opening an empty path must fail like for any
 missing file

---
 src/rsfile/rsfileio_abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index f337d6d..802b55a 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -100,7 +100,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         if path is not None and not isinstance(path, (bytes, str)):
             raise defs.BadValueTypeError("If provided, path must be a string.")
 
-        if bool(path) + (fileno is not None) + (handle is not None) != 1:
+        if (path is not None) + (fileno is not None) + (handle is not None) != 1:
             raise defs.BadValueTypeError("File must provide path, fileno or handle value, and only one of these.")
 
         if not read and not write:
-- 
2.43.0


From 2820ca3300358f16b4171c80bf012062fcd5c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 21/60] fix: a failing close() must not leak the other pending
 descriptors

A single error while closing the descriptors kept pending because of locks
left all the remaining ones open for ever.
---
 src/rsfile/rsfileio_unix.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index dd6189c..a4f1c22 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -53,9 +53,15 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             res = IntraProcessLockRegistry.unique_id_has_locks(self._lock_registry_inode)
             if not res:  # no more locks left for that unique_id
                 data_list = IntraProcessLockRegistry.remove_unique_id_data(self._lock_registry_inode)
+                error = None
                 for fd in data_list:  # we close all pending file descriptors (which were left opened to prevent
                     # fcntl() lock autoremoving)
-                    unix.close(fd)
+                    try:
+                        unix.close(fd)
+                    except unix.error as e:
+                        error = e  # other descriptors must be closed anyway
+                if error is not None:
+                    raise error
 
             return not res
 
-- 
2.43.0


From cbeac560ed4241baa99af1576854e05698676b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 22/60] fix: sync() must report the errors of the device
 instead of trying something else

Only errors telling that a kind of flush is unsupported may lead to the next
one: after an EIO on fdatasync(), the error is cleared and fsync() succeeds,
so the loss of data was silently swallowed.
---
 src/rsfile/rsfileio_unix.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index a4f1c22..a6463a9 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -19,6 +19,9 @@ from .rsfile_registries import IntraProcessLockRegistry
 
 UNIX_MSG_ENCODING = locale.getpreferredencoding()
 
+# errors telling that a kind of flush is not available on that file, so that another one must be tried
+UNSUPPORTED_SYNC_ERRORS = (errno.EINVAL, errno.ENOSYS, errno.ENOTSUP, errno.ENOTTY)
+
 
 class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
     # Warning - this is to be used as a static method ! #
@@ -176,8 +179,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 unix.fcntl(self._fileno, unix.F_FULLFSYNC, 0)  # Mac OS X only
                 # print("FULLFLUSH_UNIX_DONE")
                 return
-            except unix.error:
-                pass
+            except unix.error as e:
+                if e.errno not in UNSUPPORTED_SYNC_ERRORS:
+                    raise  # data might have been lost
 
         if not metadata and hasattr(unix, "fdatasync"):
             try:
@@ -185,8 +189,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 unix.fdatasync(self._fileno)  # not supported on Mac OS X
                 # print("FDATASYNC_UNIX_DONE")
                 return
-            except unix.error:
-                pass
+            except unix.error as e:
+                if e.errno not in UNSUPPORTED_SYNC_ERRORS:
+                    raise  # data might have been lost, a later fsync() wouldn't tell it anymore
 
         unix.fsync(self._fileno)  # last attempt : metadata flush without full_sync guarantees
         # print("FSYNC_UNIX_DONE")
-- 
2.43.0


From f40d352fa71202e6339f8cf9f608c7466e1653d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:13 +0000
Subject: [PATCH 23/60] fix: a refused open must not leak the descriptor given
 by the opener

Arguments are now checked before calling the opener, and the descriptor
is closed when the raw stream couldn't take ownership of it. closefd=False,
which leaked it on close, is refused like in the standard library.
---
 src/rsfile/rsfile_factories.py | 47 +++++++++++++++++++---------------
 src/rsfile/rsfile_utilities.py |  4 +++
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 8b4938a..3297f53 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -237,25 +237,8 @@ def rsopen(
     is_interprocess = raw_kwargs["inheritable"] and hasattr(os, "fork")
     thread_safe_interface = functools.partial(RSThreadSafeWrapper, mutex=mutex, is_interprocess=is_interprocess)
 
-    if opener:
-        if raw_kwargs["fileno"] is not None:
-            raise defs.BadValueTypeError("can't provide both fileno and opener")
-        # if we're going to lock the file, we only truncate it afterwards
-        flags = get_opener_flags(truncate=(extended_kwargs["truncate"] and not locking), **raw_kwargs)
-        raw_kwargs["fileno"] = opener(
-            name, flags
-        )  # we give it the original "name" as parameter, not the normalized path
-        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
-            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
-        raw_kwargs["path"] = None  # irrelevant in this case
-
-    if extended_kwargs["truncate"]:
-        if not (raw_kwargs["write"] or raw_kwargs["append"]):
-            raise defs.BadValueTypeError("can't truncate a non-writable file")
-        if (raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None) and not (opener and locking):
-            # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
-            extended_kwargs["truncate"] = False
-
+    if extended_kwargs["truncate"] and not (raw_kwargs["write"] or raw_kwargs["append"]):
+        raise defs.BadValueTypeError("can't truncate a non-writable file")
     if extended_kwargs["binary"] and extended_kwargs["text"]:
         raise defs.BadValueTypeError("can't have text and binary mode at once")
     if extended_kwargs["binary"] and encoding is not None:
@@ -273,9 +256,33 @@ def rsopen(
             2,
         )
 
+    if opener:
+        if raw_kwargs["fileno"] is not None:
+            raise defs.BadValueTypeError("can't provide both fileno and opener")
+        if not closefd:
+            raise defs.BadValueTypeError("can't use closefd=False with an opener")
+        # if we're going to lock the file, we only truncate it afterwards
+        flags = get_opener_flags(truncate=(extended_kwargs["truncate"] and not locking), **raw_kwargs)
+        raw_kwargs["fileno"] = opener(
+            name, flags
+        )  # we give it the original "name" as parameter, not the normalized path
+        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
+            raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
+        raw_kwargs["path"] = None  # irrelevant in this case
+
+    if extended_kwargs["truncate"]:
+        if (raw_kwargs["fileno"] is not None or raw_kwargs["handle"] is not None) and not (opener and locking):
+            # IMPORTANT: when wrapping an existing stream, we dont NOT truncate it, to respect with the stdlib behaviour
+            extended_kwargs["truncate"] = False
+
     raw_kwargs["permissions"] = permissions
     # print("We get RSFileIO", RSFileIO)
-    raw = RSFileIO(**raw_kwargs)
+    try:
+        raw = RSFileIO(**raw_kwargs)
+    except (ValueError, IsADirectoryError):
+        if opener:
+            os.close(raw_kwargs["fileno"])  # it has not been owned by the raw stream
+        raise
     result = raw
     try:
 
diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 502a42b..a7b56e7 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -38,10 +38,14 @@ class RSFileIOWrapper(RSFileIO):
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
         if opener and raw_kwargs["fileno"] is None:
+            if not closefd:
+                raise BadValueTypeError("can't use closefd=False with an opener")
             flags = get_opener_flags(truncate=extended_kwargs["truncate"], **raw_kwargs)
             extended_kwargs["truncate"] = False  # left to the opener
             raw_kwargs["fileno"] = opener(name, flags)
             raw_kwargs["path"] = None
+            if int(raw_kwargs["fileno"]) < 0:
+                raise BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
         RSFileIO.__init__(self, **raw_kwargs)
         if self.seekable() and extended_kwargs["truncate"]:
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
-- 
2.43.0


From 6eb53fca0ddf6bb25fd8c0d30579289b1872317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:39 +0000
Subject: [PATCH 24/60] fix: close the descriptor when the initialization of a
 stream fails just after opening it

---
 src/rsfile/rsfileio_unix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index a6463a9..04e47ad 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -132,6 +132,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             stats = unix.fstat(self._fileno).st_mode
             if stat.S_ISDIR(stats):
                 unix.close(self._fileno)
+                self._fileno = self._handle = None
                 raise IOError(errno.EISDIR, "RSFile can't open directories", self.name)
 
             # we don't use O_CLOEXEC flag (available since Linux 2.6.23) for compatibility and safety
@@ -158,6 +159,8 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                     self._purge_pending_related_file_descriptors()
                     # we assume that there are chances for this to be the only handle pointing this precise file
                     IntraProcessLockRegistry.try_deleting_unique_id_entry(self._lock_registry_inode)
+            elif getattr(self, "_origin", None) == "path" and self._fileno is not None:
+                unix.close(self._fileno)  # initialization failed just after the opening
 
     @_unix_error_converter
     def _inner_reduce(self, size):
-- 
2.43.0


From 24a3da456389857228cd99ffb0ccd984d01d293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 25/60] fix: bytes released must not stay locked because of
 another attempt of the process still waiting

A lock not yet granted by the system isn't held by anybody, so it must not
prevent the release of the bytes of a (shared) lock overlapping it.
---
 src/rsfile/rsfile_registries.py | 26 +++++++++++++++++++++++---
 src/rsfile/rsfileio_unix.py     | 18 +++++++++++++++++-
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfile_registries.py b/src/rsfile/rsfile_registries.py
index 2206d94..692208f 100644
--- a/src/rsfile/rsfile_registries.py
+++ b/src/rsfile/rsfile_registries.py
@@ -101,7 +101,8 @@ class IntraProcessLockRegistryClass(object):
                     [],
                     [],
                     0,
-                ]  # [condition, locks, data, number of threads waiting]
+                    set(),
+                ]  # [condition, locks, data, number of threads waiting, locks not yet obtained from the system]
             return False
 
     def _try_locking_range(self, unique_id, handle, new_length, new_start, new_shared):
@@ -138,6 +139,7 @@ class IntraProcessLockRegistryClass(object):
         # new_start, new_end)))
         # we register as owner of this lock inside this process
         self._lock_registry[unique_id][1].append((handle, new_shared, new_start, new_end))
+        self._lock_registry[unique_id][4].add((handle, new_start, new_end))
         return True  # no badly overlapping range was found
 
     def _try_unlocking_range(self, unique_id, handle, new_length, new_start):
@@ -160,6 +162,7 @@ class IntraProcessLockRegistryClass(object):
         for index, (other_handle, shared, start, end) in enumerate(locks):
             if other_handle == handle and start == new_start and end == new_end:
                 del locks[index]
+                self._lock_registry[unique_id][4].discard((handle, start, end))
                 # print ("THREAD %s NOTIFYING %s" % ( threading.current_thread().name, unique_id))
                 self._lock_registry[unique_id][0].notify_all()  # we awake potential waiters - ALL of them
                 if not locks:
@@ -202,6 +205,19 @@ class IntraProcessLockRegistryClass(object):
 
             return self._try_unlocking_range(unique_id, handle, length, offset)
 
+    def confirm_file_lock(self, unique_id, handle, length, offset):
+        """
+        To be called when the system has granted a registered lock.
+        """
+        assert unique_id, unique_id
+        with self.mutex:
+
+            self._check_forking()
+
+            if self._ensure_entry_exists(unique_id, create=False):
+                end = (offset + length) if length else None  # None -> infinity
+                self._lock_registry[unique_id][4].discard((handle, offset, end))
+
     def remove_file_locks(self, unique_id, handle):
         assert unique_id, unique_id
         assert handle is not None, handle
@@ -217,6 +233,7 @@ class IntraProcessLockRegistryClass(object):
             for record in self._lock_registry[unique_id][1]:
                 if record[0] == handle:
                     removed_locks.append(record)
+                    self._lock_registry[unique_id][4].discard((handle, record[2], record[3]))
                 else:
                     remaining_locks.append(record)
 
@@ -229,7 +246,8 @@ class IntraProcessLockRegistryClass(object):
 
     def get_unlocked_ranges(self, unique_id, length, offset):
         """
-        Returns the list of (length, offset) parts, of the range provided, on which no handle has locks anymore.
+        Returns the list of (length, offset) parts, of the range provided, on which no handle has locks anymore,
+        except maybe attempts still waiting for the system.
         """
         assert unique_id, unique_id
         with self.mutex:
@@ -239,7 +257,9 @@ class IntraProcessLockRegistryClass(object):
             end = (offset + length) if length else None  # None -> infinity
             records = []
             if self._ensure_entry_exists(unique_id, create=False):
-                records = sorted(self._lock_registry[unique_id][1], key=lambda record: record[2])
+                pending = self._lock_registry[unique_id][4]
+                records = [r for r in self._lock_registry[unique_id][1] if (r[0], r[2], r[3]) not in pending]
+                records.sort(key=lambda record: record[2])
 
             unlocked_ranges = []
             for (_, _, other_start, other_end) in records:
diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index 04e47ad..bcbbdc8 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -301,7 +301,23 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         if length is None:
             length = 0  # that's the "infinity" value for fcntl
 
-        unix.lockf(fd, operation, length, abs_offset, os.SEEK_SET)
+        while True:
+            if blocking:
+                unix.lockf(fd, operation, length, abs_offset, os.SEEK_SET)
+
+            with IntraProcessLockRegistry.mutex:
+                # when waiting, bytes just obtained might already have been released via other handles of the process
+                try:
+                    unix.lockf(fd, operation | unix.LOCK_NB, length, abs_offset, os.SEEK_SET)
+                except unix.error:
+                    if not blocking:
+                        raise
+                    self._inner_file_lock_aborted(length, abs_offset)
+                else:
+                    IntraProcessLockRegistry.confirm_file_lock(
+                        self._lock_registry_inode, self._lock_registry_descriptor, length, abs_offset
+                    )
+                    return
 
     @_unix_error_converter
     def _inner_file_unlock(self, length, abs_offset):
-- 
2.43.0


From 3048aff8dc8834035fa1b9a1d90d7ae45f2ca861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:19 +0000
Subject: [PATCH 26/60] fix: buffered readinto() must not lose data when its
 buffer gets refilled in the middle of the operation

---
 src/rsfile/rsfile_streams.py | 39 ++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index f9b681e..f82e9ff 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -158,6 +158,45 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
     def readable(self):  # drop when py3.5 not supported anymore
         return self.raw.readable()
 
+    def _readinto(self, buf, read1):
+        # the version of _pyio loses data and raises ValueError, when the internal buffer, refilled in the middle of
+        # the operation, contains more data than the space remaining in *buf*
+        self._checkClosed("readinto of closed file")
+
+        buf = memoryview(buf)
+        if buf.nbytes == 0:
+            return 0
+        buf = buf.cast("B")
+
+        written = 0
+        with self._read_lock:
+            while written < len(buf):
+
+                # first try to read from internal buffer
+                avail = min(len(self._read_buf) - self._read_pos, len(buf) - written)
+                if avail:
+                    buf[written : written + avail] = self._read_buf[self._read_pos : self._read_pos + avail]
+                    self._read_pos += avail
+                    written += avail
+                    if written == len(buf):
+                        break
+
+                if len(buf) - written > self.buffer_size:
+                    # read directly into caller's buffer
+                    n = self.raw.readinto(buf[written:])
+                    if not n:
+                        break  # eof
+                    written += n
+                elif not (read1 and written):
+                    # refill internal buffer
+                    if not self._peek_unlocked(1):
+                        break  # eof
+
+                if read1 and written:
+                    break  # return as soon as we have some data
+
+        return written
+
 
 class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
     def writable(self):  # drop when py3.5 not supported anymore
-- 
2.43.0


From 32627400e1d62a6e0b94d1801a0abdb9b147093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 27/60] fix: unlock_file() must work while a text stream is
 being iterated

---
 src/rsfile/rsfile_streams.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index f82e9ff..3d15dc6 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -126,7 +126,10 @@ class _text_forwarder_mixin(object):
         return _flushing_lock_remover(self, self.buffer.lock_file(*args, **kwargs))
 
     def unlock_file(self, *args, **kwargs):
-        self._reset_buffers()
+        if self._telling:
+            self._reset_buffers()
+        else:
+            self.buffer.flush()  # the text position is not available during an iteration
         return self.buffer.unlock_file(*args, **kwargs)
 
     def readinto(self, buffer):  # to please test suite...
-- 
2.43.0


From 169b8ccc5f0537b538c38b11f6ea064b6b390e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 28/60] fix: size(), sync() and lock managers must not enable
 tell() in the middle of the iteration of a text stream

---
 src/rsfile/rsfile_streams.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 3d15dc6..8a623e1 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -113,23 +113,31 @@ class _text_forwarder_mixin(object):
     def times(self):
         return self.buffer.times()
 
+    def _flush_keeping_state(self):
+        # in the middle of an iteration flush() would reenable tell(), whereas the position is not available
+        telling = self._telling
+        try:
+            self.flush()
+        finally:
+            self._telling = telling
+
     def size(self):
-        self.flush()  # security
+        self._flush_keeping_state()  # security
         return self.buffer.size()
 
     def sync(self, *args, **kwargs):
-        self.flush()  # security
+        self._flush_keeping_state()  # security
         return self.buffer.sync(*args, **kwargs)
 
     def lock_file(self, *args, **kwargs):
         self._reset_buffers()
-        return _flushing_lock_remover(self, self.buffer.lock_file(*args, **kwargs))
+        return self.buffer.lock_file(*args, **kwargs)
 
     def unlock_file(self, *args, **kwargs):
         if self._telling:
             self._reset_buffers()
         else:
-            self.buffer.flush()  # the text position is not available during an iteration
+            self._flush_keeping_state()  # the text position is not available during an iteration
         return self.buffer.unlock_file(*args, **kwargs)
 
     def readinto(self, buffer):  # to please test suite...
-- 
2.43.0


From a6de8ff69b75ff9e662b72353036f815eaab1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 29/60] fix: read() of a closed buffered reader must be refused

---
 src/rsfile/rsfile_streams.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 8a623e1..d059edf 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -169,6 +169,10 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
     def readable(self):  # drop when py3.5 not supported anymore
         return self.raw.readable()
 
+    def read(self, size=None):
+        self._checkClosed("read of closed file")  # else data read ahead would still be returned
+        return super(RSBufferedReader, self).read(size)
+
     def _readinto(self, buf, read1):
         # the version of _pyio loses data and raises ValueError, when the internal buffer, refilled in the middle of
         # the operation, contains more data than the space remaining in *buf*
-- 
2.43.0


From 1dd7e4a926a2d6ff7ac447f290a10bf3cbb30ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 30/60] fix: readline() of buffered streams must not return
 more than the size asked

---
 src/rsfile/rsfile_streams.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index d059edf..a6055e5 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -3,6 +3,7 @@
 
 import functools
 import multiprocessing
+import operator
 import os
 import threading
 from contextlib import contextmanager
@@ -173,6 +174,24 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
         self._checkClosed("read of closed file")  # else data read ahead would still be returned
         return super(RSBufferedReader, self).read(size)
 
+    def readline(self, size=-1):
+        # the version of _pyio returns more than *size* bytes, when the line is spread over several chunks of data
+        self._checkClosed("readline of closed file")
+        size = -1 if size is None else operator.index(size)
+        line = bytearray()
+        while size < 0 or len(line) < size:
+            readahead = self.peek(1)
+            n = (readahead.find(b"\n") + 1) or len(readahead) or 1
+            if size >= 0:
+                n = min(n, size - len(line))
+            data = self.read(n)
+            if not data:
+                break
+            line += data
+            if line.endswith(b"\n"):
+                break
+        return bytes(line)
+
     def _readinto(self, buf, read1):
         # the version of _pyio loses data and raises ValueError, when the internal buffer, refilled in the middle of
         # the operation, contains more data than the space remaining in *buf*
-- 
2.43.0


From 368f1e09aadfef7cc9bcbeb1312e7ae983815b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 31/60] fix: append streams erasing the file on opening must
 start at its new end

---
 src/rsfile/rsfile_factories.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 3297f53..5d35c74 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -295,6 +295,8 @@ def rsopen(
             if extended_kwargs["truncate"]:
                 # NOW that we've potentially locked the file, we NOW may truncate
                 raw.truncate(0)
+                if raw_kwargs["append"]:
+                    raw.seek(0, os.SEEK_END)  # the initial position was beyond the new end of file
 
         if buffering is None:
             buffering = -1
-- 
2.43.0


From e028b78c3c434e91f9bf72191fd08c3c345f39d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 32/60] fix: a refused seek() must not corrupt the state of
 buffered read/write streams

---
 src/rsfile/rsfile_streams.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index a6055e5..ddcd3a1 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -244,6 +244,16 @@ class RSBufferedWriter(_buffer_forwarder_mixin, defs.io_module.BufferedWriter):
 class RSBufferedRandom(defs.io_module.BufferedRandom, RSBufferedWriter, RSBufferedReader):
     truncate = _buffer_forwarder_mixin.truncate
 
+    def seek(self, pos, whence=os.SEEK_SET):
+        # the version of _pyio moves back the raw stream, but still keeps the data read ahead when the seek then fails
+        self._checkClosed("seek of closed file")
+        self.flush()
+        with self._read_lock:
+            if self._read_buf:
+                self.raw.seek(self._read_pos - len(self._read_buf), os.SEEK_CUR)
+                self._reset_read_buf()
+        return super(RSBufferedRandom, self).seek(pos, whence)
+
 
 class RSTextIOWrapper(_text_forwarder_mixin, defs.io_module.TextIOWrapper):
     pass
-- 
2.43.0


From 1726513219b7611608b67c0af793df7d61263773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 33/60] fix: readinto() must refuse read-only buffers before
 consuming data

---
 src/rsfile/rsfileio_abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 802b55a..31d0c7f 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -399,6 +399,8 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
         if USE_MEMORYVIEW_CAST:
             buffer = memoryview(buffer).cast("B")
+            if buffer.readonly:
+                raise defs.BadValueTypeError("readinto() argument must be a read-write bytes-like object")  # before data gets consumed
 
         mybytes = self._inner_read(len(buffer))
         assert mybytes is None or isinstance(mybytes, bytes), type(mybytes)
-- 
2.43.0


From 3ee08d38d7535d669142a2569c14907de5992dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 34/60] fix: close the descriptor of the opener when its
 identification fails

---
 src/rsfile/rsfile_factories.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 5d35c74..ccce274 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -277,10 +277,11 @@ def rsopen(
 
     raw_kwargs["permissions"] = permissions
     # print("We get RSFileIO", RSFileIO)
+    raw = RSFileIO.__new__(RSFileIO)
     try:
-        raw = RSFileIO(**raw_kwargs)
-    except (ValueError, IsADirectoryError):
-        if opener:
+        raw.__init__(**raw_kwargs)
+    except BaseException as exc:
+        if opener and (isinstance(exc, (ValueError, IsADirectoryError)) or not hasattr(raw, "_lock_registry_descriptor")):
             os.close(raw_kwargs["fileno"])  # it has not been owned by the raw stream
         raise
     result = raw
-- 
2.43.0


From 8a1274320d6e85b292516acf59821497fa8d3f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 35/60] fix: write_to_file() must erase what others wrote in
 the file it created before it got locked

---
 src/rsfile/rsfile_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index a7b56e7..a593111 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -196,6 +196,8 @@ def write_to_file(
         thread_safe=False,
     ) as myfile:
 
+        if must_create:
+            myfile.truncate(0)  # the file might have been filled by others between its creation and its locking
         _write_all(myfile, data)
         myfile.flush()
         if sync:
-- 
2.43.0


From be7525db4a52e9d12b62adb78daef3960fd2c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 36/60] fix: readinto() on a non-blocking stream without data
 must not look like an end of file

---
 src/rsfile/rsfile_streams.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index ddcd3a1..a8f348d 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -218,13 +218,19 @@ class RSBufferedReader(_buffer_forwarder_mixin, defs.io_module.BufferedReader):
                 if len(buf) - written > self.buffer_size:
                     # read directly into caller's buffer
                     n = self.raw.readinto(buf[written:])
+                    if n is None and not written:
+                        return None  # would block, this is not an eof
                     if not n:
                         break  # eof
                     written += n
                 elif not (read1 and written):
                     # refill internal buffer
-                    if not self._peek_unlocked(1):
+                    data = self.raw.read(self.buffer_size)
+                    if data is None and not written:
+                        return None  # would block, this is not an eof
+                    if not data:
                         break  # eof
+                    self._read_buf, self._read_pos = data, 0
 
                 if read1 and written:
                     break  # return as soon as we have some data
-- 
2.43.0


From 73e85d676c17335d57be3d1676241cb11e9972eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 37/60] fix: the replacements of open() and FileIO take the
 arguments of the builtins (file=, positions, booleans)

---
 src/rsfile/rsfile_utilities.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index a593111..4ffbe2b 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -14,8 +14,20 @@ def BUILTIN_OPEN_FUNC_REPLACEMENT(*args, **kwargs):
     tolerant mode for str/unicode mixes in python2.
     """
     params = dict(handle=None, locking=False, timeout=0, thread_safe=False, mutex=None, permissions=0o777)
+    # positional arguments are those of the builtin, which are not all those of rsopen()
+    positional = ("name", "mode", "buffering", "encoding", "errors", "newline", "closefd", "opener")
+    if len(args) > len(positional):
+        raise TypeError("open() takes at most %d positional arguments (%d given)" % (len(positional), len(args)))
+    if "file" in kwargs:
+        kwargs["name"] = kwargs.pop("file")
+    for (key, value) in zip(positional, args):
+        if key in kwargs:
+            raise TypeError("open() got multiple values for argument %r" % key)
+        kwargs[key] = value
+    if isinstance(kwargs.get("buffering"), bool):
+        kwargs["buffering"] = int(kwargs["buffering"])
     params.update(kwargs)
-    stream = rsopen(*args, **params)
+    stream = rsopen(**params)
     return stream
 
 
@@ -30,7 +42,9 @@ class RSFileIOWrapper(RSFileIO):
     Interface to rsFile accepting the limited "fopen()" modes (no file locking, no O_EXCL|O_CREAT semantic...)
     """
 
-    def __init__(self, name, mode="r", closefd=True, opener=None):
+    def __init__(self, file, mode="r", closefd=True, opener=None):
+
+        name = file
 
         if USE_FSPATH and not isinstance(name, int):
             name = os.fspath(name)
-- 
2.43.0


From 177fde1781a015833d44f865496659fb1e5f9f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 38/60] fix: files created through the replacements of open()
 and FileIO must not be executable

---
 src/rsfile/rsfile_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 4ffbe2b..5036fc4 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -13,7 +13,7 @@ def BUILTIN_OPEN_FUNC_REPLACEMENT(*args, **kwargs):
     with rectified default arguments, and
     tolerant mode for str/unicode mixes in python2.
     """
-    params = dict(handle=None, locking=False, timeout=0, thread_safe=False, mutex=None, permissions=0o777)
+    params = dict(handle=None, locking=False, timeout=0, thread_safe=False, mutex=None, permissions=0o666)
     # positional arguments are those of the builtin, which are not all those of rsopen()
     positional = ("name", "mode", "buffering", "encoding", "errors", "newline", "closefd", "opener")
     if len(args) > len(positional):
@@ -60,7 +60,7 @@ class RSFileIOWrapper(RSFileIO):
             raw_kwargs["path"] = None
             if int(raw_kwargs["fileno"]) < 0:
                 raise BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
-        RSFileIO.__init__(self, **raw_kwargs)
+        RSFileIO.__init__(self, permissions=0o666, **raw_kwargs)
         if self.seekable() and extended_kwargs["truncate"]:
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
 
-- 
2.43.0


From 9a4ea98ce537376d3bb7f8c5fab677321884cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 39/60] fix: wrapping a descriptor in a FileIO replacement must
 not truncate its file

---
 src/rsfile/rsfile_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 5036fc4..727c9ee 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -61,7 +61,7 @@ class RSFileIOWrapper(RSFileIO):
             if int(raw_kwargs["fileno"]) < 0:
                 raise BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
         RSFileIO.__init__(self, permissions=0o666, **raw_kwargs)
-        if self.seekable() and extended_kwargs["truncate"]:
+        if self.seekable() and extended_kwargs["truncate"] and self.origin == "path":
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
 
 
-- 
2.43.0


From 70872edf69a4824e1dd186609dff5cb6e8f525c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 40/60] fix: devices like /dev/null are seekable, and can be
 opened in "w+" mode

---
 src/rsfile/rsfile_factories.py  |  2 +-
 src/rsfile/rsfile_utilities.py  |  2 +-
 src/rsfile/rsfileio_abstract.py | 20 +++++++++++++++-----
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index ccce274..d6d730a 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -287,7 +287,7 @@ def rsopen(
     result = raw
     try:
 
-        if raw.seekable():  # thus we skip PIPES silently...
+        if raw._is_regular:  # thus we skip PIPES silently...
 
             if locking:
                 # print "we enforce file locking with %s - %s" %(shared, timeout)
diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 727c9ee..4aa6c13 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -61,7 +61,7 @@ class RSFileIOWrapper(RSFileIO):
             if int(raw_kwargs["fileno"]) < 0:
                 raise BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
         RSFileIO.__init__(self, permissions=0o666, **raw_kwargs)
-        if self.seekable() and extended_kwargs["truncate"] and self.origin == "path":
+        if self._is_regular and extended_kwargs["truncate"] and self.origin == "path":
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
 
 
diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index 31d0c7f..c6a8f20 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -174,10 +174,15 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
                     self._closefd = False  # disown file descriptor
                     raise IOError(errno.EISDIR, "Can't wrap a directory in FileIO")
                 is_regular = stat.S_ISREG(st_mode)
-                seekable = is_regular
+                if not is_regular:
+                    try:
+                        os.lseek(self._fileno, 0, os.SEEK_CUR)  # works on some devices
+                    except OSError:
+                        seekable = False
             else:
-                pass  # if we only have a handle, we're on windows, so no such pipe
+                is_regular = True  # if we only have a handle, we're on windows, so no such pipe
             self._seekable = seekable
+            self._is_regular = is_regular
 
             # These two keys, set by _inner_create_streams(), are used to
             # identify the file and handle in the intraprocess lock registry
@@ -254,6 +259,11 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         self._checkClosed()
         return self._seekable
 
+    def _checkRegular(self):
+        self._checkSeekable()  # already checks if closed
+        if not self._is_regular:
+            raise defs.io_module.UnsupportedOperation("File or stream is not a regular file.")
+
     def readable(self):
         self._checkClosed()
         return self._readable
@@ -459,7 +469,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         See RSOpen() doc.
         """
 
-        self._checkSeekable()  # handles PIPES, already checks if closed
+        self._checkRegular()  # handles PIPES, already checks if closed
         self._checkWritable()  # Important !
 
         if size is None:
@@ -536,7 +546,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
     def lock_file(self, timeout=None, length=None, offset=None, whence=os.SEEK_SET, shared=None):
 
-        self._checkSeekable()  # pipes and such can't be locked... already checks if closed
+        self._checkRegular()  # pipes and such can't be locked... already checks if closed
 
         if timeout is not None and (not isinstance(timeout, (int, float)) or timeout < 0):
             raise defs.BadValueTypeError("timeout must be None or positive float.")
@@ -647,7 +657,7 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
 
     def unlock_file(self, length=None, offset=0, whence=os.SEEK_SET):
 
-        self._checkSeekable()  # pipes and such can't be locked... already checks if closed
+        self._checkRegular()  # pipes and such can't be locked... already checks if closed
 
         if length is not None and (not isinstance(length, int) or length < 0):
             raise defs.BadValueTypeError("length must be None or positive integer.")
-- 
2.43.0


From 50c9063602f6a3b466a870108b7a8e9331012871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 41/60] fix: the filename of errors raised by open is the path
 given, not its bytes

---
 src/rsfile/rsfileio_unix.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/rsfile/rsfileio_unix.py b/src/rsfile/rsfileio_unix.py
index bcbbdc8..ce8158b 100644
--- a/src/rsfile/rsfileio_unix.py
+++ b/src/rsfile/rsfileio_unix.py
@@ -98,11 +98,6 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
 
         else:  # we open the file with low level posix IO - the unix "open()"  function
 
-            if isinstance(path, str):
-                strname = os.fsencode(path)  # let's take no risks - and do not use locale.getpreferredencoding() here
-            else:
-                strname = path
-
             flags = 0  # Note that unix.O_LARGEFILE is actually irrelevant
 
             if synchronized:
@@ -126,7 +121,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
                 flags |= unix.O_CREAT  # by default - we create the file iff it doesn't exists
 
             # print("Creating unix stream with context", locals())
-            self._fileno = self._handle = unix.open(strname, flags, permissions)
+            self._fileno = self._handle = unix.open(path, flags, permissions)
 
             # on unix we must prevent the opening of directories, but not named fifos or other special files
             stats = unix.fstat(self._fileno).st_mode
-- 
2.43.0


From 95bc620cf9953e5b4ab301f1e3705ce0cdb640de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 42/60] fix: streams of an opener are named after their path,
 and refused openers leak no descriptor

---
 src/rsfile/rsfile_factories.py |  9 ++++++++-
 src/rsfile/rsfile_utilities.py | 16 +++++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index d6d730a..84d0ccc 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -256,6 +256,9 @@ def rsopen(
             2,
         )
 
+    if opener and isinstance(name, int):
+        opener = None  # unused, like in the stdlib
+
     if opener:
         if raw_kwargs["fileno"] is not None:
             raise defs.BadValueTypeError("can't provide both fileno and opener")
@@ -266,7 +269,9 @@ def rsopen(
         raw_kwargs["fileno"] = opener(
             name, flags
         )  # we give it the original "name" as parameter, not the normalized path
-        if int(raw_kwargs["fileno"]) < 0:  # easrly catch, just to please the test suite...
+        if not isinstance(raw_kwargs["fileno"], int):
+            raise defs.BadValueTypeError("expected integer from opener")
+        if raw_kwargs["fileno"] < 0:  # easrly catch, just to please the test suite...
             raise defs.BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
         raw_kwargs["path"] = None  # irrelevant in this case
 
@@ -284,6 +289,8 @@ def rsopen(
         if opener and (isinstance(exc, (ValueError, IsADirectoryError)) or not hasattr(raw, "_lock_registry_descriptor")):
             os.close(raw_kwargs["fileno"])  # it has not been owned by the raw stream
         raise
+    if opener:
+        raw.name = name  # like in the stdlib
     result = raw
     try:
 
diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 4aa6c13..1394166 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -51,16 +51,26 @@ class RSFileIOWrapper(RSFileIO):
         (raw_kwargs, extended_kwargs) = parse_standard_args(name, mode, None, None, closefd)
         if extended_kwargs["text"]:
             raise BadValueTypeError("Raw stream can't be created in text mode")
-        if opener and raw_kwargs["fileno"] is None:
+        opened = opener and raw_kwargs["fileno"] is None
+        if opened:
             if not closefd:
                 raise BadValueTypeError("can't use closefd=False with an opener")
             flags = get_opener_flags(truncate=extended_kwargs["truncate"], **raw_kwargs)
             extended_kwargs["truncate"] = False  # left to the opener
             raw_kwargs["fileno"] = opener(name, flags)
             raw_kwargs["path"] = None
-            if int(raw_kwargs["fileno"]) < 0:
+            if not isinstance(raw_kwargs["fileno"], int):
+                raise BadValueTypeError("expected integer from opener")
+            if raw_kwargs["fileno"] < 0:
                 raise BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
-        RSFileIO.__init__(self, permissions=0o666, **raw_kwargs)
+        try:
+            RSFileIO.__init__(self, permissions=0o666, **raw_kwargs)
+        except BaseException as exc:
+            if opened and (isinstance(exc, (ValueError, IsADirectoryError)) or not hasattr(self, "_lock_registry_descriptor")):
+                os.close(raw_kwargs["fileno"])  # it has not been owned by the raw stream
+            raise
+        if opened:
+            self.name = name
         if self._is_regular and extended_kwargs["truncate"] and self.origin == "path":
             self.truncate(0)  # this mimicks basic rawFileIO, without file locking
 
-- 
2.43.0


From 82603e274c3b2427c044e31506d753f111d9eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 43/60] fix: unlocking a text stream after next() and flush()
 no longer fails or forgets the position

---
 src/rsfile/rsfile_streams.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index a8f348d..5b427dc 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -99,7 +99,26 @@ class _buffer_forwarder_mixin(object):
 
 
 class _text_forwarder_mixin(object):
+
+    _position_lost = False
+
+    def _read_chunk(self):
+        # a chunk read during an iteration leaves nothing to compute positions from, even if flush() then reenables tell()
+        self._position_lost = not self._telling
+        return super(_text_forwarder_mixin, self)._read_chunk()
+
+    def seek(self, *args, **kwargs):
+        res = super(_text_forwarder_mixin, self).seek(*args, **kwargs)
+        self._position_lost = False
+        return res
+
+    def _position_available(self):
+        return self._telling and not (self._position_lost and self._decoded_chars)
+
     def _reset_buffers(self):
+        self._checkClosed()
+        if self._position_lost and self._decoded_chars:
+            raise IOError("telling position disabled by next() call")
         self.seek(0, os.SEEK_CUR)  # we flush i/o buffers, didn't work on py26
 
     def truncate(self, size=None, zero_fill=True):
@@ -135,7 +154,7 @@ class _text_forwarder_mixin(object):
         return self.buffer.lock_file(*args, **kwargs)
 
     def unlock_file(self, *args, **kwargs):
-        if self._telling:
+        if self._position_available():
             self._reset_buffers()
         else:
             self._flush_keeping_state()  # the text position is not available during an iteration
-- 
2.43.0


From fdce1da2e10d3f1f2859a553baa573801291b10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 44/60] fix: thread-safe streams dropped without close() are
 finalized at once, and keep their buffered data

---
 src/rsfile/rsfile_streams.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_streams.py b/src/rsfile/rsfile_streams.py
index 5b427dc..378ceba 100644
--- a/src/rsfile/rsfile_streams.py
+++ b/src/rsfile/rsfile_streams.py
@@ -310,12 +310,17 @@ class RSThreadSafeWrapper(object):
 
     def __getattr__(self, name):
 
-        attr = getattr(self.wrapped_stream, name)  # might raise AttributeError
+        wrapped_stream = self.wrapped_stream
+        mutex = self.mutex
+        attr = getattr(wrapped_stream, name)  # might raise AttributeError
 
         if not name.startswith("_") and callable(attr):
             # print ("<<<<<<< WRAPPING METHOD", name)
+            # BEWARE - this proxy must not reference self: such a cycle would delay the closing of unreferenced streams,
+            # and let the garbage collector finalize the raw stream before the buffers get flushed
             def _method_proxy(*args, **kwargs):
-                return self._secure_call(name, *args, **kwargs)
+                with mutex:
+                    return getattr(wrapped_stream, name)(*args, **kwargs)
             # IMPORTANT : cache the thread-safe caller in object, so that we bypass this __getattr__ next time
             setattr(self, name, _method_proxy)
             return _method_proxy
-- 
2.43.0


From ec4f4a9abf78759cef59e2592bed171536a06ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 45/60] fix: joining dwords given as signed integers results in
 the proper unsigned integer

---
 src/rsfile/rsbackend/_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsbackend/_utilities.py b/src/rsfile/rsbackend/_utilities.py
index 581519b..216a2f6 100644
--- a/src/rsfile/rsbackend/_utilities.py
+++ b/src/rsfile/rsbackend/_utilities.py
@@ -31,7 +31,8 @@ def pyint_to_double_dwords(mylong, dwordsize=32):
 def double_dwords_to_pyint(loworder, highorder, dwordsize=32):  # the arguments can be negative or positive integers !
     "Convert a low-order dword, high-order dword) tuple into an unsigned long integer."
 
-    return (highorder << dwordsize) + loworder
+    mask = 2**dwordsize - 1
+    return ((highorder & mask) << dwordsize) + (loworder & mask)
 
 
 def win32_filetime_to_python_timestamp(loworder, highorder):
-- 
2.43.0


From 35ba4645995b73d2e333cd9ccf91195132edb286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 46/60] fix: conversions of timestamps to win32 filetimes lose
 no precision

---
 src/rsfile/rsbackend/_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsbackend/_utilities.py b/src/rsfile/rsbackend/_utilities.py
index 216a2f6..023a436 100644
--- a/src/rsfile/rsbackend/_utilities.py
+++ b/src/rsfile/rsbackend/_utilities.py
@@ -47,7 +47,7 @@ def win32_filetime_to_python_timestamp(loworder, highorder):
 
 
 def python_timestamp_to_win32_filetime(pytimestamp):
-    win32_timestamp = int((10000000 * pytimestamp) + 116444736000000000)
+    win32_timestamp = int(10000000 * pytimestamp) + 116444736000000000  # integer addition, to preserve precision
 
     (loworder, highorder) = pyint_to_double_dwords(win32_timestamp)
 
-- 
2.43.0


From 45a2eb248155e32b18e794390b66088985099868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 47/60] fix: writable streams no longer leak a C file
 descriptor on windows

---
 src/rsfile/rsfileio_windows.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 1748d62..e4b5335 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -178,11 +178,12 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         self._use_nonblocking_pipe_write_hack = False
         #print(">>> Detecting _use_nonblocking_pipe_write_hack!", write, BLOCKING_MODES_ENABLED)
         if write and BLOCKING_MODES_ENABLED:
-            _fileno = win32._open_osfhandle(self._handle, (int(append) and os.O_APPEND))
+            if self._fileno is None:
+                # we keep this C file descriptor, since it can only be released along with the handle
+                self._fileno = win32._open_osfhandle(self._handle, (int(append) and os.O_APPEND))
             try:
-                if not os.get_blocking(_fileno):
+                if not os.get_blocking(self._fileno):
                     #print(">>> We want to use _use_nonblocking_pipe_write_hack!")
-                    self._fileno = _fileno
                     self._use_nonblocking_pipe_write_hack = True
             except OSError:
                 pass  # probably not a PIPE
-- 
2.43.0


From 28f4c359b90781047a68966e8f1fed74506f6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 48/60] fix: locking from an offset up to the end of the file
 is no longer refused by windows

---
 src/rsfile/rsfileio_windows.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index e4b5335..d0d6668 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -430,9 +430,8 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             abs_offset = 0
 
         if not length:  # 0 or None
-            (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = (utilities.MAX_DWORD, utilities.MAX_DWORD)
-        else:
-            (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = utilities.pyint_to_double_dwords(length)
+            length = 2 ** 64 - 1 - abs_offset  # the end of the range must not wrap around, else ERROR_INVALID_LOCK_RANGE
+        (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = utilities.pyint_to_double_dwords(length)
 
         overlapped = win32.OVERLAPPED()  # contains ['Internal', 'InternalHigh', 'Offset', 'OffsetHigh', 'dword',
         # 'hEvent', 'object']
-- 
2.43.0


From 289c0c5c51bcc358ff5af4737ba7fbba8423b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 49/60] fix: times() and unique_id() no longer leak a C file
 descriptor with pywin32

---
 src/rsfile/rsbackend/windows_pywin32.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsbackend/windows_pywin32.py b/src/rsfile/rsbackend/windows_pywin32.py
index 3e62d6f..84fc68e 100644
--- a/src/rsfile/rsbackend/windows_pywin32.py
+++ b/src/rsfile/rsbackend/windows_pywin32.py
@@ -87,7 +87,14 @@ def GetFileInformationByHandle(handle):
     ##print(">>>>>>", info.__dict__)
 
     # to workaround bugs, we don't deal with "PyTime" objects, we fallback to stdlib...
-    mystat = os.fstat(_open_osfhandle(handle, 0))
+    # (on a duplicate of the handle, so that the C file descriptor can be released)
+    process = win32api.GetCurrentProcess()
+    duplicate = win32api.DuplicateHandle(process, handle, process, 0, False, win32con.DUPLICATE_SAME_ACCESS)
+    fileno = _open_osfhandle(duplicate.Detach(), 0)
+    try:
+        mystat = os.fstat(fileno)
+    finally:
+        os.close(fileno)
     info.ftCreationTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_ctime))
     info.ftLastAccessTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_atime))
     info.ftLastWriteTime = FILETIME(*_utilities.python_timestamp_to_win32_filetime(mystat.st_mtime))
-- 
2.43.0


From ac601aff4d6dfb2efd217d870d194a4278d9a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 50/60] fix: unique_id() works on volumes with a big serial
 number, with pywin32

---
 src/rsfile/rsfileio_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index d0d6668..4acfa4a 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -264,7 +264,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         """
 
         handle_info = win32.GetFileInformationByHandle(self._handle)
-        device = handle_info.dwVolumeSerialNumber
+        device = utilities.signed_to_unsigned(handle_info.dwVolumeSerialNumber)  # pywin32 returns signed dwords
         inode = utilities.double_dwords_to_pyint(handle_info.nFileIndexLow, handle_info.nFileIndexHigh)
 
         if device <= 0 or inode <= 0:
-- 
2.43.0


From 3edad6deed70ba3d5232e4ad3955fa80fb86b15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:14 +0000
Subject: [PATCH 51/60] fix: writing an empty buffer to a raw stream returns 0
 on windows too

---
 src/rsfile/rsfileio_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 4acfa4a..f3577d1 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -415,7 +415,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         # Nothing special for to do with errCode, for files, it seems
         # see https://learn.microsoft.com/en-us/windows/win32/api/fileapi/nf-fileapi-writefile
         #print(">> WIN32 WRITE RETURNED", errCode, bytes_written)
-        if not bytes_written:
+        if buffer and not bytes_written:
             #print(">> WIN32 WRITE FALLBACK TO NONE")
             return None  # We mimick effects of EAGAIN on Unix
 
-- 
2.43.0


From d8d53d49265680cc5bc9ec299534c15d67379cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 52/60] fix: seeking with a wrong whence or a too big offset is
 properly refused on windows

---
 src/rsfile/rsbackend/windows_ctypes.py | 3 +++
 src/rsfile/rsfileio_windows.py         | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/rsfile/rsbackend/windows_ctypes.py b/src/rsfile/rsbackend/windows_ctypes.py
index 04f0063..19cfb6c 100644
--- a/src/rsfile/rsbackend/windows_ctypes.py
+++ b/src/rsfile/rsbackend/windows_ctypes.py
@@ -146,6 +146,9 @@ def GetFileSize(handle):
 
 def SetFilePointer(handle, offset, moveMethod):  # we match the naming of pywin32
 
+    if not -(2 ** 63) <= offset < 2 ** 63:
+        raise OverflowError("offset too big to fit in a LARGE_INTEGER")  # else ctypes would truncate it silently
+
     newPos = wintypes.LARGE_INTEGER(5)
 
     res = win32api.SetFilePointerEx(handle, offset, ctypes.byref(newPos), moveMethod)
diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index f3577d1..0e409c3 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -349,6 +349,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         if not isinstance(offset, int):
             raise defs.BadValueTypeError("Offset should be an integer in seek(), not %s object" % type(offset))
 
+        if whence not in defs.SEEK_VALUES:
+            raise defs.BadValueTypeError("whence must be a valid SEEK_* value")
+
         reference = self.__POSITION_REFERENCES[whence]
         new_offset = win32.SetFilePointer(self._handle, offset, reference)
         return new_offset
-- 
2.43.0


From e2348ee5e04330715122653472f72f605add7f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 53/60] fix: locking ranges too big for windows are refused,
 instead of locking other bytes

---
 src/rsfile/rsfileio_windows.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 0e409c3..81995fd 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -432,6 +432,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         if abs_offset is None:
             abs_offset = 0
 
+        if abs_offset + (length or 1) >= 2 ** 64:
+            raise OverflowError("file range too big to fit in double dwords")
+
         if not length:  # 0 or None
             length = 2 ** 64 - 1 - abs_offset  # the end of the range must not wrap around, else ERROR_INVALID_LOCK_RANGE
         (nNumberOfBytesToLockLow, nNumberOfBytesToLockHigh) = utilities.pyint_to_double_dwords(length)
-- 
2.43.0


From d7047e33a0172400cc92c0fbc11dc9d2f4541f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 54/60] fix: empty writes neither move the file pointer nor
 extend the file on windows

---
 src/rsfile/rsfileio_windows.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 81995fd..81917b7 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -394,6 +394,9 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
 
         #print(">> WIN32 WRITING BYTES", len(buffer))
 
+        if not buffer:
+            return 0  # an empty write neither moves the file pointer nor extends the file
+
         if self._append:  # yep, no atomicity around here, as in truncate(), since FILE_APPEND_DATA can't be used
             self._inner_seek(0, defs.SEEK_END)
 
@@ -418,7 +421,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
         # Nothing special for to do with errCode, for files, it seems
         # see https://learn.microsoft.com/en-us/windows/win32/api/fileapi/nf-fileapi-writefile
         #print(">> WIN32 WRITE RETURNED", errCode, bytes_written)
-        if buffer and not bytes_written:
+        if not bytes_written:
             #print(">> WIN32 WRITE FALLBACK TO NONE")
             return None  # We mimick effects of EAGAIN on Unix
 
-- 
2.43.0


From 031c395eed6ca6815a34e83c35959432a0c3573f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:24 +0000
Subject: [PATCH 55/60] fix: locking timeouts no longer depend on changes of
 the system clock

---
 src/rsfile/rsfileio_abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_abstract.py b/src/rsfile/rsfileio_abstract.py
index c6a8f20..d258939 100644
--- a/src/rsfile/rsfileio_abstract.py
+++ b/src/rsfile/rsfileio_abstract.py
@@ -577,14 +577,14 @@ class RSFileIOAbstract(defs.io_module.RawIOBase):
         # we enforce spin-locking if a global timeout exists
         low_level_blocking = blocking if (self.enforced_locking_timeout_value is None) else False
 
-        start_time = time.time()
+        start_time = time.monotonic()
 
         def check_timeout(env_error):
             """
             If timeout has expired, raises the exception given as parameter.
             Else, sleeps for a short period.
             """
-            delay = time.time() - start_time
+            delay = time.monotonic() - start_time
             if not blocking:  # we have a timeout set
 
                 if delay >= timeout:  # else, we try again until success or timeout
-- 
2.43.0


From 962a419afd99b39af2a28931d9bb9f6082002b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 56/60] fix: descriptor of a refused open stays open until its
 exception is garbage collected

---
 src/rsfile/rsfile_factories.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index 84d0ccc..d526c7b 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -285,9 +285,13 @@ def rsopen(
     raw = RSFileIO.__new__(RSFileIO)
     try:
         raw.__init__(**raw_kwargs)
-    except BaseException as exc:
-        if opener and (isinstance(exc, (ValueError, IsADirectoryError)) or not hasattr(raw, "_lock_registry_descriptor")):
-            os.close(raw_kwargs["fileno"])  # it has not been owned by the raw stream
+    except BaseException:
+        if raw_kwargs["path"] is not None:
+            raw.close()  # like in the stdlib, we don't wait for the exception to be garbage collected
+        else:
+            raw._closefd = False  # like in the stdlib, the descriptor has not been taken over
+            if opener:
+                os.close(raw_kwargs["fileno"])
         raise
     if opener:
         raw.name = name  # like in the stdlib
-- 
2.43.0


From a776f09be2e10620bf6fa5cbd6e351a69e6b8c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:33 +0000
Subject: [PATCH 57/60] fix: initial position of append streams ignores what
 others appended while the lock was awaited

---
 src/rsfile/rsfile_factories.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfile_factories.py b/src/rsfile/rsfile_factories.py
index d526c7b..f218e9c 100644
--- a/src/rsfile/rsfile_factories.py
+++ b/src/rsfile/rsfile_factories.py
@@ -307,8 +307,9 @@ def rsopen(
             if extended_kwargs["truncate"]:
                 # NOW that we've potentially locked the file, we NOW may truncate
                 raw.truncate(0)
-                if raw_kwargs["append"]:
-                    raw.seek(0, os.SEEK_END)  # the initial position was beyond the new end of file
+
+            if raw_kwargs["append"]:
+                raw.seek(0, os.SEEK_END)  # the file may have been modified since the initial positioning
 
         if buffering is None:
             buffering = -1
-- 
2.43.0


From e580b61878e1976d56f008b2c270722f39632208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:16 +0000
Subject: [PATCH 58/60] fix: descriptor of a refused io.FileIO replacement
 stays open until its exception is garbage collected

---
 src/rsfile/rsfile_utilities.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/rsfile/rsfile_utilities.py b/src/rsfile/rsfile_utilities.py
index 1394166..a5b745a 100644
--- a/src/rsfile/rsfile_utilities.py
+++ b/src/rsfile/rsfile_utilities.py
@@ -65,14 +65,18 @@ class RSFileIOWrapper(RSFileIO):
                 raise BadValueTypeError("opener returned %s" % raw_kwargs["fileno"])
         try:
             RSFileIO.__init__(self, permissions=0o666, **raw_kwargs)
-        except BaseException as exc:
-            if opened and (isinstance(exc, (ValueError, IsADirectoryError)) or not hasattr(self, "_lock_registry_descriptor")):
-                os.close(raw_kwargs["fileno"])  # it has not been owned by the raw stream
+            if opened:
+                self.name = name
+            if self._is_regular and extended_kwargs["truncate"] and self.origin == "path":
+                self.truncate(0)  # this mimicks basic rawFileIO, without file locking
+        except BaseException:
+            if raw_kwargs["path"] is not None:
+                RSFileIO.close(self)  # like in the stdlib, we don't wait for the exception to be garbage collected
+            else:
+                self._closefd = False  # like in the stdlib, the descriptor has not been taken over
+                if opened:
+                    os.close(raw_kwargs["fileno"])
             raise
-        if opened:
-            self.name = name
-        if self._is_regular and extended_kwargs["truncate"] and self.origin == "path":
-            self.truncate(0)  # this mimicks basic rawFileIO, without file locking
 
 
 def monkey_patch_io_module(module=None):
-- 
2.43.0


From 941ec4dae87cb33d79fffab87d293971d1d19dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 59/60] fix: accept the C descriptor 0 in the Windows backend

---
 src/rsfile/rsfileio_windows.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rsfile/rsfileio_windows.py b/src/rsfile/rsfileio_windows.py
index 81917b7..3d08d05 100644
--- a/src/rsfile/rsfileio_windows.py
+++ b/src/rsfile/rsfileio_windows.py
@@ -299,7 +299,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # NEVER use flag os.O_TEXT, we're in raw IO here !
             self._fileno = win32._open_osfhandle(self._handle, flags)
 
-        assert self._fileno
+        assert self._fileno is not None
         return self._fileno
 
     def _inner_handle(self):
@@ -409,7 +409,7 @@ class RSFileIO(rsfileio_abstract.RSFileIOAbstract):
             # Non-blocking pipes have horrendous behaviour on Windows
             # See https://github.com/python/cpython/issues/101881
             # So we rely on CPython hacks to force-write data into pipe
-            assert self._fileno, self._fileno
+            assert self._fileno is not None
             try:
                 bytes_written = os.write(self._fileno, buffer)
             except BlockingIOError:
-- 
2.43.0


From 71e115d7ca5090e70e07d608f858ee8cbb9edadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 60/60] fix: don't leak the duplicated handle when it can't be
 attached to a C descriptor (pywin32)

---
 src/rsfile/rsbackend/windows_pywin32.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rsfile/rsbackend/windows_pywin32.py b/src/rsfile/rsbackend/windows_pywin32.py
index 84fc68e..c4b9a83 100644
--- a/src/rsfile/rsbackend/windows_pywin32.py
+++ b/src/rsfile/rsbackend/windows_pywin32.py
@@ -90,7 +90,8 @@ def GetFileInformationByHandle(handle):
     # (on a duplicate of the handle, so that the C file descriptor can be released)
     process = win32api.GetCurrentProcess()
     duplicate = win32api.DuplicateHandle(process, handle, process, 0, False, win32con.DUPLICATE_SAME_ACCESS)
-    fileno = _open_osfhandle(duplicate.Detach(), 0)
+    fileno = _open_osfhandle(int(duplicate), 0)
+    duplicate.Detach()
     try:
         mystat = os.fstat(fileno)
     finally:
-- 
2.43.0

