From cb8c1d09343006a56e623a5a81d2037d3e636f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:03:00 +0000
Subject: [PATCH 01/43] fix: count whole clock units with integer arithmetic

The elapsed nanoseconds were divided as floats, so readings of fine units
were rounded to multiples of 16 ns and could be one whole unit ahead of
the actual time.
---
 aiootp/asynchs/clocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/asynchs/clocks.py b/aiootp/asynchs/clocks.py
index f6fd9a9..90520fe 100644
--- a/aiootp/asynchs/clocks.py
+++ b/aiootp/asynchs/clocks.py
@@ -66,7 +66,7 @@ class TimeUnit:
         supplied `epoch`. The `epoch` is always measured in nanoseconds
         since the UNIX epoch of 0.
         """
-        return int((time_ns() - epoch) / unit.as_ns)
+        return int((time_ns() - epoch) // unit.as_ns)
 
 
 class Nanoseconds(TimeUnit):
-- 
2.43.0


From 35c4fda94417f237172ba9018e5eb5eb1d081f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:15 +0000
Subject: [PATCH 02/43] fix: refuse malformed canonical encodings with their
 own error

A truncated size field was read as a smaller number, so an encoding cut
inside its last size field still unpacked. A block size of zero raised
ZeroDivisionError and a declared size above sys.maxsize OverflowError. A
block size field of another width than declared was accepted. All of them
are now refused with CanonicalEncodingError.
---
 aiootp/generics/canon.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/aiootp/generics/canon.py b/aiootp/generics/canon.py
index 0dd0904..8bc7fa7 100644
--- a/aiootp/generics/canon.py
+++ b/aiootp/generics/canon.py
@@ -35,6 +35,7 @@ __all__ = [
 
 
 import io
+import sys
 from math import ceil
 from collections import deque
 from hmac import compare_digest as bytes_are_equal
@@ -265,7 +266,10 @@ async def adecode_items(
     the number of bytes that were used to encode item lengths.
     """
     async for _ in arange(item_count):
-        item_size = int.from_bytes(read(int_bytes), BIG)
+        encoded_size = read(int_bytes)
+        item_size = int.from_bytes(encoded_size, BIG)
+        if len(encoded_size) != int_bytes or item_size > sys.maxsize:
+            raise CanonicalIssue.item_length_mismatch()
         item = read(item_size)
         if len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
@@ -286,7 +290,10 @@ def decode_items(
     the number of bytes that were used to encode item lengths.
     """
     for _ in range(item_count):
-        item_size = int.from_bytes(read(int_bytes), BIG)
+        encoded_size = read(int_bytes)
+        item_size = int.from_bytes(encoded_size, BIG)
+        if len(encoded_size) != int_bytes or item_size > sys.maxsize:
+            raise CanonicalIssue.item_length_mismatch()
         item = read(item_size)
         if len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
@@ -307,7 +314,7 @@ def test_canonical_padding(
         pad = items.popleft()
     except IndexError as error:
         raise CanonicalIssue.missing_metadata_items() from error
-    if total_size % blocksize:
+    if not blocksize or total_size % blocksize:
         raise CanonicalIssue.data_length_blocksize_mismatch()
     elif len(pad) != 1 or not set(pad).issuperset(read()):
         raise CanonicalIssue.invalid_padding()
@@ -329,6 +336,8 @@ async def acanonical_unpack(items: bytes) -> deque[bytes]:
         [item async for item in adecode_items(read, item_count, int_bytes)],
         maxlen=item_count,
     )
+    if items and len(items[0]) != int_bytes:
+        raise CanonicalIssue.item_length_mismatch()
     test_canonical_padding(read, items, total_size)
     return items
 
@@ -349,6 +358,8 @@ def canonical_unpack(items: bytes) -> deque[bytes]:
         decode_items(read, item_count, int_bytes),
         maxlen=item_count,
     )
+    if items and len(items[0]) != int_bytes:
+        raise CanonicalIssue.item_length_mismatch()
     test_canonical_padding(read, items, total_size)
     return items
 
-- 
2.43.0


From 273a4191c34a69444e972b3699373789542317e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:42 +0000
Subject: [PATCH 03/43] fix: keep checking the age of a stream after a failed
 check

A decipher stream was marked as checked before its timestamp was looked
at. Iterating it before anything was buffered failed, but left the mark
set, so an expired message was released afterwards.
---
 aiootp/ciphers/decipher_streams.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/aiootp/ciphers/decipher_streams.py b/aiootp/ciphers/decipher_streams.py
index ae78ffd..bb48ad8 100644
--- a/aiootp/ciphers/decipher_streams.py
+++ b/aiootp/ciphers/decipher_streams.py
@@ -183,13 +183,9 @@ class AsyncDecipherStream(CipherStreamProperties, metaclass=AsyncInit):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            await self._config.clock.atest_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        await self._config.clock.atest_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     async def _aremove_inner_header(self, queue: deque[bytes]) -> None:
         """
@@ -471,13 +467,9 @@ class DecipherStream(CipherStreamProperties):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            self._config.clock.test_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        self._config.clock.test_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     def _remove_inner_header(self, queue: deque[bytes]) -> None:
         """
-- 
2.43.0


From e99c0fa2eb25df3c0d9a5f68974b4a492521e611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:05:05 +0000
Subject: [PATCH 04/43] fix: leave a cipher stream unchanged when it refuses
 data

The length of refused data of another type was already counted, which
gave the message a wrong padding at the end.
---
 aiootp/ciphers/cipher_streams.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiootp/ciphers/cipher_streams.py b/aiootp/ciphers/cipher_streams.py
index 74223a2..9aee2eb 100644
--- a/aiootp/ciphers/cipher_streams.py
+++ b/aiootp/ciphers/cipher_streams.py
@@ -258,10 +258,10 @@ class AsyncCipherStream(CipherStreamProperties, metaclass=AsyncInit):
         async with self._Guard(self._digesting_now, probe_delay=0.00001):
             if self._finalizing_now:
                 raise CipherStreamIsClosed
+            read = io.BytesIO(data).read
             self._byte_count += len(data)
-            data = io.BytesIO(data).read
             _buffer, append = self._buffer_shortcuts
-            await self._adigest_data(data, _buffer, append)
+            await self._adigest_data(read, _buffer, append)
         return self
 
 
@@ -487,10 +487,10 @@ class CipherStream(CipherStreamProperties):
         with self._Guard(self._digesting_now, probe_delay=0.00001):
             if self._finalizing_now:
                 raise CipherStreamIsClosed
+            read = io.BytesIO(data).read
             self._byte_count += len(data)
-            data = io.BytesIO(data).read
             _buffer, append = self._buffer_shortcuts
-            self._digest_data(data, _buffer, append)
+            self._digest_data(read, _buffer, append)
         return self
 
 
-- 
2.43.0


From 12967e66b68c293a3da1c5130543b2ae29d3a2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:24 +0000
Subject: [PATCH 05/43] fix: give every call of one id generator its own tick

---
 aiootp/randoms/ids/raw_guid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aiootp/randoms/ids/raw_guid.py b/aiootp/randoms/ids/raw_guid.py
index 6c261f7..65d1d5a 100644
--- a/aiootp/randoms/ids/raw_guid.py
+++ b/aiootp/randoms/ids/raw_guid.py
@@ -18,6 +18,8 @@ A type for creating unblinded unique bytes values.
 __all__ = ["RawGUID"]
 
 
+from itertools import count
+
 from aiootp._typing import Typing as t
 from aiootp._constants import BIG
 from aiootp._exceptions import Issue
@@ -85,15 +87,15 @@ class RawGUID(FrozenInstance):
         """
         self.config = self._configs[config_id]
         self.node_id = self._process_node_id(node_id)
-        self.tick = 0
+        self.tick = count(1)  # `next` on it is atomic between threads
 
     def _incremented_tick(self) -> bytes:
         """
         Returns the incremented counter value.
         """
         c = self.config
-        object.__setattr__(self, "tick", (self.tick + 1) & c.TICK_DOMAIN)
-        return self.tick.to_bytes(c.TICKER_BYTES, BIG)
+        tick = next(self.tick) & c.TICK_DOMAIN
+        return tick.to_bytes(c.TICKER_BYTES, BIG)
 
     async def anew(self) -> bytes:
         """
-- 
2.43.0


From 8a78267e1608e37c8fe081fd12dc0d6b73f74ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:11 +0000
Subject: [PATCH 06/43] fix: keep frozen containers intact when clearing is
 refused

Clearing a frozen namespace raised an error, but only after its
contents had been removed. Each item is now deleted through the item
interface, which refuses before anything is lost.
---
 aiootp/commons/slots.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aiootp/commons/slots.py b/aiootp/commons/slots.py
index 4ff4b12..b0bb7ba 100644
--- a/aiootp/commons/slots.py
+++ b/aiootp/commons/slots.py
@@ -327,9 +327,8 @@ class Slots:
         """
         Deletes the instance's attribute references from its slots & dict.
         """
-        getattr(self, DICT, []).clear()
-        for name in self.__slots__:
-            if hasattr(self, name):
+        for name in (*getattr(self, DICT, ()), *self.__slots__):
+            if name in self:
                 del self[name]
 
 
-- 
2.43.0


From 6239df8ee26451b4b2411fbe89987c0abadf7e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:01 +0000
Subject: [PATCH 07/43] fix: release concurrency guards whose wait or exit is
 interrupted

---
 aiootp/asynchs/guards/concurrency_guard.py | 33 ++++++++++++++++++----
 aiootp/asynchs/guards/manager.py           |  4 +--
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/aiootp/asynchs/guards/concurrency_guard.py b/aiootp/asynchs/guards/concurrency_guard.py
index 8ae45b8..64379e3 100644
--- a/aiootp/asynchs/guards/concurrency_guard.py
+++ b/aiootp/asynchs/guards/concurrency_guard.py
@@ -190,7 +190,7 @@ class ConcurrencyGuard(FrozenTypedSlots):
     )
     _DIRLESS_ATTRIBUTES: frozenset[str] = frozenset({"_use_tracker"})
     _RESTRICTED_ATTRIBUTES: frozenset[str] = frozenset(
-        {"_set_policy", "_set_deques"},
+        {"_set_policy", "_set_deques", "_stop_waiting"},
     )
 
     _UseTracker: type = ConcurrencyGuardUseTracker
@@ -316,6 +316,17 @@ class ConcurrencyGuard(FrozenTypedSlots):
         """
         return self._use_tracker.has_faulted()
 
+    def _stop_waiting(self, /) -> None:
+        """
+        Takes the instance out of the deques when its wait to enter the
+        context is interrupted, so the guards behind it aren't blocked.
+        """
+        self._use_tracker.enter_fault_state()
+        if self.policy.is_exclusive():
+            self.policy.notify_off(self)
+        if self in self.queue:
+            self.queue.remove(self)
+
     async def __aenter__(self, /) -> t.Self:
         """
         Prevents entering the context by asynchronously sleeping until
@@ -331,7 +342,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.get_in_queue(self)
 
         while not policy.is_free_to_run(self):
-            await asleep(self.probe_delay)
+            try:
+                await asleep(self.probe_delay)
+            except BaseException:
+                self._stop_waiting()
+                raise
 
         return self
 
@@ -349,7 +364,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.get_in_queue(self)
 
         while not policy.is_free_to_run(self):
-            sleep(self.probe_delay)
+            try:
+                sleep(self.probe_delay)
+            except BaseException:
+                self._stop_waiting()
+                raise
 
         return self
 
@@ -370,9 +389,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
 
         Otherwise, closes the context silently.
         """
-        await asleep()
-        self.policy.notify_off(self)
-        self.policy.get_off_queue(self)
+        try:
+            await asleep()
+        finally:
+            self.policy.notify_off(self)
+            self.policy.get_off_queue(self)
         return exc_type is None
 
     def __exit__(
diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index 490a23c..b7820dd 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -270,7 +270,7 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         await manager._ainitialize_guard(target, self)
         try:
             return await super().__aenter__()
-        except Exception as error:
+        except BaseException as error:
             await manager._acleanup_references(target)
             raise error
 
@@ -288,7 +288,7 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         manager._initialize_guard(target, self)
         try:
             return super().__enter__()
-        except Exception as error:
+        except BaseException as error:
             manager._cleanup_references(target)
             raise error
 
-- 
2.43.0


From 2cec095046f521f12b708ae47f80ed7474817e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:01 +0000
Subject: [PATCH 08/43] fix: keep no target state for a managed guard that is
 refused

---
 aiootp/asynchs/guards/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index b7820dd..c2ad820 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -267,8 +267,8 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         await asleep()
 
         manager, target = self._refs.manager, self._refs.target
-        await manager._ainitialize_guard(target, self)
         try:
+            await manager._ainitialize_guard(target, self)
             return await super().__aenter__()
         except BaseException as error:
             await manager._acleanup_references(target)
@@ -285,8 +285,8 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         guard's place in the order queue.
         """
         manager, target = self._refs.manager, self._refs.target
-        manager._initialize_guard(target, self)
         try:
+            manager._initialize_guard(target, self)
             return super().__enter__()
         except BaseException as error:
             manager._cleanup_references(target)
-- 
2.43.0


From a41a071900ddc01add22dfe47efe6c99616c2da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:14 +0000
Subject: [PATCH 09/43] fix: wait asynchronously for other users of a salt file
 before deleting it

---
 aiootp/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 3182026..2fe48ee 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -268,7 +268,7 @@ async def adelete_salt_file(path: Path) -> None:
     """
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
-    with guards.guard(target):
+    async with guards.guard(target):
         await aos.chmod(path, 0o600)
         await aos.remove(path)
 
-- 
2.43.0


From 40ea7f2502908c3aa4be881f1b74c49bd67e8d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:14 +0000
Subject: [PATCH 10/43] fix: keep concurrent readers of a salt file from
 locking each other out

---
 aiootp/_paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 2fe48ee..b26bce6 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -191,7 +191,7 @@ async def aread_salt_file(path: Path) -> bytes:
     """
     path = await wrap_in_executor(path.absolute)()
     target = filename_to_index_key(str(path))
-    async with guards.monitor(target):
+    async with guards.guard(target):
         try:
             await aos.chmod(path, 0o600)
             async with aiofiles.open(path, "rb") as salt_file:
@@ -210,7 +210,7 @@ def read_salt_file(path: Path) -> bytes:
     `path`.
     """
     target = filename_to_index_key(str(path.absolute()))
-    with guards.monitor(target):
+    with guards.guard(target):
         try:
             path = Path(path)
             path.chmod(0o600)
-- 
2.43.0


From f1c50f6886c5c268c65a4913a8f94624096fc200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:18 +0000
Subject: [PATCH 11/43] fix: let concurrent users create one salt file and its
 directory

---
 aiootp/_paths.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index b26bce6..fa246a6 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -25,7 +25,7 @@ from secrets import token_bytes
 
 from ._typing import Typing as t
 from ._constants import FILENAME_HASH_SLICE
-from ._exceptions import Issue
+from ._exceptions import Ignore, Issue
 from .asynchs import aos, wrap_in_executor, MultiConcurrencyGaurd
 from .generics import Domains, ahash_bytes, hash_bytes
 from .generics.transform import axi_mix, xi_mix
@@ -163,7 +163,7 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
-        async with aiofiles.open(path, "wb") as salt_file:
+        async with aiofiles.open(path, "xb") as salt_file:
             await salt_file.write(salt)
         await aos.chmod(path, 0o000)
 
@@ -180,7 +180,8 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
         path = Path(path)
-        path.write_bytes(salt)
+        with path.open("xb") as salt_file:
+            salt_file.write(salt)
         path.chmod(0o000)
 
 
@@ -301,16 +302,19 @@ async def AsyncSecureSaltPath(
     Returns the new, or preexisting, salt file's Path object.
     """
     secure_path = SecurePath(path)
-    secure_path.is_dir() or await aos.mkdir(secure_path)
+    with Ignore(FileExistsError):
+        secure_path.is_dir() or await aos.mkdir(secure_path)
 
     if _admin:
         admin_path = AdminPath(path)
-        admin_path.is_dir() or await aos.mkdir(admin_path)
+        with Ignore(FileExistsError):
+            admin_path.is_dir() or await aos.mkdir(admin_path)
         salt_path = await afind_salt_file(admin_path, key=key)
     else:
         salt_path = await afind_salt_file(secure_path, key=key)
 
-    salt_path.is_file() or await amake_salt_file(salt_path)
+    with Ignore(FileExistsError):
+        salt_path.is_file() or await amake_salt_file(salt_path)
     return salt_path
 
 
@@ -330,16 +334,17 @@ def SecureSaltPath(
     Returns the new, or preexisting, salt file's Path object.
     """
     secure_path = SecurePath(path)
-    secure_path.is_dir() or secure_path.mkdir()
+    secure_path.mkdir(exist_ok=True)
 
     if _admin:
         admin_path = AdminPath(path)
-        admin_path.is_dir() or admin_path.mkdir()
+        admin_path.mkdir(exist_ok=True)
         salt_path = find_salt_file(admin_path, key=key)
     else:
         salt_path = find_salt_file(secure_path, key=key)
 
-    salt_path.is_file() or make_salt_file(salt_path)
+    with Ignore(FileExistsError):
+        salt_path.is_file() or make_salt_file(salt_path)
     return salt_path
 
 
-- 
2.43.0


From 4001f31161b56cc030fec700a36fee651cbc63ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:10 +0000
Subject: [PATCH 12/43] fix: leave unrelated files alone when deleting a
 database

---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 6662cd0..21308cb 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -744,7 +744,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         for metatag in self.metatags:
             sub_db = await self.ametatag(metatag, preload=False)
             await sub_db.adelete_database()
-        for filename in self._manifest:
+        for filename in self.filenames:
             await self._adelete_file(filename, silent=True)
         await self._adelete_file(self._root_filename, silent=True)
         await self._adelete_profile_tokens()
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 51a8421..2995c8c 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -692,7 +692,7 @@ class Database(DatabaseProperties):
         """
         for metatag in self.metatags:
             self.metatag(metatag, preload=False).delete_database()
-        for filename in self._manifest:
+        for filename in self.filenames:
             self._delete_file(filename, silent=True)
         self._delete_file(self._root_filename, silent=True)
         self._delete_profile_tokens()
-- 
2.43.0


From 55d381a3548062fdf690e0b1ffb30f80104eecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:26 +0000
Subject: [PATCH 13/43] fix: unlist never saved tags when the database cache is
 cleared

---
 aiootp/databases/async_database.py | 4 ++++
 aiootp/databases/sync_database.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 21308cb..4c4b208 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -634,6 +634,10 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         Clears all recent changes in the cache, but this doesn't clear
         a database's metatag caches unless `metatags` is truthy.
         """
+        for filename in self._cache:
+            if not (self.path / filename).is_file():
+                with Ignore(AttributeError):
+                    delattr(self._manifest, filename)
         self._cache.clear()
         if metatags:
             for metatag in self.metatags:
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 2995c8c..a51a92c 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -586,6 +586,10 @@ class Database(DatabaseProperties):
         Clears all recent changes in the cache. By default `metatags`
         is truthy, which clears a database's metatag caches.
         """
+        for filename in self._cache:
+            if not (self.path / filename).is_file():
+                with Ignore(AttributeError):
+                    delattr(self._manifest, filename)
         self._cache.clear()
         if metatags:
             for metatag in self.metatags:
-- 
2.43.0


From 62dcf276501afe3b9ae167084d1444e0d266c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:43 +0000
Subject: [PATCH 14/43] fix: report an emptied database file instead of a
 missing value

---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 4c4b208..d4c1dff 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -549,7 +549,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = await self._aquery_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = await self.abytes_decrypt(
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index a51a92c..7d9f3eb 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -515,7 +515,7 @@ class Database(DatabaseProperties):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = self._query_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = self.bytes_decrypt(ciphertext, filename=filename, ttl=ttl)
-- 
2.43.0


From b9fdfaa09aeb4b74279838932a2a26533913371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:09 +0000
Subject: [PATCH 15/43] fix: give concurrent tasks one child database per name

---
 aiootp/databases/async_database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index d4c1dff..a56b65c 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -698,7 +698,8 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
                 metatag=True,
                 silent=silent,
             )
-            setattr(self, tag, sub_database)
+            if not hasattr(self, tag):
+                setattr(self, tag, sub_database)
         if tag not in self.metatags:
             self._manifest[self._METATAGS_LEDGERNAME].append(tag)
         return getattr(self, tag)
-- 
2.43.0


From 6b855d4efa818b3c53c1db690a8e811654451afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:27 +0000
Subject: [PATCH 16/43] fix: keep a value set while the stored one is being
 read

---
 aiootp/databases/async_database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index a56b65c..d29d5ea 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -561,7 +561,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             result = result[BYTES_FLAG_SIZE:]  # Remove bytes value flag
         else:
             result = json.loads(result)
-        if cache:
+        if cache and filename not in self._cache:
             setattr(self._cache, filename, result)
         return result
 
-- 
2.43.0


From ef87a2d1ab265323c5da7e7277f2832948edb2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:42 +0000
Subject: [PATCH 17/43] fix: let one task at a time use each file of an async
 database

---
 aiootp/databases/async_database.py | 107 ++++++++++++++++++++++-------
 1 file changed, 81 insertions(+), 26 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index d29d5ea..121b9eb 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -26,7 +26,8 @@ from aiootp._constants import BYTES_FLAG, BYTES_FLAG_SIZE
 from aiootp._constants import FILENAME_HASH_BYTES, SHAKE_128_BLOCKSIZE
 from aiootp._exceptions import DatabaseIssue, Issue, Ignore
 from aiootp._paths import adelete_salt_file
-from aiootp.asynchs import AsyncInit, asleep, gather, aos
+from aiootp.asynchs import AsyncInit, MultiConcurrencyGaurd
+from aiootp.asynchs import asleep, gather, aos
 from aiootp.commons import Namespace
 from aiootp.randoms import atoken_bytes
 from aiootp.keygens.passcrypt.config import passcrypt_spec
@@ -91,6 +92,15 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
 
     _ProfileTokens: type = AsyncProfileTokens
 
+    _guards: MultiConcurrencyGaurd = MultiConcurrencyGaurd()
+
+    def _guard_file(self, filename: str) -> t.ConcurrencyGuardType:
+        """
+        Returns a context manager which allows one task at a time to use
+        the database file called `filename`.
+        """
+        return self._guards.guard(str(self.path / filename))
+
     @classmethod
     async def _aencode_filename(cls, value: bytes) -> str:
         """
@@ -546,6 +556,28 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         from the database.
         """
         filename = await self.afilename(tag)
+        if filename in self._cache:
+            return getattr(self._cache, filename)
+        async with self._guard_file(filename):
+            return await self._aquery_file(
+                filename,
+                ttl=ttl,
+                silent=silent,
+                cache=cache,
+            )
+
+    async def _aquery_file(
+        self,
+        filename: str,
+        *,
+        ttl: int | None = DEFAULT_TTL,
+        silent: bool = False,
+        cache: bool = False,
+    ) -> t.JSONSerializable | bytes:
+        """
+        Retrieves the value of the `filename` from the cache, or from
+        the filesystem. The caller must be holding the file's guard.
+        """
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = await self._aquery_ciphertext(filename, silent=silent)
@@ -596,13 +628,15 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
 
         failures = []
         filename = await self.afilename(tag)
-        value = await self.aquery_tag(tag, cache=False, silent=True)
-        with Ignore(KeyError, AttributeError, if_except=track_failure):
-            del self._manifest[filename]
-        with Ignore(KeyError, AttributeError, if_except=track_failure):
-            del self._cache[filename]
-        with Ignore(FileNotFoundError, if_except=track_failure):
-            await self._adelete_file(filename)
+        async with self._guard_file(filename):
+            value = await self._aquery_file(filename, silent=True)
+            value = getattr(self._cache, filename, value)
+            with Ignore(KeyError, AttributeError, if_except=track_failure):
+                del self._manifest[filename]
+            with Ignore(KeyError, AttributeError, if_except=track_failure):
+                del self._cache[filename]
+            with Ignore(FileNotFoundError, if_except=track_failure):
+                await self._adelete_file(filename)
         if (not silent) and (len(failures) == 3):
             raise DatabaseIssue.tag_file_doesnt_exist(tag)
         return value
@@ -620,11 +654,12 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         saved in the database.
         """
         filename = await self.afilename(tag)
-        if not (self.path / filename).is_file():
+        async with self._guard_file(filename):
+            if not (self.path / filename).is_file():
+                with Ignore(AttributeError):
+                    delattr(self._manifest, filename)
             with Ignore(AttributeError):
-                delattr(self._manifest, filename)
-        with Ignore(AttributeError):
-            delattr(self._cache, filename)
+                delattr(self._cache, filename)
         with Ignore(LookupError):
             cache and await self.aquery_tag(tag, cache=True)
         return self
@@ -780,32 +815,51 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         contains all database filenames & other metadata used to
         organize databases.
         """
-        manifest = await self._aencrypt_manifest()
-        await self._asave_manifest(manifest)
+        async with self._guard_file(self._root_filename):
+            manifest = await self._aencrypt_manifest()
+            await self._asave_manifest(manifest)
 
     async def _asave_file(
         self,
         filename: str,
         *,
         admin: bool = False,
+        drop_cache: bool = False,
     ) -> None:
         """
         Writes the cached value for a user-specified `filename` to the
         user filesystem.
         """
-        value = getattr(self._cache, filename)
-        if value.__class__ is bytes:
-            value = BYTES_FLAG + value  # Assure not reloaded as JSON
-        else:
-            value = json.dumps(value).encode()
-        ciphertext = await self.abytes_encrypt(value, filename=filename)
-        await self._asave_ciphertext(filename, ciphertext)
+        async with self._guard_file(filename):
+            cached_value = value = getattr(self._cache, filename)
+            try:
+                if value.__class__ is bytes:
+                    value = BYTES_FLAG + value  # Assure not reloaded as JSON
+                else:
+                    value = json.dumps(value).encode()
+                ciphertext = await self.abytes_encrypt(
+                    value,
+                    filename=filename,
+                )
+                await self._asave_ciphertext(filename, ciphertext)
+            finally:
+                if drop_cache and (
+                    getattr(self._cache, filename, self) is cached_value
+                ):
+                    delattr(self._cache, filename)
 
     async def _asave_tags(self) -> None:
         """
         Writes the database's user-defined tags to disk.
         """
-        save = self._asave_file
+
+        async def save(filename: str) -> None:
+            def is_missing(relay: Ignore) -> bool:
+                return filename not in self._cache
+
+            with Ignore(AttributeError, if_except=is_missing):
+                await self._asave_file(filename)
+
         filenames = self._cache
         saves = (save(filename) for filename in filenames)
         await gather(*saves)
@@ -833,12 +887,13 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         """
         filename = await self.afilename(tag)
         try:
-            await self._asave_file(filename, admin=admin)
+            await self._asave_file(
+                filename,
+                admin=admin,
+                drop_cache=drop_cache,
+            )
         except AttributeError as error:
             raise DatabaseIssue.tag_file_doesnt_exist(tag) from error
-        finally:
-            if drop_cache and hasattr(self._cache, filename):
-                delattr(self._cache, filename)
         return self
 
     async def asave_database(self) -> t.Self:
-- 
2.43.0


From da533f73fb11a4f346ae56c9b2590a5b655f767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:10 +0000
Subject: [PATCH 18/43] fix: let concurrent tasks store one tag of an async
 database

---
 aiootp/databases/async_database.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 121b9eb..e29f247 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -523,7 +523,12 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         setattr(self._cache, filename, data)
         setattr(self._manifest, filename, tag)
         if not cache:
-            await self.asave_tag(tag, drop_cache=True)
+
+            def is_missing(relay: Ignore) -> bool:
+                return filename not in self._cache
+
+            with Ignore(LookupError, if_except=is_missing):
+                await self.asave_tag(tag, drop_cache=True)
         return self
 
     async def _aquery_ciphertext(
-- 
2.43.0


From 6839ff0f7800ee627bd64ee72619a76ef39fa2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:42 +0000
Subject: [PATCH 19/43] fix: lock a new salt file before its salt is written

---
 aiootp/_paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index fa246a6..53b45cb 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -164,8 +164,8 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
         async with aiofiles.open(path, "xb") as salt_file:
+            await aos.chmod(path, 0o000)
             await salt_file.write(salt)
-        await aos.chmod(path, 0o000)
 
 
 def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
@@ -181,8 +181,8 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
     with guards.guard(target):
         path = Path(path)
         with path.open("xb") as salt_file:
+            path.chmod(0o000)
             salt_file.write(salt)
-        path.chmod(0o000)
 
 
 async def aread_salt_file(path: Path) -> bytes:
-- 
2.43.0


From 352ea10b05b8fd27a1f361ed2a0431c089189a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:10 +0000
Subject: [PATCH 20/43] fix: return the error and large results of new threads
 and processes

---
 aiootp/asynchs/concurrency_interface.py | 48 +++++++++++++++----------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/aiootp/asynchs/concurrency_interface.py b/aiootp/asynchs/concurrency_interface.py
index 31c5159..e69a44c 100644
--- a/aiootp/asynchs/concurrency_interface.py
+++ b/aiootp/asynchs/concurrency_interface.py
@@ -78,18 +78,14 @@ class ConcurrencyInterface:
         """
         Used by the class to retrieve return values from an async or
         sync `func` run in a new process / thread by storing the result
-        in a shared `queue` container.
+        in a shared `queue` container, together with whether it's an
+        exception to be raised.
         """
-        if is_async_function(func):
-            try:
-                loop = new_event_loop()
-                run = loop.run_until_complete
-                queue.put_nowait(run(func(*args, **kwargs)))
-            finally:
-                run(loop.shutdown_asyncgens())
-                loop.close()
-        else:
-            queue.put_nowait(func(*args, **kwargs))
+        try:
+            result = ConcurrencyInterface._get_result(func, *args, **kwargs)
+            queue.put_nowait((False, result))
+        except BaseException as error:
+            queue.put_nowait((True, error))
 
     @staticmethod
     def _run_func(
@@ -102,9 +98,25 @@ class ConcurrencyInterface:
         """
         Used by the class to retrieve return values from a sync `func`
         run in a new process / thread by storing the result in a shared
-        `queue` container.
+        `queue` container, together with whether it's an exception to be
+        raised.
         """
-        queue.put_nowait(func(*args, **kwargs))
+        try:
+            queue.put_nowait((False, func(*args, **kwargs)))
+        except BaseException as error:
+            queue.put_nowait((True, error))
+
+    @staticmethod
+    def _take_result(task: t.Any, queue: t.QueueType, /) -> t.Any:
+        """
+        Returns, or raises, what a new process / thread stored in the
+        shared `queue` container.
+        """
+        is_error, result = queue.get_nowait()
+        task.join()
+        if is_error:
+            raise result
+        return result
 
     @classmethod
     async def anew(
@@ -132,10 +144,9 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
-        while task.is_alive():
+        while task.is_alive() and queue.empty():
             await asleep(delay)
-        task.join()
-        return queue.get_nowait()
+        return cls._take_result(task, queue)
 
     @classmethod
     def new(
@@ -163,10 +174,9 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
-        while task.is_alive():
+        while task.is_alive() and queue.empty():
             sleep(delay)
-        task.join()
-        return queue.get_nowait()
+        return cls._take_result(task, queue)
 
     @staticmethod
     def _get_result(
-- 
2.43.0


From 184b7aeeaf37640360e273445d18ca72fb59b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:10 +0000
Subject: [PATCH 21/43] fix: give gathered functions all arguments when given
 an iterator

---
 aiootp/asynchs/concurrency_interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiootp/asynchs/concurrency_interface.py b/aiootp/asynchs/concurrency_interface.py
index e69a44c..00e2667 100644
--- a/aiootp/asynchs/concurrency_interface.py
+++ b/aiootp/asynchs/concurrency_interface.py
@@ -284,6 +284,7 @@ class ConcurrencyInterface:
         `Processes.pool` or `Threads.pool` with the given `args` &
         `kwargs`.
         """
+        args = tuple(args)
         tasks = [
             await cls.asubmit(func, *args, **kwargs) for func in functions
         ]
@@ -305,6 +306,7 @@ class ConcurrencyInterface:
         Sumbits all the `functions` to the `Processes.pool` or
         `Threads.pool` with the given `args` & `kwargs`.
         """
+        args = tuple(args)
         tasks = [cls.submit(func, *args, **kwargs) for func in functions]
         try:
             return [task.result() for task in tasks]
-- 
2.43.0


From 6f0f1850fb488024427068ce9317ae6d81f75261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:30 +0000
Subject: [PATCH 22/43] fix: leave a configuration unchanged when its map
 refuses it

---
 aiootp/commons/configs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiootp/commons/configs.py b/aiootp/commons/configs.py
index db8766e..df57424 100644
--- a/aiootp/commons/configs.py
+++ b/aiootp/commons/configs.py
@@ -178,11 +178,13 @@ class ConfigMap(OpenFrozenNamespace):
         is already in the instance & the `config` isn't the same object,
         then `PermissionError` is raised.
         """
-        config.set_config_id(config_id)
         if not issubclass(config.__class__, self.CONFIG_TYPE):
             raise Issue.must_be_type("config", self.CONFIG_TYPE)
         elif config_id in self and self[config_id] is not config:
             raise Issue.cant_reassign_attribute(f"{config_id=}")
+        elif config_id in self._RESTRICTED_ATTRIBUTES:
+            raise Issue.cant_reassign_attribute(f"{config_id=}")
+        config.set_config_id(config_id)
         if config_id.__class__ is str:
             object.__setattr__(self, config_id, config)
         else:
-- 
2.43.0


From 35aa67facb912b4c1ccb90b7c4d4e02e7ca114ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:30:45 +0000
Subject: [PATCH 23/43] fix: display containers that hold an empty name

---
 aiootp/commons/slots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/commons/slots.py b/aiootp/commons/slots.py
index b0bb7ba..1c6f957 100644
--- a/aiootp/commons/slots.py
+++ b/aiootp/commons/slots.py
@@ -263,7 +263,7 @@ class Slots:
         body = on.join(
             f"{name}={show(value)}"
             for name, value in self.items()
-            if str(name)[0] != "_"
+            if str(name)[:1] != "_"
         )
         end = f",{sep}" if self else ""
         return f"{cls.__qualname__}({start}{body}{end})"
-- 
2.43.0


From 9407a57b03003cbe3828afcc06702e2d6c3cbf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:23 +0000
Subject: [PATCH 24/43] fix: refuse numbers and bases whose conversion never
 ends

---
 aiootp/generics/transform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aiootp/generics/transform.py b/aiootp/generics/transform.py
index 9ac80b5..2c16600 100644
--- a/aiootp/generics/transform.py
+++ b/aiootp/generics/transform.py
@@ -91,6 +91,10 @@ async def aint_as_base(
         return table[:1]
     elif base is None:
         base = len(table)
+    if number < 0:
+        raise Issue.invalid_value("negative number")
+    elif base < 2:
+        raise Issue.invalid_value("base with the given table")
     digits = []
     base_table = table[:base]
     await asleep()
@@ -118,6 +122,10 @@ def int_as_base(
         return table[:1]
     elif base is None:
         base = len(table)
+    if number < 0:
+        raise Issue.invalid_value("negative number")
+    elif base < 2:
+        raise Issue.invalid_value("base with the given table")
     digits = []
     base_table = table[:base]
     while number:
-- 
2.43.0


From e8a9687aa1f22673ef1c2e0bd89dcf96db13bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:41 +0000
Subject: [PATCH 25/43] fix: decode the phrase of an empty value

---
 aiootp/generics/byte_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/generics/byte_io.py b/aiootp/generics/byte_io.py
index 1f1c738..8bf6ec4 100644
--- a/aiootp/generics/byte_io.py
+++ b/aiootp/generics/byte_io.py
@@ -192,7 +192,7 @@ class ByteIO(FrozenInstance):
         await asleep()
         return b"".join(
             _WORD_LIST_256_INVERSE[word]
-            for word in phrase.strip().split(b" ")
+            for word in phrase.split()
         )
 
     @staticmethod
@@ -215,7 +215,7 @@ class ByteIO(FrozenInstance):
         """
         return b"".join(
             _WORD_LIST_256_INVERSE[word]
-            for word in phrase.strip().split(b" ")
+            for word in phrase.split()
         )
 
     @staticmethod
-- 
2.43.0


From 9aa51cf9011dc1dd91659957f05579a41a69851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:33 +0000
Subject: [PATCH 26/43] fix: refuse batch sizes which lose or merge data

---
 aiootp/_gentools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiootp/_gentools.py b/aiootp/_gentools.py
index 855a95c..ad4daa0 100755
--- a/aiootp/_gentools.py
+++ b/aiootp/_gentools.py
@@ -102,6 +102,8 @@ async def abatch(
         print(piece)
     >>> b' Testing data... Testing data... Testing data... Testing data...'
     """
+    if size < 1:
+        raise Issue.value_must("size", "be >0")
     try:
         read = buffer_type(sequence).read
         while True:
@@ -139,6 +141,8 @@ def batch(
         print(piece)
     >>> b' Testing data... Testing data... Testing data... Testing data...'
     """
+    if size < 1:
+        raise Issue.value_must("size", "be >0")
     try:
         read = buffer_type(sequence).read
         while True:
-- 
2.43.0


From d04032fc91e691d6aaac9b58deb69956a47c42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:33 +0000
Subject: [PATCH 27/43] fix: end an async zip of no iterables

---
 aiootp/_gentools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/_gentools.py b/aiootp/_gentools.py
index ad4daa0..7468929 100755
--- a/aiootp/_gentools.py
+++ b/aiootp/_gentools.py
@@ -247,7 +247,7 @@ async def azip(
     """
     coroutines = [aunpack(iterable).__anext__ for iterable in iterables]
     try:
-        while True:
+        while coroutines:
             yield [await coroutine() for coroutine in coroutines]
     except (StopAsyncIteration, StopIteration):
         pass
-- 
2.43.0


From 63a51bbbf071f39c9dac4e3f554c45f4ea4880fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:02 +0000
Subject: [PATCH 28/43] fix: allow concurrent threads to call the random number
 generator

---
 aiootp/randoms/rng.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aiootp/randoms/rng.py b/aiootp/randoms/rng.py
index f38a600..4911689 100644
--- a/aiootp/randoms/rng.py
+++ b/aiootp/randoms/rng.py
@@ -63,8 +63,16 @@ _entropy_daemon = EntropyDaemon(
 _entropy_daemon.set_temporary_max_delay(max_delay=0.001, duration=2)
 
 
-# avert event loop clashes
-_run = new_event_loop().run_until_complete
+def _run(coroutine: t.Coroutine[t.Any, t.Any, bytes]) -> bytes:
+    """
+    Averts event loop clashes, also between concurrent threads, by
+    running each `coroutine` in an event loop of its own.
+    """
+    loop = new_event_loop()
+    try:
+        return loop.run_until_complete(coroutine)
+    finally:
+        loop.close()
 
 
 async def acsprng(
-- 
2.43.0


From 228b508292cd765a8b474803b49f4a5b0df70fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:06 +0000
Subject: [PATCH 29/43] fix: pass StopIteration unchanged through an async
 exception scope

---
 aiootp/_exceptions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiootp/_exceptions.py b/aiootp/_exceptions.py
index 83e65b7..3664d20 100644
--- a/aiootp/_exceptions.py
+++ b/aiootp/_exceptions.py
@@ -215,7 +215,8 @@ class Ignore:
                 if issubclass(exc_type, self.ignored_exceptions):
                     return await self.except_code(self)
                 else:
-                    raise exc_value
+                    # raising would turn `StopIteration` into another error
+                    return False
         finally:
             await self.finally_code(self)
 
-- 
2.43.0


From f3660c08dfe00b14d552199f76e4597c37098b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:38 +0000
Subject: [PATCH 30/43] fix: write and append to files which may not be read

---
 aiootp/generics/byte_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiootp/generics/byte_io.py b/aiootp/generics/byte_io.py
index 8bf6ec4..d333fca 100644
--- a/aiootp/generics/byte_io.py
+++ b/aiootp/generics/byte_io.py
@@ -239,7 +239,7 @@ class ByteIO(FrozenInstance):
         """
         Writes bytes `data` to the file at `path`.
         """
-        async with aiofiles.open(path, "wb+") as f:
+        async with aiofiles.open(path, "wb") as f:
             await f.write(data)
 
     @staticmethod
@@ -247,7 +247,7 @@ class ByteIO(FrozenInstance):
         """
         Writes bytes `data` to the file at `path`.
         """
-        with Path(path).open("wb+") as f:
+        with Path(path).open("wb") as f:
             f.write(data)
 
     @staticmethod
@@ -255,7 +255,7 @@ class ByteIO(FrozenInstance):
         """
         Appends bytes `data` to the file at `path`.
         """
-        async with aiofiles.open(path, "ab+") as f:
+        async with aiofiles.open(path, "ab") as f:
             await f.write(data)
 
     @staticmethod
@@ -263,7 +263,7 @@ class ByteIO(FrozenInstance):
         """
         Appends bytes `data` to the file at `path`.
         """
-        with Path(path).open("ab+") as f:
+        with Path(path).open("ab") as f:
             f.write(data)
 
 
-- 
2.43.0


From 2074d13c43cef3d96e2294678f879ce8fe9f97d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:03 +0000
Subject: [PATCH 31/43] fix: refuse negative durations of async random sleeps

---
 aiootp/randoms/simple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiootp/randoms/simple.py b/aiootp/randoms/simple.py
index 5a51bf4..6b2f8b3 100644
--- a/aiootp/randoms/simple.py
+++ b/aiootp/randoms/simple.py
@@ -67,6 +67,8 @@ async def arandom_sleep(seconds: t.PositiveRealNumber = 1) -> t.Any:
     Asynchronously sleeps for a psuedo-random duration less than the
     provided maximum number of `seconds`.
     """
+    if not seconds >= 0:
+        raise ValueError("sleep length must be non-negative")
     await asleep(seconds * await auniform(0, 1))
 
 
-- 
2.43.0


From e34b91e35aabeb37d3571f4b01d5dd3e844325be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:14 +0000
Subject: [PATCH 32/43] fix: refuse salts which are not bytes before a salt
 file is changed

---
 aiootp/_paths.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 53b45cb..07fecf3 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -157,7 +157,7 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     `path`. If no `salt` is provided, a new random 32-byte salt is used.
     """
     salt = salt or token_bytes(32)
-    if len(salt) < 32:
+    if len(memoryview(salt)) < 32:
         raise Issue.value_must("salt", "be >= 32-bytes")
 
     path = await wrap_in_executor(path.absolute)()
@@ -174,7 +174,7 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
     `path`. If no `salt` is provided, a new random 32-byte salt is used.
     """
     salt = salt or token_bytes(32)
-    if len(salt) < 32:
+    if len(memoryview(salt)) < 32:
         raise Issue.value_must("salt", "be >= 32-bytes")
 
     target = filename_to_index_key(str(path.absolute()))
@@ -230,7 +230,7 @@ async def aupdate_salt_file(path: Path, *, salt: bytes) -> None:
     Replaces the cryptographic salt contained within the file located at
     `path` with the new `salt` value.
     """
-    if len(salt) < 32:
+    if len(memoryview(salt)) < 32:
         raise Issue.value_must("salt", "be >= 32-bytes")
 
     path = await wrap_in_executor(path.absolute)()
@@ -249,7 +249,7 @@ def update_salt_file(path: Path, *, salt: bytes) -> None:
     Replaces the cryptographic salt contained within the file located at
     `path` with the new `salt` value.
     """
-    if len(salt) < 32:
+    if len(memoryview(salt)) < 32:
         raise Issue.value_must("salt", "be >= 32-bytes")
 
     target = filename_to_index_key(str(path.absolute()))
@@ -302,13 +302,11 @@ async def AsyncSecureSaltPath(
     Returns the new, or preexisting, salt file's Path object.
     """
     secure_path = SecurePath(path)
-    with Ignore(FileExistsError):
-        secure_path.is_dir() or await aos.mkdir(secure_path)
+    await wrap_in_executor(secure_path.mkdir)(exist_ok=True)
 
     if _admin:
         admin_path = AdminPath(path)
-        with Ignore(FileExistsError):
-            admin_path.is_dir() or await aos.mkdir(admin_path)
+        await wrap_in_executor(admin_path.mkdir)(exist_ok=True)
         salt_path = await afind_salt_file(admin_path, key=key)
     else:
         salt_path = await afind_salt_file(secure_path, key=key)
-- 
2.43.0


From 19178f2870ac86d3582f0eddc99527fb55aef1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:59:45 +0000
Subject: [PATCH 33/43] fix: let a key exchange continue after a refused public
 key

---
 .../double_diffie_hellman_client.py           | 10 +++----
 .../double_diffie_hellman_server.py           | 20 +++++--------
 .../triple_diffie_hellman_client.py           | 10 +++----
 .../triple_diffie_hellman_server.py           | 30 ++++++++-----------
 4 files changed, 28 insertions(+), 42 deletions(-)

diff --git a/aiootp/keygens/curve_25519/double_diffie_hellman_client.py b/aiootp/keygens/curve_25519/double_diffie_hellman_client.py
index 3d83432..092613e 100644
--- a/aiootp/keygens/curve_25519/double_diffie_hellman_client.py
+++ b/aiootp/keygens/curve_25519/double_diffie_hellman_client.py
@@ -118,11 +118,10 @@ class DoubleDiffieHellmanClient(FrozenInstance):
         """
         my_ephemeral_key = self._my_ephemeral_key
         peer_identity_key = self._peer_identity_key
-        peer_ephemeral_key = self._peer_ephemeral_key = self._sanitize(
-            peer_ephemeral_key,
-        )
+        peer_ephemeral_key = self._sanitize(peer_ephemeral_key)
         shared_key_ad = await my_ephemeral_key.aexchange(peer_identity_key)
         shared_key_cd = await my_ephemeral_key.aexchange(peer_ephemeral_key)
+        self._peer_ephemeral_key = peer_ephemeral_key
         return self._kdf_type(
             Domains.DH2,
             my_ephemeral_key.public_bytes,
@@ -143,11 +142,10 @@ class DoubleDiffieHellmanClient(FrozenInstance):
         """
         my_ephemeral_key = self._my_ephemeral_key
         peer_identity_key = self._peer_identity_key
-        peer_ephemeral_key = self._peer_ephemeral_key = self._sanitize(
-            peer_ephemeral_key,
-        )
+        peer_ephemeral_key = self._sanitize(peer_ephemeral_key)
         shared_key_ad = my_ephemeral_key.exchange(peer_identity_key)
         shared_key_cd = my_ephemeral_key.exchange(peer_ephemeral_key)
+        self._peer_ephemeral_key = peer_ephemeral_key
         return self._kdf_type(
             Domains.DH2,
             my_ephemeral_key.public_bytes,
diff --git a/aiootp/keygens/curve_25519/double_diffie_hellman_server.py b/aiootp/keygens/curve_25519/double_diffie_hellman_server.py
index 9b43fa9..34869b7 100644
--- a/aiootp/keygens/curve_25519/double_diffie_hellman_server.py
+++ b/aiootp/keygens/curve_25519/double_diffie_hellman_server.py
@@ -96,14 +96,12 @@ class DoubleDiffieHellmanServer(FrozenInstance):
         secret values involed in the exchange.
         """
         my_identity_key = self._my_identity_key
-        my_ephemeral_key = (
-            self._my_ephemeral_key
-        ) = await self._key_exchange_type().agenerate()
-        peer_ephemeral_key = self._peer_ephemeral_key = self._sanitize(
-            peer_ephemeral_key,
-        )
+        peer_ephemeral_key = self._sanitize(peer_ephemeral_key)
+        my_ephemeral_key = await self._key_exchange_type().agenerate()
         shared_key_ad = await my_identity_key.aexchange(peer_ephemeral_key)
         shared_key_cd = await my_ephemeral_key.aexchange(peer_ephemeral_key)
+        self._my_ephemeral_key = my_ephemeral_key
+        self._peer_ephemeral_key = peer_ephemeral_key
         return self._kdf_type(
             Domains.DH2,
             peer_ephemeral_key.public_bytes_raw(),
@@ -123,14 +121,12 @@ class DoubleDiffieHellmanServer(FrozenInstance):
         secret values involed in the exchange.
         """
         my_identity_key = self._my_identity_key
-        my_ephemeral_key = self._my_ephemeral_key = (
-            self._key_exchange_type().generate()
-        )
-        peer_ephemeral_key = self._peer_ephemeral_key = self._sanitize(
-            peer_ephemeral_key,
-        )
+        peer_ephemeral_key = self._sanitize(peer_ephemeral_key)
+        my_ephemeral_key = self._key_exchange_type().generate()
         shared_key_ad = my_identity_key.exchange(peer_ephemeral_key)
         shared_key_cd = my_ephemeral_key.exchange(peer_ephemeral_key)
+        self._my_ephemeral_key = my_ephemeral_key
+        self._peer_ephemeral_key = peer_ephemeral_key
         return self._kdf_type(
             Domains.DH2,
             peer_ephemeral_key.public_bytes_raw(),
diff --git a/aiootp/keygens/curve_25519/triple_diffie_hellman_client.py b/aiootp/keygens/curve_25519/triple_diffie_hellman_client.py
index c257e7f..894ea16 100644
--- a/aiootp/keygens/curve_25519/triple_diffie_hellman_client.py
+++ b/aiootp/keygens/curve_25519/triple_diffie_hellman_client.py
@@ -135,12 +135,11 @@ class TripleDiffieHellmanClient(FrozenInstance):
         my_identity_key = self._my_identity_key
         my_ephemeral_key = self._my_ephemeral_key
         peer_identity_key = self._peer_identity_key
-        peer_ephemeral_key = self._peer_ephemeral_key = self._sanitize(
-            peer_ephemeral_key,
-        )
+        peer_ephemeral_key = self._sanitize(peer_ephemeral_key)
         shared_key_ad = await my_ephemeral_key.aexchange(peer_identity_key)
         shared_key_bc = await my_identity_key.aexchange(peer_ephemeral_key)
         shared_key_cd = await my_ephemeral_key.aexchange(peer_ephemeral_key)
+        self._peer_ephemeral_key = peer_ephemeral_key
         return self._kdf_type(
             Domains.DH3,
             my_identity_key.public_bytes,
@@ -163,12 +162,11 @@ class TripleDiffieHellmanClient(FrozenInstance):
         my_identity_key = self._my_identity_key
         my_ephemeral_key = self._my_ephemeral_key
         peer_identity_key = self._peer_identity_key
-        peer_ephemeral_key = self._peer_ephemeral_key = self._sanitize(
-            peer_ephemeral_key,
-        )
+        peer_ephemeral_key = self._sanitize(peer_ephemeral_key)
         shared_key_ad = my_ephemeral_key.exchange(peer_identity_key)
         shared_key_bc = my_identity_key.exchange(peer_ephemeral_key)
         shared_key_cd = my_ephemeral_key.exchange(peer_ephemeral_key)
+        self._peer_ephemeral_key = peer_ephemeral_key
         return self._kdf_type(
             Domains.DH3,
             my_identity_key.public_bytes,
diff --git a/aiootp/keygens/curve_25519/triple_diffie_hellman_server.py b/aiootp/keygens/curve_25519/triple_diffie_hellman_server.py
index c31438b..12e6975 100644
--- a/aiootp/keygens/curve_25519/triple_diffie_hellman_server.py
+++ b/aiootp/keygens/curve_25519/triple_diffie_hellman_server.py
@@ -100,18 +100,15 @@ class TripleDiffieHellmanServer(FrozenInstance):
         public & secret values involed in the exchange.
         """
         my_identity_key = self._my_identity_key
-        my_ephemeral_key = (
-            self._my_ephemeral_key
-        ) = await self._key_exchange_type().agenerate()
-        peer_identity_key = self._peer_identity_key = self._sanitize(
-            peer_identity_key,
-        )
-        peer_ephemeral_key = self._peer_ephemeral_key = self._sanitize(
-            peer_ephemeral_key,
-        )
+        peer_identity_key = self._sanitize(peer_identity_key)
+        peer_ephemeral_key = self._sanitize(peer_ephemeral_key)
+        my_ephemeral_key = await self._key_exchange_type().agenerate()
         shared_key_ad = await my_identity_key.aexchange(peer_ephemeral_key)
         shared_key_bc = await my_ephemeral_key.aexchange(peer_identity_key)
         shared_key_cd = await my_ephemeral_key.aexchange(peer_ephemeral_key)
+        self._my_ephemeral_key = my_ephemeral_key
+        self._peer_identity_key = peer_identity_key
+        self._peer_ephemeral_key = peer_ephemeral_key
         return self._kdf_type(
             Domains.DH3,
             peer_identity_key.public_bytes_raw(),
@@ -133,18 +130,15 @@ class TripleDiffieHellmanServer(FrozenInstance):
         public & secret values involed in the exchange.
         """
         my_identity_key = self._my_identity_key
-        my_ephemeral_key = self._my_ephemeral_key = (
-            self._key_exchange_type().generate()
-        )
-        peer_identity_key = self._peer_identity_key = self._sanitize(
-            peer_identity_key,
-        )
-        peer_ephemeral_key = self._peer_ephemeral_key = self._sanitize(
-            peer_ephemeral_key,
-        )
+        peer_identity_key = self._sanitize(peer_identity_key)
+        peer_ephemeral_key = self._sanitize(peer_ephemeral_key)
+        my_ephemeral_key = self._key_exchange_type().generate()
         shared_key_ad = my_identity_key.exchange(peer_ephemeral_key)
         shared_key_bc = my_ephemeral_key.exchange(peer_identity_key)
         shared_key_cd = my_ephemeral_key.exchange(peer_ephemeral_key)
+        self._my_ephemeral_key = my_ephemeral_key
+        self._peer_identity_key = peer_identity_key
+        self._peer_ephemeral_key = peer_ephemeral_key
         return self._kdf_type(
             Domains.DH3,
             peer_identity_key.public_bytes_raw(),
-- 
2.43.0


From 6fe3d169f1309ee555e910b097a9984e6deb12f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:28 +0000
Subject: [PATCH 34/43] fix: refuse a lifetime which is not a number

---
 aiootp/asynchs/clocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/asynchs/clocks.py b/aiootp/asynchs/clocks.py
index 90520fe..f1b9d36 100644
--- a/aiootp/asynchs/clocks.py
+++ b/aiootp/asynchs/clocks.py
@@ -415,7 +415,7 @@ class Clock(FrozenTypedSlots):
         if ttl is None:
             return
         delta = await self.adelta(timestamp, byte_order=byte_order)
-        timestamp_is_expired = delta > ttl
+        timestamp_is_expired = not (delta <= ttl)
         expired_by = delta - ttl
         if timestamp_is_expired:
             raise self.TimestampExpired(self.unit.name, expired_by)
@@ -436,7 +436,7 @@ class Clock(FrozenTypedSlots):
         if ttl is None:
             return
         delta = self.delta(timestamp, byte_order=byte_order)
-        timestamp_is_expired = delta > ttl
+        timestamp_is_expired = not (delta <= ttl)
         expired_by = delta - ttl
         if timestamp_is_expired:
             raise self.TimestampExpired(self.unit.name, expired_by)
-- 
2.43.0


From f1b6e0e8b18268ec0dd40c7e32452ad8bb782c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:28 +0000
Subject: [PATCH 35/43] fix: leave a file unchanged when data to write is not
 bytes

---
 aiootp/generics/byte_io.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/aiootp/generics/byte_io.py b/aiootp/generics/byte_io.py
index d333fca..4a96b96 100644
--- a/aiootp/generics/byte_io.py
+++ b/aiootp/generics/byte_io.py
@@ -239,32 +239,34 @@ class ByteIO(FrozenInstance):
         """
         Writes bytes `data` to the file at `path`.
         """
-        async with aiofiles.open(path, "wb") as f:
-            await f.write(data)
+        with memoryview(data) as view:
+            async with aiofiles.open(path, "wb") as f:
+                await f.write(view)
 
     @staticmethod
     def write(path: t.PathStr, data: bytes) -> None:
         """
         Writes bytes `data` to the file at `path`.
         """
-        with Path(path).open("wb") as f:
-            f.write(data)
+        with memoryview(data) as view, Path(path).open("wb") as f:
+            f.write(view)
 
     @staticmethod
     async def aappend(path: t.PathStr, data: bytes) -> None:
         """
         Appends bytes `data` to the file at `path`.
         """
-        async with aiofiles.open(path, "ab") as f:
-            await f.write(data)
+        with memoryview(data) as view:
+            async with aiofiles.open(path, "ab") as f:
+                await f.write(view)
 
     @staticmethod
     def append(path: t.PathStr, data: bytes) -> None:
         """
         Appends bytes `data` to the file at `path`.
         """
-        with Path(path).open("ab") as f:
-            f.write(data)
+        with memoryview(data) as view, Path(path).open("ab") as f:
+            f.write(view)
 
 
 module_api = dict(
-- 
2.43.0


From a45bf54c43dc4663a33c9eb9d2bfa6aa1b65bdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:21 +0000
Subject: [PATCH 36/43] fix: refuse improper profile values before salt files
 are created

---
 aiootp/databases/profile_tokens.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/aiootp/databases/profile_tokens.py b/aiootp/databases/profile_tokens.py
index 7baea9a..e921a59 100644
--- a/aiootp/databases/profile_tokens.py
+++ b/aiootp/databases/profile_tokens.py
@@ -33,6 +33,19 @@ from aiootp.keygens import Passcrypt
 from .dbdomains import DBDomains
 
 
+def refuse_improper_values(
+    *credentials: bytes,
+    passphrase: bytes,
+    **passcrypt_settings: t.ConfigType | int,
+) -> None:
+    """
+    Raises an exception if profile tokens can't be made from the given
+    values, so that no salt files are created for them.
+    """
+    Passcrypt(tag_size=MIN_KEY_BYTES, **passcrypt_settings)
+    hash_bytes(*credentials, key=passphrase or b"", hasher=sha3_512)
+
+
 class AsyncProfileTokens(FrozenTypedSlots):
     """
     Efficiently stores AsyncDatabase & Database profile token values
@@ -118,6 +131,14 @@ class AsyncProfileTokens(FrozenTypedSlots):
         for users to open a database with only access to potentially
         weakly entropic credentials & the filesystem.
         """
+        refuse_improper_values(
+            salt,
+            aad,
+            username,
+            *credentials,
+            passphrase=passphrase,
+            **passcrypt_settings,
+        )
         device_salt = await self._asummon_device_salt(path=path)
         self._gist = await ahash_bytes(
             DBDomains.GIST,
@@ -231,6 +252,14 @@ class ProfileTokens(FrozenTypedSlots):
         for users to open a database with only access to potentially
         weakly entropic credentials & the filesystem.
         """
+        refuse_improper_values(
+            salt,
+            aad,
+            username,
+            *credentials,
+            passphrase=passphrase,
+            **passcrypt_settings,
+        )
         device_salt = self._summon_device_salt(path=path)
         self._gist = hash_bytes(
             DBDomains.GIST,
-- 
2.43.0


From c7341d15653e95d28cb488e484f9a4a776334225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:07:46 +0000
Subject: [PATCH 37/43] fix: refuse node identifiers which are not bytes

---
 aiootp/randoms/ids/raw_guid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/randoms/ids/raw_guid.py b/aiootp/randoms/ids/raw_guid.py
index 65d1d5a..9009bcd 100644
--- a/aiootp/randoms/ids/raw_guid.py
+++ b/aiootp/randoms/ids/raw_guid.py
@@ -71,9 +71,9 @@ class RawGUID(FrozenInstance):
         length.
         """
         node_id_bytes = self.config.NODE_ID_BYTES
-        if len(node_id) != node_id_bytes:
+        if len(memoryview(node_id)) != node_id_bytes:
             raise Issue.invalid_length("node_id", node_id_bytes)
-        return node_id
+        return bytes(node_id)
 
     def __init__(
         self,
-- 
2.43.0


From cc8337e7738000eeb5b090ca57cdbab648508b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:44:06 +0000
Subject: [PATCH 38/43] fix: let several processes use one salt file at a time

---
 aiootp/_paths.py | 76 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 15 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 07fecf3..842470d 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -26,13 +26,16 @@ from secrets import token_bytes
 from ._typing import Typing as t
 from ._constants import FILENAME_HASH_SLICE
 from ._exceptions import Ignore, Issue
-from .asynchs import aos, wrap_in_executor, MultiConcurrencyGaurd
+from .asynchs import aos, asleep, sleep
+from .asynchs import wrap_in_executor, MultiConcurrencyGaurd
 from .generics import Domains, ahash_bytes, hash_bytes
 from .generics.transform import axi_mix, xi_mix
 
 
 guards: MultiConcurrencyGaurd = MultiConcurrencyGaurd()
 
+UNLOCK_ATTEMPTS: int = 256
+
 
 def RootPath() -> Path:
     """
@@ -185,6 +188,45 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
             salt_file.write(salt)
 
 
+async def aunlock_salt_file(
+    path: Path,
+    use: t.Callable[[], t.Awaitable[t.Any]],
+) -> t.Any:
+    """
+    Returns the result of the `use` of the unlocked salt file located at
+    `path`. The guards of this process aren't known to other processes,
+    so one of those may lock the file again, or may be writing its salt.
+    """
+    for attempts_left in reversed(range(UNLOCK_ATTEMPTS)):
+        await aos.chmod(path, 0o600)
+        try:
+            result = await use()
+            if result or not attempts_left:
+                return result
+        except PermissionError:
+            if not attempts_left:
+                raise
+        await asleep(0.001)
+
+
+def unlock_salt_file(path: Path, use: t.Callable[[], t.Any]) -> t.Any:
+    """
+    Returns the result of the `use` of the unlocked salt file located at
+    `path`. The guards of this process aren't known to other processes,
+    so one of those may lock the file again, or may be writing its salt.
+    """
+    for attempts_left in reversed(range(UNLOCK_ATTEMPTS)):
+        path.chmod(0o600)
+        try:
+            result = use()
+            if result or not attempts_left:
+                return result
+        except PermissionError:
+            if not attempts_left:
+                raise
+        sleep(0.001)
+
+
 async def aread_salt_file(path: Path) -> bytes:
     """
     Returns the cryptographic salt contained within the file located at
@@ -192,15 +234,18 @@ async def aread_salt_file(path: Path) -> bytes:
     """
     path = await wrap_in_executor(path.absolute)()
     target = filename_to_index_key(str(path))
+
+    async def read() -> bytes:
+        async with aiofiles.open(path, "rb") as salt_file:
+            return await salt_file.read()
+
     async with guards.guard(target):
         try:
-            await aos.chmod(path, 0o600)
-            async with aiofiles.open(path, "rb") as salt_file:
-                salt = await salt_file.read()
-                if len(salt) >= 32:
-                    return salt
-                else:
-                    raise Issue.value_must("salt", "be >= 32-bytes")
+            salt = await aunlock_salt_file(path, read)
+            if len(salt) >= 32:
+                return salt
+            else:
+                raise Issue.value_must("salt", "be >= 32-bytes")
         finally:
             await aos.chmod(path, 0o000)
 
@@ -214,8 +259,7 @@ def read_salt_file(path: Path) -> bytes:
     with guards.guard(target):
         try:
             path = Path(path)
-            path.chmod(0o600)
-            salt = path.read_bytes()
+            salt = unlock_salt_file(path, path.read_bytes)
 
             if len(salt) >= 32:
                 return salt
@@ -235,11 +279,14 @@ async def aupdate_salt_file(path: Path, *, salt: bytes) -> None:
 
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
+
+    async def write() -> int:
+        async with aiofiles.open(path, "wb") as salt_file:
+            return await salt_file.write(salt)
+
     async with guards.guard(target):
         try:
-            await aos.chmod(path, 0o600)
-            async with aiofiles.open(path, "wb") as salt_file:
-                await salt_file.write(salt)
+            await aunlock_salt_file(path, write)
         finally:
             await aos.chmod(path, 0o000)
 
@@ -256,8 +303,7 @@ def update_salt_file(path: Path, *, salt: bytes) -> None:
     with guards.guard(target):
         try:
             path = Path(path)
-            path.chmod(0o600)
-            path.write_bytes(salt)
+            unlock_salt_file(path, lambda: path.write_bytes(salt))
         finally:
             path.chmod(0o000)
 
-- 
2.43.0


From b18856ddc2b6f5ff63e31e33e87c7ec270877c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:15:24 +0000
Subject: [PATCH 39/43] fix: let several threads replace the process pool at a
 time

---
 aiootp/asynchs/processes.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aiootp/asynchs/processes.py b/aiootp/asynchs/processes.py
index e5d95b9..fa4e476 100644
--- a/aiootp/asynchs/processes.py
+++ b/aiootp/asynchs/processes.py
@@ -21,6 +21,7 @@ __all__ = ["Processes", "get_process_id"]
 import multiprocessing
 from multiprocessing.context import SpawnContext
 from os import getpid as get_process_id
+from threading import Lock
 from concurrent.futures import process
 from concurrent.futures import ProcessPoolExecutor
 
@@ -40,6 +41,7 @@ class Processes(ConcurrencyInterface):
 
     _default_probe_delay: float = 0.005
     _context: SpawnContext = multiprocessing.get_context("spawn")
+    _pool_lock: t.ContextManager = Lock()
     _type: type = _context.Process
 
     BrokenPool: type = process.BrokenProcessPool
@@ -62,7 +64,11 @@ class Processes(ConcurrencyInterface):
         method can be called to reset the class' pool object with a new
         instance with its default multiprocessing context.
         """
-        cls.pool = cls.pool.__class__(mp_context=cls._context)
+        with cls._pool_lock:
+            # the interpreter isn't safe from a class variable's value
+            # being finalized while the variable's being reassigned
+            former_pool = cls.pool
+            cls.pool = former_pool.__class__(mp_context=cls._context)
 
 
 module_api = dict(
-- 
2.43.0


From 1e57b465dae997020bc7b1e397e24d3d3aa6994c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:33:31 +0000
Subject: [PATCH 40/43] fix: let a refused deletion of a database be repeated

---
 aiootp/databases/async_database.py | 3 +--
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index e29f247..74335ec 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -787,8 +787,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         associated files.
         """
         for metatag in self.metatags:
-            sub_db = await self.ametatag(metatag, preload=False)
-            await sub_db.adelete_database()
+            await self.adelete_metatag(metatag)
         for filename in self.filenames:
             await self._adelete_file(filename, silent=True)
         await self._adelete_file(self._root_filename, silent=True)
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 7d9f3eb..7e95868 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -695,7 +695,7 @@ class Database(DatabaseProperties):
         associated files.
         """
         for metatag in self.metatags:
-            self.metatag(metatag, preload=False).delete_database()
+            self.delete_metatag(metatag)
         for filename in self.filenames:
             self._delete_file(filename, silent=True)
         self._delete_file(self._root_filename, silent=True)
-- 
2.43.0


From f0528749aa5492736645f878d3c0673d62700fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:07:36 +0000
Subject: [PATCH 41/43] fix: clear a deleted asynchronous database in one step

---
 aiootp/databases/async_database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 74335ec..df794ae 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -762,11 +762,11 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         values so a deleted database no longer makes changes to the
         filesystem.
         """
+        await asleep()
         self._manifest.clear()
         self._cache.clear()
         self.__dict__.clear()
         for base in self.__class__.__mro__:
-            await asleep()
             for attr in getattr(base, "__slots__", ()):
                 if hasattr(self, attr):
                     delattr(self, attr)
-- 
2.43.0


From c2086ed85936364c62b606deb5a3d96c1977b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:42:00 +0000
Subject: [PATCH 42/43] fix: buffer all of the data of a cancelled call or none
 of it

---
 aiootp/ciphers/cipher_streams.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiootp/ciphers/cipher_streams.py b/aiootp/ciphers/cipher_streams.py
index 9aee2eb..0611ab6 100644
--- a/aiootp/ciphers/cipher_streams.py
+++ b/aiootp/ciphers/cipher_streams.py
@@ -259,9 +259,12 @@ class AsyncCipherStream(CipherStreamProperties, metaclass=AsyncInit):
             if self._finalizing_now:
                 raise CipherStreamIsClosed
             read = io.BytesIO(data).read
+            _buffer, _ = self._buffer_shortcuts
+            blocks = deque([_buffer[-1]])
+            await self._adigest_data(read, blocks, blocks.append)
             self._byte_count += len(data)
-            _buffer, append = self._buffer_shortcuts
-            await self._adigest_data(read, _buffer, append)
+            _buffer[-1] = blocks.popleft()
+            _buffer.extend(blocks)
         return self
 
 
-- 
2.43.0


From 39f5e3e323231b8f9d4225f4584ae24357e45126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:42:01 +0000
Subject: [PATCH 43/43] fix: let a cancelled key exchange send be repeated

---
 aiootp/keygens/curve_25519/double_diffie_hellman_client.py | 6 ++++--
 aiootp/keygens/curve_25519/triple_diffie_hellman_client.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/aiootp/keygens/curve_25519/double_diffie_hellman_client.py b/aiootp/keygens/curve_25519/double_diffie_hellman_client.py
index 092613e..cd90fae 100644
--- a/aiootp/keygens/curve_25519/double_diffie_hellman_client.py
+++ b/aiootp/keygens/curve_25519/double_diffie_hellman_client.py
@@ -93,8 +93,10 @@ class DoubleDiffieHellmanClient(FrozenInstance):
         Receives the identity public key of the intended server & returns
         the instance's ephemeral public key to be sent to the server.
         """
-        self._peer_identity_key = self._sanitize(peer_identity_key)
-        self._my_ephemeral_key = await self._key_exchange_type().agenerate()
+        peer_identity_key = self._sanitize(peer_identity_key)
+        my_ephemeral_key = await self._key_exchange_type().agenerate()
+        self._peer_identity_key = peer_identity_key
+        self._my_ephemeral_key = my_ephemeral_key
         return self._my_ephemeral_key.public_bytes
 
     def send(self, /, peer_identity_key: t.PublicKeyType | bytes) -> bytes:
diff --git a/aiootp/keygens/curve_25519/triple_diffie_hellman_client.py b/aiootp/keygens/curve_25519/triple_diffie_hellman_client.py
index 894ea16..456e97f 100644
--- a/aiootp/keygens/curve_25519/triple_diffie_hellman_client.py
+++ b/aiootp/keygens/curve_25519/triple_diffie_hellman_client.py
@@ -98,8 +98,10 @@ class TripleDiffieHellmanClient(FrozenInstance):
         the instance's identity & ephemeral public keys to be sent to the
         server.
         """
-        self._peer_identity_key = self._sanitize(peer_identity_key)
-        self._my_ephemeral_key = await self._key_exchange_type().agenerate()
+        peer_identity_key = self._sanitize(peer_identity_key)
+        my_ephemeral_key = await self._key_exchange_type().agenerate()
+        self._peer_identity_key = peer_identity_key
+        self._my_ephemeral_key = my_ephemeral_key
         return (
             self._my_identity_key.public_bytes,
             self._my_ephemeral_key.public_bytes,
-- 
2.43.0

