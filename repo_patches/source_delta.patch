From 5a3e842a4709116c9ec880e41396c9582c42070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:32 +0000
Subject: [PATCH 1/9] fix: expire cached ephemeral keys after the configured
 lifetime

The expiry check ran inside the cached function, so it was skipped for any
recipient whose key was still in the cache.
---
 golem_messages/cryptography.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/golem_messages/cryptography.py b/golem_messages/cryptography.py
index 20f3152..13d79bb 100644
--- a/golem_messages/cryptography.py
+++ b/golem_messages/cryptography.py
@@ -254,7 +254,6 @@ class ECIESKeyManager:
 
         return enc_key, mac_key
 
-    @lru_cache(maxsize=1024)
     def get_ephem_key(self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
         """
         Get ephemeral elliptic curve key and derived keys for encryption and
@@ -266,9 +265,13 @@ class ECIESKeyManager:
             - public key with leading '\x04' byte (65 bytes)
         """
         if self.last_cleanup_time < time.time() - self.timeout:
-            ECIESKeyManager.get_ephem_key.cache_clear()
+            ECIESKeyManager._make_ephem_key.cache_clear()
             self.last_cleanup_time = time.time()
 
+        return self._make_ephem_key(raw_pubkey)
+
+    @lru_cache(maxsize=1024)
+    def _make_ephem_key(self, raw_pubkey: bytes) -> Tuple[bytes, bytes, bytes]:
         ephem = HashablePrivateKey()
         ephem_raw_pubkey = ephem.public_key.format(compressed=False)
         pubkey = PublicKey(b'\x04' + raw_pubkey)
-- 
2.43.0


From 1c0ab3924c30c00d2f67efe1871a8c588b143061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:12 +0000
Subject: [PATCH 2/9] fix: keep the received connection id of
 StartSessionResponse

---
 golem_messages/message/tasks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index 7ddc479..e785a92 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -723,8 +723,9 @@ class StartSessionResponse(base.Message):
            an answer for a request to start task session
         :param uuid conn_id: connection id for reference
         """
-        self.conn_id = conn_id
         super().__init__(**kwargs)
+        if self.conn_id is None:
+            self.conn_id = conn_id
 
 
 @library.register(TASK_MSG_BASE + 26)
-- 
2.43.0


From c21464aff0730c2ed125ad114430e9dbd4594505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:26 +0000
Subject: [PATCH 3/9] fix: accept port 65535

---
 golem_messages/validators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/validators.py b/golem_messages/validators.py
index 58129dc..72e414c 100644
--- a/golem_messages/validators.py
+++ b/golem_messages/validators.py
@@ -53,7 +53,7 @@ def validate_positive_integer(field_name, value):
 
 def validate_port(field_name, value):
     validate_integer(field_name, value)
-    if not 0 < value < (2**16-1):
+    if not 0 < value <= (2**16-1):
         raise exceptions.FieldError(
             "Port not in range 1, 2**16-1",
             field=field_name,
-- 
2.43.0


From 4769124905b616c050274779a3a1f98c0ab3b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:40 +0000
Subject: [PATCH 4/9] fix: report a wrong file category as a field error

---
 golem_messages/message/concents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/message/concents.py b/golem_messages/message/concents.py
index e198544..2f12746 100644
--- a/golem_messages/message/concents.py
+++ b/golem_messages/message/concents.py
@@ -169,7 +169,7 @@ class FileTransferToken(base.Message):
         }
 
         def validate_category(self, value):
-            if value not in self.Category:
+            if value not in list(self.Category):
                 raise exceptions.FieldError(
                     "`category` must be one of %s, got: " % [
                         c for c in self.Category],
-- 
2.43.0


From b6a94b6ab025b24b05076786a9147b86a4d87319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:55 +0000
Subject: [PATCH 5/9] fix: report malformed promissory note signatures as
 described

---
 golem_messages/datastructures/promissory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/datastructures/promissory.py b/golem_messages/datastructures/promissory.py
index 1fd792b..c7c88ab 100644
--- a/golem_messages/datastructures/promissory.py
+++ b/golem_messages/datastructures/promissory.py
@@ -96,7 +96,7 @@ class PromissoryNote:
                 "The provided promissory note sig: `{}` has wrong type. "
                 "Must be a tuple with format: {}".format(
                     promissory_note_sig,
-                    PromissoryNoteSig._field_types,  # noqa pylint: disable=protected-access
+                    PromissoryNoteSig.__annotations__,
                 )
             ) from e
 
-- 
2.43.0


From 5d87a6ddd8f7a5982f1a9cb8535fbaa563c3363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:10 +0000
Subject: [PATCH 6/9] fix: encode empty bytes to an empty hexadecimal text

---
 golem_messages/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/golem_messages/utils.py b/golem_messages/utils.py
index 2e867d1..6c1e493 100644
--- a/golem_messages/utils.py
+++ b/golem_messages/utils.py
@@ -22,8 +22,6 @@ def encode_hex(b):
     if isinstance(b, str):
         b = bytes(b, 'utf-8')
     if isinstance(b, (bytes, bytearray)):
-        if b[0] == b'0' and b[1] == b'x':
-            b = b[2:]
         return str(binascii.hexlify(b), 'utf-8')
     raise TypeError('Value must be an instance of str or bytes')
 
-- 
2.43.0


From cdcc9b708f779cf49275ca19c42a8a3f0d32b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:25 +0000
Subject: [PATCH 7/9] fix: report content that cannot be validated as a library
 error

---
 golem_messages/message/tasks.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index e785a92..7e98359 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -202,7 +202,14 @@ class TaskMessage(base.Message):
         instance: TaskMessage = super().deserialize_with_header(
             header, data, *args, **kwargs
         )
-        instance.is_valid()
+        try:
+            instance.is_valid()
+        except exceptions.MessageError:
+            raise
+        except Exception as e:
+            raise exceptions.ValidationError(
+                "Validation of `%s` failed" % cls.__name__
+            ) from e
         return instance
 
     def is_valid(self):  # noqa pylint:disable=no-self-use
@@ -375,12 +382,18 @@ class TaskToCompute(
         )
         try:
             instance.verify_ethsig()
+            instance.validate_taskid()
         except exceptions.InvalidSignature:
             raise exceptions.InvalidSignature(
                 "ethereum address signature verification failed for `%s`"
                 % instance.requestor_ethereum_public_key
             )
-        instance.validate_taskid()
+        except exceptions.MessageError:
+            raise
+        except Exception as e:
+            raise exceptions.ValidationError(
+                "Validation of `%s` failed" % cls.__name__
+            ) from e
         return instance
 
     def generate_ethsig(
-- 
2.43.0


From 62e36fcf564662add322a55012c69ab859ac1032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 8/9] fix: refuse nested messages whose header names another
 kind

---
 golem_messages/message/base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index e939d2b..fa43ae4 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -361,8 +361,17 @@ class Message:
                 value=value,
             )
         try:
-            result = slot_definition.get_class()(
-                header=datastructures.MessageHeader(*nested.header),
+            klass = slot_definition.get_class()
+            header = datastructures.MessageHeader(*nested.header)
+            # The signature of a message of another kind proves nothing
+            if header.type_ != library.get_type(klass):
+                raise exceptions.FieldError(
+                    "Should be a nested {}".format(klass.__name__),
+                    field=key,
+                    value=value,
+                )
+            result = klass(
+                header=header,
                 sig=nested.sig,
                 slots=nested.slots,
             )
-- 
2.43.0


From de54243b5007dc58c9ee1a670dad8b3dc772d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:01 +0000
Subject: [PATCH 9/9] fix: accept ready-made parts of provider statistics

---
 golem_messages/datastructures/stats.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/golem_messages/datastructures/stats.py b/golem_messages/datastructures/stats.py
index 7cb6001..8d41ab3 100644
--- a/golem_messages/datastructures/stats.py
+++ b/golem_messages/datastructures/stats.py
@@ -178,19 +178,27 @@ class ProviderStats(datastructures.Container):
     }
 
     @classmethod
-    def deserialize_blkio_stats(cls, value: dict) -> Optional[BlockIoStats]:
+    def deserialize_blkio_stats(cls, value) -> Optional[BlockIoStats]:
+        if isinstance(value, BlockIoStats):
+            return value
         return BlockIoStats(**value) if value else None
 
     @classmethod
-    def deserialize_cpu_stats(cls, value: dict) -> Optional[CpuStats]:
+    def deserialize_cpu_stats(cls, value) -> Optional[CpuStats]:
+        if isinstance(value, CpuStats):
+            return value
         return CpuStats(**value) if value else None
 
     @classmethod
-    def deserialize_memory_stats(cls, value: dict) -> Optional[MemoryStats]:
+    def deserialize_memory_stats(cls, value) -> Optional[MemoryStats]:
+        if isinstance(value, MemoryStats):
+            return value
         return MemoryStats(**value) if value else None
 
     @classmethod
-    def deserialize_pids_stats(cls, value: dict) -> Optional[PidStats]:
+    def deserialize_pids_stats(cls, value) -> Optional[PidStats]:
+        if isinstance(value, PidStats):
+            return value
         return PidStats(**value) if value else None
 
     @classmethod
-- 
2.43.0

