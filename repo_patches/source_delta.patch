From 87e7bfb568e643431d13aa768987d77e059e82a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:00 +0000
Subject: [PATCH 01/54] fix: compare sample rates of both records, and time gap
 in both directions, when merging

---
 src/simplemseed/mseed3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f160ab2..f3c516e 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -817,7 +817,7 @@ def areCompatible(ms3a: MSeed3Record, ms3b: MSeed3Record, timeTolFactor=0.5) ->
     """
     out = True
     out = out and ms3a.identifier == ms3b.identifier
-    out = out and ms3b.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
+    out = out and ms3a.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
     out = out and ms3a.header.encoding == ms3b.header.encoding
     out = out and ms3a.header.publicationVersion == ms3b.header.publicationVersion
     out = out and ms3a.endtime < ms3b.starttime
@@ -827,7 +827,7 @@ def areCompatible(ms3a: MSeed3Record, ms3b: MSeed3Record, timeTolFactor=0.5) ->
         )
         out = (
             out
-            and (ms3b.starttime - predNextStart).total_seconds()
+            and abs((ms3b.starttime - predNextStart).total_seconds())
             < ms3a.header.samplePeriod * timeTolFactor
         )
     return out
-- 
2.43.0


From 69e31b59c28cfc6b6fbcd8d44273d82960c1a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:06 +0000
Subject: [PATCH 02/54] fix: yield pending merged record before a record that
 cannot be merged

---
 src/simplemseed/mseed3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f3c516e..dd8641e 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -797,6 +797,10 @@ def readMSeed3Records(
                 else:
                     prev = mlist[0]
             else:
+                if prev is not None:
+                    # keep file order, and only merge neighbors
+                    yield prev
+                    prev = None
                 yield ms3
         else:
             # failed match, can skip ahead to next record
-- 
2.43.0


From 419cc78e36ce55ff8331a4994813d28254ab3689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:31 +0000
Subject: [PATCH 03/54] fix: raise on miniseed3 record truncated in identifier,
 extra headers or data, even without crc check

---
 src/simplemseed/mseed3.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index dd8641e..8c12a9e 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -726,6 +726,10 @@ def unpackMSeed3Record(recordBytes, check_crc=True):
     if check_crc:
         crc = crc32c.crc32c(encodedDataBytes, crc)
     offset += ms3header.dataLength
+    if len(recordBytes) < offset:
+        raise Miniseed3Exception(
+            f"Not enough bytes for record: {len(recordBytes)} < {offset}"
+        )
     if check_crc and ms3header.crc != crc:
         raise Miniseed3Exception(f"crc fail:  Calc: {crc}  Header: {ms3header.crc}")
     ms3Rec = MSeed3Record(
@@ -782,6 +786,12 @@ def readMSeed3Records(
                     raise Miniseed3Exception(
                         f"crc fail:  Calc: {crc}  Header: {ms3header.crc}"
                     )
+            if (
+                len(identifierBytes) < ms3header.identifierLength
+                or len(ehBytes) < ms3header.extraHeadersLength
+                or len(encodedDataBytes) < ms3header.dataLength
+            ):
+                raise Miniseed3Exception("Not enough bytes for record, file truncated")
 
             ms3 = MSeed3Record(
                 ms3header, identifier, encodedDataBytes, extraHeaders=extraHeadersStr
-- 
2.43.0


From 6cddcf74427d911011e8c2ed0c73eb9f32a3bf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:35 +0000
Subject: [PATCH 04/54] fix: raise Miniseed3Exception if identifier or extra
 headers are not UTF-8

---
 src/simplemseed/mseed3.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 8c12a9e..a28c78f 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -698,6 +698,13 @@ def unpackMSeed3FixedHeader(recordBytes):
     return ms3header
 
 
+def _decodeUTF8(sectionBytes, name):
+    try:
+        return sectionBytes.decode("utf-8")
+    except UnicodeDecodeError as e:
+        raise Miniseed3Exception(f"Unable to decode {name} as UTF-8: {e}") from e
+
+
 def unpackMSeed3Record(recordBytes, check_crc=True):
     """
     Unpack a miniseed3 record from bytes, optionally verifying the CRC.
@@ -714,12 +721,12 @@ def unpackMSeed3Record(recordBytes, check_crc=True):
     idBytes = recordBytes[offset : offset + ms3header.identifierLength]
     if check_crc:
         crc = crc32c.crc32c(idBytes, crc)
-    identifier = idBytes.decode("utf-8")
+    identifier = _decodeUTF8(idBytes, "identifier")
     offset += ms3header.identifierLength
     ehBytes = recordBytes[offset : offset + ms3header.extraHeadersLength]
     if check_crc:
         crc = crc32c.crc32c(ehBytes, crc)
-    extraHeadersStr = ehBytes.decode("utf-8")
+    extraHeadersStr = _decodeUTF8(ehBytes, "extra headers")
     offset += ms3header.extraHeadersLength
 
     encodedDataBytes = recordBytes[offset : offset + ms3header.dataLength]
@@ -772,13 +779,13 @@ def readMSeed3Records(
         identifierBytes = fileptr.read(ms3header.identifierLength)
         if check_crc:
             crc = crc32c.crc32c(identifierBytes, crc)
-        identifier = identifierBytes.decode("utf-8")
+        identifier = _decodeUTF8(identifierBytes, "identifier")
         if matchPat is None or matchPat.search(identifier) is not None:
             # match pass
             ehBytes = fileptr.read(ms3header.extraHeadersLength)
             if check_crc:
                 crc = crc32c.crc32c(ehBytes, crc)
-            extraHeadersStr = ehBytes.decode("utf-8")
+            extraHeadersStr = _decodeUTF8(ehBytes, "extra headers")
             encodedDataBytes = fileptr.read(ms3header.dataLength)
             if check_crc:
                 crc = crc32c.crc32c(encodedDataBytes, crc)
-- 
2.43.0


From cefd8e58e0d33277618984b2a6056f9d1387ca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:40 +0000
Subject: [PATCH 05/54] fix: deleting extra headers leaves the record readable
 and packable

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index a28c78f..bc8ad43 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -416,7 +416,7 @@ class MSeed3Record:
 
     @eh.deleter
     def eh(self):
-        del self._eh
+        self._eh = None
         self.header.extraHeadersLength = 0
 
     def parseIdentifier(self) -> FDSNSourceId:
-- 
2.43.0


From e086dc3b1f51c71f4dc34fc4cffda358bc0be866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:44 +0000
Subject: [PATCH 06/54] fix: pack extra headers of any json type instead of
 dropping them

---
 src/simplemseed/mseed3.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index bc8ad43..72b783b 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -538,12 +538,10 @@ class MSeed3Record:
         self.header.identifierLength = len(identifierBytes)
         if self._eh is None:
             extraHeadersStr = ""
-        elif isinstance(self._eh, dict):
-            extraHeadersStr = json.dumps(self._eh)
         elif isinstance(self._eh, str):
             extraHeadersStr = self._eh
         else:
-            extraHeadersStr = ""
+            extraHeadersStr = json.dumps(self._eh)
         extraHeadersBytes = extraHeadersStr.encode("UTF-8")
         self.header.extraHeadersLength = len(extraHeadersBytes)
         if self._data is None:
-- 
2.43.0


From e424150bf70d7afbe03e47b49238134cd46c0da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 07/54] fix: decompressedRecord does not share extra headers
 with its source

---
 src/simplemseed/mseed3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 72b783b..9cd43f5 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -1,3 +1,4 @@
+import copy
 import struct
 from array import array
 from datetime import datetime, timedelta, timezone
@@ -471,7 +472,7 @@ class MSeed3Record:
         data = self.decompress()
         header = self.header.clone()
         header.encoding = mseed3EncodingFromNumpyDT(data.dtype)
-        return MSeed3Record(header, self.identifier, data, self._eh)
+        return MSeed3Record(header, self.identifier, data, copy.deepcopy(self._eh))
 
     @property
     def starttime(self):
-- 
2.43.0


From 6d71fde952d5c5990ca6a40f18930ea370fe206b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:53 +0000
Subject: [PATCH 08/54] fix: getSize of a record without data

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 9cd43f5..bda1e94 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -507,7 +507,7 @@ class MSeed3Record:
         if (
             self.header.identifierLength is not None
             and self.header.extraHeadersLength is not None
-            and self.header.dataLength
+            and self.header.dataLength is not None
         ):
             return (
                 FIXED_HEADER_SIZE
-- 
2.43.0


From e95e5dd1ef5093194ae5af48de5c75c2199887f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:16 +0000
Subject: [PATCH 09/54] fix: sample period of a header without a sample rate is
 zero instead of dividing by it

---
 src/simplemseed/mseed3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index bda1e94..855a4c8 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -181,6 +181,9 @@ class MSeed3Header:
     @property
     def samplePeriod(self):
         """ Sampling as a period, number of seconds between samples."""
+        if self.sampleRatePeriod == 0:
+            # no time series, ie header-only record
+            return 0.0
         return (
             -1 * self.sampleRatePeriod
             if self.sampleRatePeriod < 0
-- 
2.43.0


From 9ec92129995f647fdd931bbc2a2c2632597d6d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:21 +0000
Subject: [PATCH 10/54] fix: start time of a record that starts in a leap
 second

---
 src/simplemseed/mseed3.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 855a4c8..5528e17 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -241,13 +241,11 @@ class MSeed3Header:
             1,
             hour=self.hour,
             minute=self.minute,
-            second=self.second,
             microsecond=int(self.nanosecond / 1000),
             tzinfo=timezone.utc,
         )
-        # start Jan 1, so shift by dayOfYear minus 1
-        doyMinusOne = timedelta(days=self.dayOfYear - 1)
-        return st + doyMinusOne
+        # start Jan 1, so shift by dayOfYear minus 1, also second may be 60
+        return st + timedelta(days=self.dayOfYear - 1, seconds=self.second)
 
     @starttime.setter
     def starttime(self, stime):
-- 
2.43.0


From 3bb7ed111a702ac8efd7979b215aab58458510df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:25 +0000
Subject: [PATCH 11/54] fix: hasExtraHeaders for empty json object with
 whitespace and for short json

---
 src/simplemseed/mseed3.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 5528e17..b8738ef 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -487,13 +487,10 @@ class MSeed3Record:
 
     def hasExtraHeaders(self):
         """ True if record contains extra headers, ie json is not empty."""
-        if self._eh is None:
-            return False
-        if isinstance(self._eh, dict) and len(self._eh) > 0:
-            return True
-        if isinstance(self._eh, str) and len(self._eh) > 2:
-            return True
-        return False
+        eh = self._eh
+        if isinstance(eh, str):
+            eh = json.loads(eh) if len(eh) > 0 else {}
+        return eh is not None and eh != {}
 
     def clone(self):
         return unpackMSeed3Record(self.pack())
-- 
2.43.0


From 621d5cc6421754e5ab0e6cba5f3a10b33d0b1bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 12/54] fix: reject int64 samples below the 32 bit range

---
 src/simplemseed/mseed3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index b8738ef..d76355e 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -364,8 +364,11 @@ class MSeed3Record:
             # special case for int64
             if np.issubdtype(data.dtype, np.integer) and \
                     not np.can_cast(data.dtype, np.int32, casting="safe"):
-                if abs(np.max(data)) > np.iinfo(np.int32).max:
-                    raise Miniseed3Exception(f"max value of numpy array, {np.max(data)} cannot fit into 32 bit integer")
+                i32 = np.iinfo(np.int32)
+                if len(data) > 0 and (np.max(data) > i32.max or np.min(data) < i32.min):
+                    raise Miniseed3Exception(
+                        f"value in numpy array, {np.min(data)} to {np.max(data)}, cannot fit into 32 bit integer"
+                    )
                 data = data.astype(np.int32)
 
             encoding = mseed3EncodingFromNumpyDT(data.dtype)
-- 
2.43.0


From a4fda6e4683be87b7f675439f6589ea4453c37c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:56 +0000
Subject: [PATCH 13/54] fix: steim compression rejects values below the 32 bit
 range

---
 src/simplemseed/steim1.py | 7 +++++--
 src/simplemseed/steim2.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index cf44750..d91b790 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -226,8 +226,11 @@ def encodeSteim1FrameBlock(
             raise SteimException(f"Cannot steim1 compress floating point numpy array: {samples.dtype}")
         if np.issubdtype(samples.dtype, np.integer) and \
                 not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
+            i32 = np.iinfo(np.int32)
+            if np.max(samples) > i32.max or np.min(samples) < i32.min:
+                raise SteimException(
+                    f"value in numpy array, {np.min(samples)} to {np.max(samples)}, cannot fit into 32 bit integer"
+                )
             samples = samples.astype(np.int32)
     elif isinstance(samples[0], float):
         raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index edfc702..6ddd41f 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -328,8 +328,11 @@ def encodeSteim2FrameBlock(
             raise SteimException(f"Cannot steim2 compress floating point numpy array: {samples.dtype}")
         if np.issubdtype(samples.dtype, np.integer) and \
                 not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
+            i32 = np.iinfo(np.int32)
+            if np.max(samples) > i32.max or np.min(samples) < i32.min:
+                raise SteimException(
+                    f"value in numpy array, {np.min(samples)} to {np.max(samples)}, cannot fit into 32 bit integer"
+                )
             samples = samples.astype(np.int32)
     if isinstance(samples[0], float):
         raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
-- 
2.43.0


From b19f4fe41885152daf53ac04e02dd3232e0d55fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:01 +0000
Subject: [PATCH 14/54] fix: steim compression of 8 and 16 bit arrays takes
 differences in 32 bits

---
 src/simplemseed/steim1.py | 3 ++-
 src/simplemseed/steim2.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index d91b790..f7497b8 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -231,7 +231,8 @@ def encodeSteim1FrameBlock(
                 raise SteimException(
                     f"value in numpy array, {np.min(samples)} to {np.max(samples)}, cannot fit into 32 bit integer"
                 )
-            samples = samples.astype(np.int32)
+        # widen, so differences do not wrap
+        samples = samples.astype(np.int32)
     elif isinstance(samples[0], float):
         raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
 
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index 6ddd41f..d432e09 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -333,7 +333,8 @@ def encodeSteim2FrameBlock(
                 raise SteimException(
                     f"value in numpy array, {np.min(samples)} to {np.max(samples)}, cannot fit into 32 bit integer"
                 )
-            samples = samples.astype(np.int32)
+        # widen, so differences do not wrap
+        samples = samples.astype(np.int32)
     if isinstance(samples[0], float):
         raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
 
-- 
2.43.0


From fe7065bbc3c853cd884f2a5f957d00446ce4ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 15/54] fix: steim compression rejects lists with floats after
 the first sample or values beyond 32 bits

---
 src/simplemseed/steim1.py | 9 +++++----
 src/simplemseed/steim2.py | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index f7497b8..bcc6561 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -219,11 +219,14 @@ def encodeSteim1FrameBlock(
         )
 
     # check if numpy array
+    if not isinstance(samples, np.ndarray):
+        # list, a float anywhere in it makes the array floating point
+        samples = np.array(samples)
     if isinstance(samples, np.ndarray):
         if len(np.shape(samples)) != 1:
             raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
-        if np.issubdtype(samples.dtype, np.floating):
-            raise SteimException(f"Cannot steim1 compress floating point numpy array: {samples.dtype}")
+        if not np.issubdtype(samples.dtype, np.integer):
+            raise SteimException(f"Cannot steim1 compress, samples not all 32 bit integers: {samples.dtype}")
         if np.issubdtype(samples.dtype, np.integer) and \
                 not np.can_cast(samples.dtype, np.int32, casting="safe"):
             i32 = np.iinfo(np.int32)
@@ -233,8 +236,6 @@ def encodeSteim1FrameBlock(
                 )
         # widen, so differences do not wrap
         samples = samples.astype(np.int32)
-    elif isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
 
     # all encoding will be contained within a frame block
     # Steim encoding 1
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index d432e09..baadf50 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -321,11 +321,14 @@ def encodeSteim2FrameBlock(
 
     # check if numpy array
     # check if numpy array
+    if not isinstance(samples, np.ndarray):
+        # list, a float anywhere in it makes the array floating point
+        samples = np.array(samples)
     if isinstance(samples, np.ndarray):
         if len(np.shape(samples)) != 1:
             raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
-        if np.issubdtype(samples.dtype, np.floating):
-            raise SteimException(f"Cannot steim2 compress floating point numpy array: {samples.dtype}")
+        if not np.issubdtype(samples.dtype, np.integer):
+            raise SteimException(f"Cannot steim2 compress, samples not all 32 bit integers: {samples.dtype}")
         if np.issubdtype(samples.dtype, np.integer) and \
                 not np.can_cast(samples.dtype, np.int32, casting="safe"):
             i32 = np.iinfo(np.int32)
@@ -335,8 +338,6 @@ def encodeSteim2FrameBlock(
                 )
         # widen, so differences do not wrap
         samples = samples.astype(np.int32)
-    if isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
 
     # all encoding will be contained within a frame block
     # Steim encoding 2
-- 
2.43.0


From 3b4a9bcfc5fc3457a32beaa4f2b2cb32887a967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:37 +0000
Subject: [PATCH 16/54] fix: building codec error messages does not fail
 joining text and numbers

---
 src/simplemseed/seedcodec.py | 2 +-
 src/simplemseed/steim1.py    | 4 ++--
 src/simplemseed/steim2.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index 5eecf7c..ecf82c0 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -244,7 +244,7 @@ def encode(data, encoding=None, littleEndian=True):
             encoding = mseed3EncodingFromArrayTypecode(data.typecode, data.itemsize)
         else:
             raise UnsupportedCompressionType(
-                "Unable to guess encoding for data, encoding is " + encoding
+                f"Unable to guess encoding for data, encoding is {encoding}"
             )
     try:
         compCode = arrayTypecodeFromMSeed(encoding)
diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index bcc6561..a1ea402 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -211,11 +211,11 @@ def encodeSteim1FrameBlock(
         raise SteimException("number of frames is a negative value")
 
     if offset < 0:
-        raise SteimException("Offset cannot be negatuve: " + offset)
+        raise SteimException(f"Offset cannot be negative: {offset}")
 
     if offset >= len(samples):
         raise SteimException(
-            "Offset bigger than samples array: " + offset + " >= " + len(samples)
+            f"Offset bigger than samples array: {offset} >= {len(samples)}"
         )
 
     # check if numpy array
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index baadf50..9a1d03a 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -431,7 +431,7 @@ def encodeSteim2FrameBlock(
             nibble = 2
         else:
             raise SteimException(
-                "Unable to encode " + nbits + " bit difference in Steim2 format"
+                f"Unable to encode {nbits} bit difference in Steim2 format"
             )
 
         word = steimPackWord(diff, nbits, ndiff, bitmask, submask)
-- 
2.43.0


From 530fc59237d9e0c486ffef85f82405850ca40d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:42 +0000
Subject: [PATCH 17/54] fix: decodeSteim1 checks first nibble of each frame
 like decodeSteim2

---
 src/simplemseed/steim1.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index a1ea402..a9dd853 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -119,7 +119,11 @@ def extractSteim1Samples(
     offset: int,
 ) -> list:
     # get nibbles
-    nibbles = np.int32(getUint32(dataBytes, offset, False))
+    nibbles = getUint32(dataBytes, offset, False)
+    headNib = (nibbles >> 30) & 0x03
+    if headNib != 0:
+        raise CodecException(f"nibble bytes must start with 00, but was {headNib:02b}")
+    nibbles = np.int32(nibbles)
     currNibble = np.int32(0)
     temp = []  # 4 samples * 16 longwords, can't be more than 64
 
-- 
2.43.0


From b5fb661db6f0d1163a1c70a744433ee2d3cd0432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 18/54] fix: unused words in first steim frame are not decoded
 as samples

---
 src/simplemseed/steim1.py | 6 +++---
 src/simplemseed/steim2.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index a9dd853..1c8c585 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -76,7 +76,7 @@ def decodeSteim1(
             firstData = 3  # d(0) is byte 3 for frame 0
 
             # if bias was zero, then we want the first sample to be X(0) constant
-            if bias == 0:
+            if bias == 0 and len(tempSamples) > 3:
                 lastValue = start - tempSamples[3]  # X(-1) = X(0) - d(0)
 
         for j in range(firstData, len(tempSamples)):
@@ -145,8 +145,8 @@ def extractSteim1Samples(
         # switch (currNibble):
         if currNibble == 0:
             #  ("0 means header info")
-            # only include header info if offset is 0
-            if offset == 0:
+            # only include header info, first 3 words, if offset is 0
+            if offset == 0 and i < 3:
                 temp.append(getInt32(dataBytes, offset + i * 4, False))
                 currNum += 1
         elif currNibble == 1:
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index 9a1d03a..21517b6 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -104,7 +104,7 @@ def decodeSteim2(
             firstData = 3  # d(0) is byte 3 for frame 0
 
             # if bias was zero, then we want the first sample to be X(0) constant
-            if bias == 0:
+            if bias == 0 and len(tempSamples) > 3:
                 lastValue = start - tempSamples[3]  # X(-1) = X(0) - d(0)
 
         for j in range(firstData, len(tempSamples)):
@@ -171,8 +171,8 @@ def extractSteim2Samples(
         # switch (currNibble):
         if currNibble == 0:
             # "0 means header info"
-            # only include header info if offset is 0
-            if offset == 0:
+            # only include header info, first 3 words, if offset is 0
+            if offset == 0 and i < 3:
                 temp[currNum] = getInt32(dataBytes, offset + i * 4, False)
                 currNum += 1
 
-- 
2.43.0


From bc534fe49c1b6f178e4a11b59ceb8b8ca450a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:50 +0000
Subject: [PATCH 19/54] fix: array typecode for 32 bit integer is 4 bytes on
 all platforms

---
 src/simplemseed/seedcodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index ecf82c0..f04a3d6 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -163,7 +163,7 @@ def arrayTypecodeFromMSeed(encoding: int) -> str:
     if encoding == SHORT:
         return "h"
     if encoding == INTEGER:
-        return "l"
+        return "i"
     if encoding == FLOAT:
         return "f"
     if encoding == DOUBLE:
-- 
2.43.0


From b5fe735c950fcd435ebaf6c35d0212cb18c984f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:53 +0000
Subject: [PATCH 20/54] fix: source id with location None has empty location
 code

---
 src/simplemseed/fdsnsourceid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index d214a5e..14fa38c 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -148,6 +148,8 @@ class FDSNSourceId:
             self.networkCode = networkCode.networkCode
         else:
             self.networkCode = networkCode
+        if locationCode is None:
+            locationCode = ""
         self.stationCode = stationCode
         self.locationCode = locationCode
         self.bandCode = bandCode
-- 
2.43.0


From 85eecd4512a099bb6aa1299546c653fd92843e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:58 +0000
Subject: [PATCH 21/54] fix: source id codes allow only ASCII digits

---
 src/simplemseed/fdsnsourceid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 14fa38c..fa68ddf 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -14,29 +14,29 @@ from .version import VERSION
 
 
 
-TEMP_NET_SEED = re.compile(r"[\dXYZ][A-Z\d]")
+TEMP_NET_SEED = re.compile(r"[0-9XYZ][A-Z0-9]")
 """
 Older SEED style temp networks, like XD. Starts with XYZ or a digit.
 """
 
-TEMP_NET_MAPPING = re.compile(r"[\dXYZ][A-Z\d]\d{4}")
+TEMP_NET_MAPPING = re.compile(r"[0-9XYZ][A-Z0-9][0-9]{4}")
 """
 Mapping of older SEED style temp networks to include start year,
 like XD maps to XD1994. Starts with XYZ or a digit and ends with 4 digit year.
 """
 
-TEMP_NET_CONVENTION = re.compile(r"[A-Z\d]{1,4}\d{4}")
+TEMP_NET_CONVENTION = re.compile(r"[A-Z0-9]{1,4}[0-9]{4}")
 """
 Network codes for temporary networks convention, ends with 4 digit year.
 """
 
-NET_VALID = re.compile(r"[A-Z\d]{1,8}")
+NET_VALID = re.compile(r"[A-Z0-9]{1,8}")
 "Regular expression for network code"
-STATION_VALID = re.compile(r"[A-Z\d-]{1,8}")
+STATION_VALID = re.compile(r"[A-Z0-9-]{1,8}")
 "Regular expression for station code"
-LOCATION_VALID = re.compile(r"[A-Z\d-]{0,8}")
+LOCATION_VALID = re.compile(r"[A-Z0-9-]{0,8}")
 "Regular expression for location code"
-SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z\d]+") # current spec has no length restrictions
+SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z0-9]+") # current spec has no length restrictions
 "Regular expression for source and subsource codes"
 
 FDSN_PREFIX = "FDSN:"
-- 
2.43.0


From 199183bc65d7274fd6ec850d899afee0e5d1bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:03 +0000
Subject: [PATCH 22/54] fix: refuse channel codes with extra separators or
 trailing text in fromNslc, parseNslc

---
 src/simplemseed/fdsnsourceid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index fa68ddf..0c45711 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -228,13 +228,13 @@ class FDSNSourceId:
         Optionally give the start year of the network, which will be appended
         if it is a SEED-style temporary network like XD.
         """
-        if len(channelCode) == 3:
+        if len(channelCode) == 3 and SEP not in channelCode:
             band = channelCode[0]
             source = channelCode[1]
             subsource = channelCode[2]
         else:
-            b_s_ss = r"(\w)_(\w+)_(\w*)"
-            match = re.match(b_s_ss, channelCode)
+            b_s_ss = r"([^\W_])_([^\W_]+)_([^\W_]*)"
+            match = re.fullmatch(b_s_ss, channelCode)
             if match:
                 band = match[1]
                 source = match[2]
@@ -254,7 +254,7 @@ class FDSNSourceId:
         location, channel, wheret the 4 sections are separated by the given
         separator, which defaults to a dot, '.'.
         """
-        items = nslc.split(sep)
+        items = nslc.split(sep, 3)
         if len(items) < 4:
             raise FDSNSourceIdException(
                 f"channel nslc must have 4 items separated by '{sep}': {nslc}"
-- 
2.43.0


From be3b25968801d249d68951d9b7b58b3e7a906c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:09 +0000
Subject: [PATCH 23/54] fix: response of exactly 10 seconds is broadband, as in
 band code table

---
 src/simplemseed/fdsnsourceid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 0c45711..4a5817a 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -562,19 +562,19 @@ def bandCodeForRate(
     if sampRate >= 5000:
         return "J"
     if 1000 <= sampRate < 5000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "F"
         return "G"
     if 250 <= sampRate < 1000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "C"
         return "D"
     if 80 <= sampRate < 250:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "H"
         return "E"
     if 10 <= sampRate < 80:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "B"
         return "S"
     if 1 < sampRate < 10:
-- 
2.43.0


From 72a058a15287b2bedee3977efdc54a79c69181a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 24/54] fix: sample rate factor and multiplier in miniseed2
 header are signed

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 639fb8b..c702bf5 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -573,7 +573,7 @@ def unpackMiniseedHeader(recordBytes, endianChar=">"):
         timeCorr,
         dataOffset,
         blocketteOffset,
-    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHHHBBBBiHH", recordBytes[0:48])
+    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHhhBBBBiHH", recordBytes[0:48])
     if endianChar == ">":
         byteorder = BIG_ENDIAN
     else:
-- 
2.43.0


From 410d50295adee5ee1a5e402cc5d5e1150e29d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 25/54] fix: pack data quality, flags, time correction and
 counts of miniseed2 header

---
 src/simplemseed/miniseed.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index c702bf5..a3fd354 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -162,7 +162,7 @@ class MiniseedHeader:
             header,
             0,
             seq,
-            b"D",
+            self.dataquality.ljust(1).encode("UTF-8"),
             b" ",
             sta,
             loc,
@@ -175,12 +175,19 @@ class MiniseedHeader:
         if self.sampleRate != 0 and self.sampRateFactor == 0 and self.sampRateMult == 0:
             tempsampRateFactor, tempsampRateMult = self.calcSeedMultipilerFactor()
         struct.pack_into(
-            self.endianChar + "Hhh",
+            self.endianChar + "HhhBBBBiHH",
             header,
             30,
             self.numSamples,
             tempsampRateFactor,
             tempsampRateMult,
+            self.actFlag,
+            self.ioFlag,
+            self.qualFlag,
+            self.numBlockettes,
+            self.timeCorr,
+            self.dataOffset,
+            self.blocketteOffset,
         )
         return header
 
-- 
2.43.0


From 06cfea342f733f2c1aecbb05acca53233d69e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:50 +0000
Subject: [PATCH 26/54] fix: refuse miniseed2 codes and sequence numbers too
 long for their header field

---
 src/simplemseed/miniseed.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index a3fd354..d87fd52 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -152,17 +152,17 @@ class MiniseedHeader:
 
     def pack(self):
         header = bytearray(48)
-        net = self.network.ljust(2).encode("UTF-8")
-        sta = self.station.ljust(5).encode("UTF-8")
-        loc = self.location.ljust(2).encode("UTF-8")
-        chan = self.channel.ljust(3).encode("UTF-8")
-        seq = ("%06d" % self.sequence_number).encode("UTF-8")
+        net = self._fixedWidth("network", self.network, 2)
+        sta = self._fixedWidth("station", self.station, 5)
+        loc = self._fixedWidth("location", self.location, 2)
+        chan = self._fixedWidth("channel", self.channel, 3)
+        seq = self._fixedWidth("sequence number", "%06d" % self.sequence_number, 6)
         struct.pack_into(
             self.endianChar + "6scc5s2s3s2s",
             header,
             0,
             seq,
-            self.dataquality.ljust(1).encode("UTF-8"),
+            self._fixedWidth("data quality", self.dataquality, 1),
             b" ",
             sta,
             loc,
@@ -191,6 +191,13 @@ class MiniseedHeader:
         )
         return header
 
+    @staticmethod
+    def _fixedWidth(name, value, width):
+        encoded = value.ljust(width).encode("UTF-8")
+        if len(encoded) > width:
+            raise MiniseedException(f"{name} longer than {width} bytes: {value}")
+        return encoded
+
     def calcSeedMultipilerFactor(self):
         SHORT_MIN_VALUE = -1 * math.pow(2, 15)
         SHORT_MAX_VALUE = math.pow(2, 15) - 1
-- 
2.43.0


From 365affaab11780616776b67d2b8bd2d0132b9f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:55 +0000
Subject: [PATCH 27/54] fix: blockette 100 sample rate is a float, and
 blockettes 100 and 1001 are created with their own number

---
 src/simplemseed/miniseed.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index d87fd52..0f89685 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -449,18 +449,18 @@ class MiniseedRecord:
 
     def packB100(self, recordBytes, offset, b):
         struct.pack_into(
-            self.header.endianChar + "HHixxxx",
+            self.header.endianChar + "HHfxxxx",
             recordBytes,
             offset,
             b.blocketteNum,
             b.nextOffset,
             b.sampleRate,
         )
-        return offset + 8
+        return offset + 12
 
     def createB100(self):
         return Blockette100(
-            1000,
+            100,
             0,
             self.header.sampleRate,
         )
@@ -503,7 +503,7 @@ class MiniseedRecord:
     def createB1001(self):
         microseconds = self.starttime().microsecond % 100
         return Blockette1001(
-            1000,
+            1001,
             0,
             0,  # time quality
             microseconds,  # microseconds
@@ -647,7 +647,7 @@ def unpackBlockette(recordBytes, offset, endianChar, dataOffset):
 def unpackBlockette100(recordBytes, offset, endianChar):
     """named Tuple of blocketteNum, nextOffset, sample rate"""
     blocketteNum, nextOffset, sampRate = struct.unpack(
-        endianChar + "HHixxxx", recordBytes[offset : offset + 12]
+        endianChar + "HHfxxxx", recordBytes[offset : offset + 12]
     )
     return Blockette100(blocketteNum, nextOffset, sampRate)
 
-- 
2.43.0


From 3565b9b9be37b690af9d099ef75acc5bcc4350bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:16 +0000
Subject: [PATCH 28/54] fix: packed blockettes form a chain, next blockette
 offset is where it was packed

---
 src/simplemseed/miniseed.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 0f89685..785b816 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -413,8 +413,14 @@ class MiniseedRecord:
             # make sure we have a b1000 to be valid miniseed
             self.blockettes.insert(0, self.createB1000())
         recordBytes[39] = len(self.blockettes)
-        for b in self.blockettes:
+        for i, b in enumerate(self.blockettes):
+            bOffset = offset
             offset = self.packBlockette(recordBytes, offset, b)
+            # next blockette follows, zero for last
+            nextOffset = offset if i < len(self.blockettes) - 1 else 0
+            struct.pack_into(
+                self.header.endianChar + "H", recordBytes, bOffset + 2, nextOffset
+            )
         # set offset to data in header
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
-- 
2.43.0


From 0243b67d72397b53f99df14d3d18688931046bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:21 +0000
Subject: [PATCH 29/54] fix: miniseed2 record that does not fit its record
 length is refused, not packed longer

---
 src/simplemseed/miniseed.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 785b816..fd5a34a 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -399,6 +399,21 @@ class MiniseedRecord:
         return unpackMiniseedRecord(self.pack())
 
     def pack(self):
+        if self.header.recordLength != 2**self.header.recordLengthExp:
+            raise MiniseedException(
+                f"record length not two to the exponent: {self.header.recordLength} {self.header.recordLengthExp}"
+            )
+        try:
+            recordBytes = self._packRecord()
+        except struct.error as e:
+            raise MiniseedException(f"unable to pack record: {e}") from e
+        if len(recordBytes) != self.header.recordLength:
+            raise MiniseedException(
+                f"record does not fit in record length: {len(recordBytes)} > {self.header.recordLength}"
+            )
+        return recordBytes
+
+    def _packRecord(self):
         recordBytes = bytearray(self.header.recordLength)
         recordBytes[0:48] = self.header.pack()
 
-- 
2.43.0


From acba4b7d848f408cfce98dfb2171199c91a2cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:26 +0000
Subject: [PATCH 30/54] fix: decompressing a miniseed2 record does not change
 what it packs to

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index fd5a34a..57cbe9e 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -440,7 +440,7 @@ class MiniseedRecord:
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
-        if self.encodedDataBytes is not None and self._data is None:
+        if self.encodedDataBytes is not None:
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
         else:
             self.packData(recordBytes, offset, self._data)
-- 
2.43.0


From edb7953d08abf71e7819b93604f65178a6ca08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:30 +0000
Subject: [PATCH 31/54] fix: blockettes are in byte order of the miniseed2
 header, blockette 1000 gives it only for data

---
 src/simplemseed/miniseed.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 57cbe9e..3dcfeac 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -780,7 +780,6 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     if type(b).__name__ == "Blockette1000":
                         header.encoding = b.encoding
                         header.byteorder = b.byteorder
-                        endianChar = "<" if header.byteorder == LITTLE_ENDIAN else ">"
                         header.recordLengthExp = b.recLength
                         header.recordLength = 2**header.recordLengthExp
                         foundB1000 = b
-- 
2.43.0


From 3f5bd7ebbb918ac62890b8e58352822b6aeccfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:01 +0000
Subject: [PATCH 32/54] fix: raise on truncated miniseed2 record and on offsets
 that go backwards

---
 src/simplemseed/miniseed.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 3dcfeac..2a1989a 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -36,6 +36,7 @@ ENC_INT = 3
 
 HEADER_SIZE = 48
 B1000_SIZE = 8
+BLOCKETTE_SIZE = { 100: 12, 1000: B1000_SIZE, 1001: 8}
 MAX_INT_PER_512 = (512 - HEADER_SIZE - B1000_SIZE) // 4
 MAX_SHORT_PER_512 = (512 - HEADER_SIZE - B1000_SIZE) // 2
 
@@ -731,6 +732,19 @@ class MiniseedException(Exception):
     pass
 
 
+def _readFully(fileptr, numBytes):
+    if numBytes < 0:
+        raise MiniseedException(
+            f"offset in miniseed record before previous item ends: {numBytes}"
+        )
+    out = fileptr.read(numBytes)
+    if len(out) < numBytes:
+        raise MiniseedException(
+            f"Not enough bytes for record, file truncated: {len(out)} < {numBytes}"
+        )
+    return out
+
+
 def readMiniseed2Records(fileptr, matchsid=None):
     """
     Read miniseed2 records from a file.
@@ -743,7 +757,9 @@ def readMiniseed2Records(fileptr, matchsid=None):
         matchPat = re.compile(matchsid)
     headBytes = fileptr.read(HEADER_SIZE)
     numRecBytesRead = len(headBytes)
-    while len(headBytes) >= HEADER_SIZE:
+    while len(headBytes) > 0:
+        if len(headBytes) < HEADER_SIZE:
+            raise MiniseedException(f"Not enough bytes for header: {len(headBytes):d}")
         header = unpackFixedHeaderGuessByteOrder(headBytes)
         endianChar = "<" if header.byteorder == LITTLE_ENDIAN else ">"
 
@@ -755,7 +771,7 @@ def readMiniseed2Records(fileptr, matchsid=None):
             prevBOffset = blocketteNextOffset
             while blocketteNextOffset > 0 and len(blockettes) < header.numBlockettes:
                 try:
-                    blocketteFourBytes = fileptr.read(4)
+                    blocketteFourBytes = _readFully(fileptr, 4)
                     _blocketteNum, blocketteNextOffset = struct.unpack(
                         endianChar + "HH", blocketteFourBytes
                     )
@@ -763,13 +779,16 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         raise MiniseedException(
                             f"blockette larger than miniseed record: {blocketteNextOffset:d} {header.recordLength:d}"
                         )
-                    if blocketteNextOffset > prevBOffset+4:
+                    if blocketteNextOffset > 0:
                         numBytesToRead = blocketteNextOffset-prevBOffset-4
                     elif header.dataOffset > prevBOffset:
                         numBytesToRead = header.dataOffset-prevBOffset-4
+                    elif _blocketteNum in BLOCKETTE_SIZE:
+                        # no data, but size is known
+                        numBytesToRead = BLOCKETTE_SIZE[_blocketteNum] - 4
                     else:
                         numBytesToRead = header.recordLength-prevBOffset-4
-                    blocketteBytes = blocketteFourBytes + fileptr.read(numBytesToRead)
+                    blocketteBytes = blocketteFourBytes + _readFully(fileptr, numBytesToRead)
                     b = unpackBlockette(
                         blocketteBytes,
                         0,
@@ -803,11 +822,11 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     f"dataOffset before last blockette ends: {header.dataOffset} < {numRecBytesRead:d} rec len: {header.recordLength:d}"
                 )
             numBytesToRead = header.dataOffset - numRecBytesRead
-            _skipBytes = fileptr.read(numBytesToRead)
-            encodedDataBytes = fileptr.read(header.recordLength - header.dataOffset)
+            _skipBytes = _readFully(fileptr, numBytesToRead)
+            encodedDataBytes = _readFully(fileptr, header.recordLength - header.dataOffset)
         else:
             numBytesToRead = header.recordLength - numRecBytesRead
-            _skipBytes = fileptr.read(numBytesToRead)
+            _skipBytes = _readFully(fileptr, numBytesToRead)
         identifier = str(header.fdsnSourceId())
         if matchPat is None or matchPat.search(identifier) is not None:
             yield MiniseedRecord(
-- 
2.43.0


From b44a59da1c99e00516c6251dde0697dc90351878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:05 +0000
Subject: [PATCH 33/54] fix: first blockette of miniseed2 record need not
 directly follow the header

---
 src/simplemseed/miniseed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 2a1989a..dcf5824 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -769,6 +769,8 @@ def readMiniseed2Records(fileptr, matchsid=None):
         if header.numBlockettes > 0:
             blocketteNextOffset = header.blocketteOffset
             prevBOffset = blocketteNextOffset
+            if blocketteNextOffset > 0:
+                numRecBytesRead += len(_readFully(fileptr, blocketteNextOffset - HEADER_SIZE))
             while blocketteNextOffset > 0 and len(blockettes) < header.numBlockettes:
                 try:
                     blocketteFourBytes = _readFully(fileptr, 4)
-- 
2.43.0


From a349db4d56b497486ad5b86023ef2db856ad521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 34/54] fix: malformed miniseed2 headers and blockettes raise
 MiniseedException

---
 src/simplemseed/miniseed.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index dcf5824..30d5178 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -36,6 +36,7 @@ ENC_INT = 3
 
 HEADER_SIZE = 48
 B1000_SIZE = 8
+MAX_RECORD_LENGTH_EXP = 30
 BLOCKETTE_SIZE = { 100: 12, 1000: B1000_SIZE, 1001: 8}
 MAX_INT_PER_512 = (512 - HEADER_SIZE - B1000_SIZE) // 4
 MAX_SHORT_PER_512 = (512 - HEADER_SIZE - B1000_SIZE) // 2
@@ -713,7 +714,11 @@ def unpackFixedHeaderGuessByteOrder(recordBytes):
         raise MiniseedException(
             f"unable to determine byte order from year bytes: {recordBytes[21]:d} {recordBytes[22]:d}"
         )
-    header = unpackMiniseedHeader(recordBytes, endianChar)
+    try:
+        header = unpackMiniseedHeader(recordBytes, endianChar)
+    except ValueError as e:
+        # text, sequence number or time
+        raise MiniseedException(f"Unable to unpack miniseed header: {e}") from e
     header.byteorder = byteorder  # in case no b1000
     return header
 
@@ -721,7 +726,9 @@ def unpackFixedHeaderGuessByteOrder(recordBytes):
 def unpackMiniseedRecord(recordBytes):
     f = io.BytesIO(recordBytes)
     # just send first msr
-    return next(readMiniseed2Records(f))
+    for msr in readMiniseed2Records(f):
+        return msr
+    raise MiniseedException("Not enough bytes for header: 0")
 
 
 def decompressEncodedData(encoding, byteorder, numSamples, recordBytes):
@@ -801,6 +808,10 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     if type(b).__name__ == "Blockette1000":
                         header.encoding = b.encoding
                         header.byteorder = b.byteorder
+                        if b.recLength > MAX_RECORD_LENGTH_EXP:
+                            raise MiniseedException(
+                                f"record length exponent too large: {b.recLength}"
+                            )
                         header.recordLengthExp = b.recLength
                         header.recordLength = 2**header.recordLengthExp
                         foundB1000 = b
@@ -813,10 +824,9 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     prevBOffset += len(blocketteBytes)
                     numRecBytesRead += len(blocketteBytes)
                 except struct.error as e:
-                    print(
+                    raise MiniseedException(
                         f"Unable to unpack blockette, fail codes: {header.codes()} start: {header.starttime} {e}"
-                    )
-                    raise
+                    ) from e
         encodedDataBytes = None
         if header.dataOffset > 0:
             if header.dataOffset < numRecBytesRead:
-- 
2.43.0


From 7f1dbdc32c224c5f323a08e08ceb9a49b0bc3ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 35/54] fix: byte order guess precedence and error message for
 miniseed2 header

---
 src/simplemseed/miniseed.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 30d5178..ec96f9d 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -693,13 +693,15 @@ def unpackBlockette1001(recordBytes, offset, endianChar):
 
 
 def unpackFixedHeaderGuessByteOrder(recordBytes):
+    if len(recordBytes) < HEADER_SIZE:
+        raise MiniseedException(
+            f"Not enough bytes for header: {len(recordBytes):d}"
+        )
     byteorder = BIG_ENDIAN
     endianChar = ">"
     # 0x0708 = 1800 and 0x0807 = 2055
-    if (
-        recordBytes[20] == 7
-        or recordBytes[20] == 8
-        and not (recordBytes[21] == 7 or recordBytes[21] == 8)
+    if (recordBytes[20] == 7 or recordBytes[20] == 8) and not (
+        recordBytes[21] == 7 or recordBytes[21] == 8
     ):
         # print("big endian {:d} {:d}".format(recordBytes[20], recordBytes[21]))
         byteorder = BIG_ENDIAN
@@ -712,7 +714,7 @@ def unpackFixedHeaderGuessByteOrder(recordBytes):
         endianChar = "<"
     else:
         raise MiniseedException(
-            f"unable to determine byte order from year bytes: {recordBytes[21]:d} {recordBytes[22]:d}"
+            f"unable to determine byte order from year bytes: {recordBytes[20]:d} {recordBytes[21]:d}"
         )
     try:
         header = unpackMiniseedHeader(recordBytes, endianChar)
-- 
2.43.0


From 06d7f3d2c71e857224c8fb20fc16b666fb76e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 36/54] fix: read miniseed2 record that starts in a leap second

---
 src/simplemseed/miniseed.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index ec96f9d..e6f998c 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -272,10 +272,9 @@ class MiniseedHeader:
                 1,
                 hour=self.btime.hour,
                 minute=self.btime.minute,
-                second=self.btime.second,
                 microsecond=100 * self.btime.tenthMilli,
                 tzinfo=timezone.utc,
-            ) + timedelta(days=self.btime.yday - 1)
+            ) + timedelta(days=self.btime.yday - 1, seconds=self.btime.second)
         else:
             raise MiniseedException(
                 f"unknown type of starttime {type(starttime)}"
-- 
2.43.0


From d408225bc8fbb6fd080064b784cb77613786aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:43 +0000
Subject: [PATCH 37/54] fix: zero sample rate, factor or multiplier in
 miniseed2 header does not divide by zero

---
 src/simplemseed/miniseed.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index e6f998c..41f681a 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -102,7 +102,7 @@ class MiniseedHeader:
 
         self.sampRateFactor = sampRateFactor
         self.sampRateMult = sampRateMult
-        if sampleRate == 0 and not (sampRateFactor == 0 and sampRateMult == 0):
+        if sampleRate == 0 and sampRateFactor != 0 and sampRateMult != 0:
             # calc sampleRate from sampRateFactor and sampRateMult
             if sampRateFactor > 0:
                 if sampRateMult > 0:
@@ -241,9 +241,12 @@ class MiniseedHeader:
 
     def setSampleRate(self, sampleRate):
         self.sampleRate = sampleRate
-        self.sampPeriod = timedelta(
-            microseconds=MICRO / self.sampleRate
-        )  # Nominal sample period (Sec) */
+        if self.sampleRate == 0:
+            self.sampPeriod = timedelta(microseconds=0)
+        else:
+            self.sampPeriod = timedelta(
+                microseconds=MICRO / self.sampleRate
+            )  # Nominal sample period (Sec) */
 
     def setStartTime(self, starttime):
         if type(starttime).__name__ == "str":
-- 
2.43.0


From 82c068f568e8c58ede0133881076752717dff7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 38/54] fix: header time and blockette 1001 microseconds of a
 packed miniseed2 record add up to its start time

---
 src/simplemseed/miniseed.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 41f681a..f3d54a0 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -434,6 +434,12 @@ class MiniseedRecord:
         recordBytes[39] = len(self.blockettes)
         for i, b in enumerate(self.blockettes):
             bOffset = offset
+            if b.blocketteNum == 1001:
+                # reading adds the microseconds to the header time
+                self.header.packBTime(
+                    recordBytes,
+                    self.header.starttime - timedelta(microseconds=b.microseconds),
+                )
             offset = self.packBlockette(recordBytes, offset, b)
             # next blockette follows, zero for last
             nextOffset = offset if i < len(self.blockettes) - 1 else 0
-- 
2.43.0


From c0c29bd7852452ec5be310e8fb07d5913b9cc12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:33 +0000
Subject: [PATCH 39/54] fix: mseed2to3 command fails looking for version option

---
 src/simplemseed/mseed2to3.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 0ea4919..5230456 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -145,9 +145,6 @@ def do_parseargs():
 def main():
 
     args = do_parseargs()
-    if args.version:
-        print(f"mseed2to3 Version {VERSION}")
-        return 0
     bytesWritten = 0
     with args.ms2 as inms2:
         with args.ms3 as outms3:
-- 
2.43.0


From 7da2a1a0c90d8303c4db99893417556a3cdcacfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:38 +0000
Subject: [PATCH 40/54] fix: flag bits in conversion of miniseed2 to 3

---
 src/simplemseed/mseed2to3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 5230456..630ea6c 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -19,7 +19,9 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
 
     ms2H = ms2.header
     ms3Header.flags = (
-        (ms2H.actFlag & 1) * 2 + (ms2H.ioFlag & 64) * 4 + (ms2H.qualFlag & 16) * 8
+        (ms2H.actFlag & 0x01)  # calibration signals present
+        | (ms2H.qualFlag & 0x80) >> 6  # time tag is questionable
+        | (ms2H.ioFlag & 0x20) >> 3  # clock locked
     )
     ms3Header.publicationVersion = 0
 
-- 
2.43.0


From 31ee51a8ef375541159017fdea79bf13d86d89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:43 +0000
Subject: [PATCH 41/54] fix: converting big endian uncompressed miniseed2 keeps
 the sample values

---
 src/simplemseed/mseed2to3.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 630ea6c..54134ad 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -53,9 +53,13 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     ms3Header.encoding = b1000.encoding
     ms3Header.publicationVersion = UNKNOWN_PUBLICATION_VERSION
     if ms2.encodedDataBytes is not None:
-        if isPrimitiveCompression(b1000.encoding) and ms2H.byteorder == BIG_ENDIAN:
-            # need to decompress to byte swap primitive array
-            data = ms2.decompressed().byteswap()
+        if (
+            isPrimitiveCompression(b1000.encoding)
+            and ms2H.byteorder == BIG_ENDIAN
+            and ms2H.numSamples > 0
+        ):
+            # need to decompress, packing writes primitive array as little endian
+            data = ms2.decompressed()
         else:
             ms3Header.dataLength = len(ms2.encodedDataBytes)
             data = ms2.encodedDataBytes
-- 
2.43.0


From 2c1ce6658e3f7c37ba326f1f3221b51f6072c282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 42/54] fix: conversion to miniseed3 keeps microseconds of the
 start time exactly once

---
 src/simplemseed/miniseed.py  |  5 ++---
 src/simplemseed/mseed2to3.py | 35 +++++++++--------------------------
 2 files changed, 11 insertions(+), 29 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index f3d54a0..4e1ab9e 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -828,9 +828,8 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     elif type(b).__name__ == "Blockette100":
                         header.setSampleRate(b.sampleRate)
                     elif type(b).__name__ == "Blockette1001":
-                        header.setStartTime(
-                            header.starttime + timedelta(microseconds=b.microseconds)
-                        )
+                        # btime is as in the fixed header
+                        header.starttime += timedelta(microseconds=b.microseconds)
                     prevBOffset += len(blocketteBytes)
                     numRecBytesRead += len(blocketteBytes)
                 except struct.error as e:
diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 54134ad..a233840 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -25,12 +25,15 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     )
     ms3Header.publicationVersion = 0
 
-    ms3Header.year = ms2H.btime.year
-    ms3Header.dayOfYear = ms2H.btime.yday
-    ms3Header.hour = ms2H.btime.hour
-    ms3Header.minute = ms2H.btime.minute
-    ms3Header.second = ms2H.btime.second
-    ms3Header.nanosecond = ms2H.btime.tenthMilli * 100000
+    # includes microseconds from blockette 1001
+    ms3Header.starttime = ms2H.starttime
+    if ms2H.btime.second == 60 and ms3Header.second == 0:
+        # leap second, start time is in following minute
+        ms3Header.year = ms2H.btime.year
+        ms3Header.dayOfYear = ms2H.btime.yday
+        ms3Header.hour = ms2H.btime.hour
+        ms3Header.minute = ms2H.btime.minute
+        ms3Header.second = ms2H.btime.second
     if ms2.header.sampleRate == 0:
         ms3Header.sampleRatePeriod = 0
     else:
@@ -74,7 +77,6 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     if ms2H.dataquality != 0 and ms2H.dataquality != "D":
         fdsnExtras["DataQuality"] = ms2H.dataquality
         ms3Extras["FDSN"] = fdsnExtras
-    nanos = 0
     for b in ms2.blockettes:
         if b.blocketteNum == 100:
             ms3Header.sampleRatePeriod = b.sampleRate
@@ -82,31 +84,12 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
             if "Time" not in fdsnExtras:
                 fdsnExtras["Time"] = {}
             fdsnExtras["Time"]["Quality"] = b.timeQuality
-            nanos = 1000 * b.microseconds
 
     if ms2H.btime.second == 60:
         if "Time" not in fdsnExtras:
             fdsnExtras["Time"] = {}
         fdsnExtras["Time"]["LeapSecond"] = 1
 
-    ms3Header.nanosecond += nanos
-    if ms3Header.nanosecond < 0:
-        ms3Header.second -= 1
-        ms3Header.nanosecond += 1000000000
-        if ms3Header.second < 0:
-            # might be wrong for leap seconds
-            ms3Header.second += 60
-            ms3Header.minute -= 1
-            if ms3Header.minute < 0:
-                ms3Header.minute += 60
-                ms3Header.hour -= 1
-                if ms3Header.hour < 0:
-                    ms3Header.hour += 24
-                    ms3Header.dayOfYear = -1
-                    if ms3Header.dayOfYear < 0:
-                        # wrong for leap years
-                        ms3Header.year -= 1
-                        ms3Header.dayOfYear += 365 if ms3Header.year % 4 != 0 else 366
     if len(fdsnExtras) > 0:
         ms3Extras["FDSN"] = fdsnExtras
     if len(ms3Extras) == 0:
-- 
2.43.0


From ee871ee4324b96146fe281de8346783606fb337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:16 +0000
Subject: [PATCH 43/54] fix: setting extra headers keeps records that do not
 match

---
 src/simplemseed/mseed3details.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 27616a5..6d0f8e1 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -4,6 +4,7 @@ import argparse
 from datetime import datetime
 import json
 import os
+import re
 import sys
 from jsonpointer import set_pointer, JsonPointer, JsonPointerException
 from .mseed3 import readMSeed3Records
@@ -111,12 +112,15 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     now = datetime.utcnow().strftime("%Y%m%dT%H%M%S.%f")
     # empty or "/" mean replace all extra headers
     usePointer = len(setptr) > 1
+    # all records are read, as non matching ones must also be written
+    matchPat = re.compile(matchsid) if matchsid is not None else None
     for ms3file in ms3files:
         tmpfile = f"{ms3file}_tmp{now}"
         with open(tmpfile, "wb") as fp:
             with open(ms3file, "rb") as inms3file:
-                for ms3 in readMSeed3Records(inms3file, matchsid=matchsid):
-                    if looking or setall:
+                for ms3 in readMSeed3Records(inms3file):
+                    matched = matchPat is None or matchPat.search(ms3.identifier) is not None
+                    if matched and (looking or setall):
                         looking = False
                         # only set in first record
                         if usePointer:
-- 
2.43.0


From 77aa0d1846f9bb3430f9f59bd6282ce537916439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:22 +0000
Subject: [PATCH 44/54] fix: setting extra headers with empty pointer or /
 replaces them

---
 src/simplemseed/mseed3details.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 6d0f8e1..b28d74b 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -128,6 +128,7 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
                         else:
                             # replace all
                             ehptr = setjson
+                            ms3.eh = setjson
                         if verbose:
                             print(ms3.summary())
                             print(f"  {json.dumps(ehptr)}")
-- 
2.43.0


From 0842cf67c470427ea7d60f19fd6f02c6d465f51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:35 +0000
Subject: [PATCH 45/54] fix: extra headers replaced by a json string stay json

---
 src/simplemseed/mseed3details.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index b28d74b..0ba3519 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -128,7 +128,7 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
                         else:
                             # replace all
                             ehptr = setjson
-                            ms3.eh = setjson
+                            ms3.eh = json.dumps(setjson)
                         if verbose:
                             print(ms3.summary())
                             print(f"  {json.dumps(ehptr)}")
-- 
2.43.0


From 9da38e9de940294b4557ab1b4c0a39166dd6f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 46/54] fix: readMSeed3Records raises on a truncated identifier
 even if the fragment fails the filter

---
 src/simplemseed/mseed3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index d76355e..fedd701 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -777,6 +777,8 @@ def readMSeed3Records(
             struct.pack_into("<I", crcHeadBytes, CRC_OFFSET, 0)
             crc = crc32c.crc32c(crcHeadBytes)
         identifierBytes = fileptr.read(ms3header.identifierLength)
+        if len(identifierBytes) < ms3header.identifierLength:
+            raise Miniseed3Exception("Not enough bytes for identifier, file truncated")
         if check_crc:
             crc = crc32c.crc32c(identifierBytes, crc)
         identifier = _decodeUTF8(identifierBytes, "identifier")
@@ -794,8 +796,7 @@ def readMSeed3Records(
                         f"crc fail:  Calc: {crc}  Header: {ms3header.crc}"
                     )
             if (
-                len(identifierBytes) < ms3header.identifierLength
-                or len(ehBytes) < ms3header.extraHeadersLength
+                len(ehBytes) < ms3header.extraHeadersLength
                 or len(encodedDataBytes) < ms3header.dataLength
             ):
                 raise Miniseed3Exception("Not enough bytes for record, file truncated")
-- 
2.43.0


From afcc9faa3e779ef551dfbfd1dab1547cd48a63be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 47/54] fix: big endian encoded segment is written little
 endian in a miniseed3 record

---
 src/simplemseed/mseed3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index fedd701..39ca295 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -12,6 +12,7 @@ import crc32c
 from .seedcodec import (
     canDecompress,
     decompress,
+    isPrimitiveCompression,
     encode,
     STEIM1,
     STEIM2,
@@ -344,7 +345,11 @@ class MSeed3Record:
             encoding = 0
             numSamples = 0
         elif isinstance(data, EncodedDataSegment):
-            self._data = data.dataBytes
+            if isPrimitiveCompression(data.compressionType) and not data.littleEndian:
+                # payload is little endian, so order is fixed when encoded on pack
+                self._data = data.decode()
+            else:
+                self._data = data.dataBytes
             encoding = data.compressionType
             numSamples = data.numSamples
         elif isinstance(data, (bytes, bytearray)):
-- 
2.43.0


From daff1f620bdcb24d92523083a6795e16dabca4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 48/54] fix: refuse list values the declared integer encoding
 cannot hold in miniseed3

---
 src/simplemseed/mseed3.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 39ca295..344724e 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -386,7 +386,18 @@ class MSeed3Record:
                 encoding = 4  # default to 32 bit floats?
             else:
                 encoding = self.header.encoding
-            self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            dt = numpyDTFromMseed3Encoding(encoding)
+            if np.issubdtype(dt, np.integer) and len(data) > 0 and \
+                    not np.issubdtype(np.array(data).dtype, np.integer):
+                raise Miniseed3Exception(
+                    f"list is not all integers, cannot use encoding {encoding}"
+                )
+            try:
+                self._data = np.array(data, dtype=dt)
+            except OverflowError as e:
+                raise Miniseed3Exception(
+                    f"value in list cannot fit into encoding {encoding}: {e}"
+                ) from e
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
         else:
-- 
2.43.0


From 384f4f1e352f19a8648dfadc41e21dee1021d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 49/54] fix: refuse list values the declared integer encoding
 cannot hold in miniseed2

---
 src/simplemseed/miniseed.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 4e1ab9e..27524c9 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -346,7 +346,18 @@ class MiniseedRecord:
                 encoding = 4  # default to 32 bit floats?
             else:
                 encoding = self.header.encoding
-            self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            dt = numpyDTFromMseed3Encoding(encoding)
+            if np.issubdtype(dt, np.integer) and len(data) > 0 and \
+                    not np.issubdtype(np.array(data).dtype, np.integer):
+                raise MiniseedException(
+                    f"list is not all integers, cannot use encoding {encoding}"
+                )
+            try:
+                self._data = np.array(data, dtype=dt)
+            except OverflowError as e:
+                raise MiniseedException(
+                    f"value in list cannot fit into encoding {encoding}: {e}"
+                ) from e
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
             byteorder = LITTLE_ENDIAN if sys.byteorder == "little" else BIG_ENDIAN
-- 
2.43.0


From 3f120b46ee963f5e0aa3e4d973d9563b9ee4dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 50/54] fix: refuse multi-dimensional arrays when building a
 miniseed2 record

---
 src/simplemseed/miniseed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 27524c9..82c5406 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -330,6 +330,8 @@ class MiniseedRecord:
             self._data = data
         elif isinstance(data, np.ndarray):
             # numpy array
+            if len(np.shape(data)) != 1:
+                raise MiniseedException(f"numpy array not one dimensional: {np.shape(data)}")
             encoding = mseed3EncodingFromNumpyDT(data.dtype)
             if data.dtype.byteorder == "<":
                 byteorder = LITTLE_ENDIAN
-- 
2.43.0


From 6481f4236953b47bc28c04f012c20ee05df69a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:24 +0000
Subject: [PATCH 51/54] fix: end time of a miniseed2 record does not accumulate
 rounding of the sample period

---
 src/simplemseed/miniseed.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 82c5406..a0cc90e 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -407,10 +407,18 @@ class MiniseedRecord:
         return self.header.starttime
 
     def endtime(self):
-        return self.starttime() + self.header.sampPeriod * (self.header.numSamples - 1)
+        return self._sampleTime(self.header.numSamples - 1)
 
     def next_starttime(self):
-        return self.starttime() + self.header.sampPeriod * (self.header.numSamples)
+        return self._sampleTime(self.header.numSamples)
+
+    def _sampleTime(self, index):
+        # not a multiple of sampPeriod, as that is rounded to microseconds
+        if self.header.sampleRate == 0:
+            return self.starttime()
+        return self.starttime() + timedelta(
+            microseconds=MICRO * index / self.header.sampleRate
+        )
 
     def clone(self):
         return unpackMiniseedRecord(self.pack())
-- 
2.43.0


From 7baac84219590703c0492a5c2450ae827687a890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 52/54] fix: leap second in the start time of a miniseed2
 header is written back

---
 src/simplemseed/miniseed.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index a0cc90e..2136fad 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -226,6 +226,14 @@ class MiniseedHeader:
         return factor, divisor
 
     def packBTime(self, header, time):
+        if self.btime.second == 60 and self._btimeAsDatetime() == time.replace(
+            microsecond=time.microsecond - time.microsecond % 100
+        ):
+            # leap second, time is in the following minute
+            struct.pack_into(
+                self.endianChar + "HHBBBxH", header, 20, *self.btime
+            )
+            return
         tt = time.timetuple()
         struct.pack_into(
             self.endianChar + "HHBBBxH",
@@ -248,6 +256,17 @@ class MiniseedHeader:
                 microseconds=MICRO / self.sampleRate
             )  # Nominal sample period (Sec) */
 
+    def _btimeAsDatetime(self):
+        return datetime(
+            self.btime.year,
+            1,
+            1,
+            hour=self.btime.hour,
+            minute=self.btime.minute,
+            microsecond=100 * self.btime.tenthMilli,
+            tzinfo=timezone.utc,
+        ) + timedelta(days=self.btime.yday - 1, seconds=self.btime.second)
+
     def setStartTime(self, starttime):
         if type(starttime).__name__ == "str":
             fixTZ = starttime.replace("Z", "+00:00")
@@ -269,15 +288,7 @@ class MiniseedHeader:
             )
         elif type(starttime).__name__ == "BTime":
             self.btime = starttime
-            self.starttime = datetime(
-                self.btime.year,
-                1,
-                1,
-                hour=self.btime.hour,
-                minute=self.btime.minute,
-                microsecond=100 * self.btime.tenthMilli,
-                tzinfo=timezone.utc,
-            ) + timedelta(days=self.btime.yday - 1, seconds=self.btime.second)
+            self.starttime = self._btimeAsDatetime()
         else:
             raise MiniseedException(
                 f"unknown type of starttime {type(starttime)}"
-- 
2.43.0


From 215ab6aa3de80e130105a05f8a6f2a847ef1f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 53/54] fix: fdsnsourceid tool prints network, station and
 location source ids

---
 src/simplemseed/fdsnsourceid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 4a5817a..690fd8c 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -750,8 +750,14 @@ def main():
         sid = FDSNSourceId.parse(a)
         print(f"      {sid}")
         print(f"       Net: {sid.networkCode}")
+        if isinstance(sid, NetworkSourceId):
+            continue
         print(f"       Sta: {sid.stationCode}")
+        if isinstance(sid, StationSourceId):
+            continue
         print(f"       Loc: {sid.locationCode}")
+        if isinstance(sid, LocationSourceId):
+            continue
         print(f"      Band: {sid.bandCode} - {bandCodeDescribe(sid.bandCode)}")
         print(f"    Source: {sid.sourceCode} - {sourceCodeDescribe(sid.sourceCode)}")
         print(f" Subsource: {sid.subsourceCode}")
-- 
2.43.0


From 686526c8dc7c6d569798662d98d26ed76e88c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:19 +0000
Subject: [PATCH 54/54] fix: repacked steim payloads stay on 64 byte frames
 after the blockettes

---
 src/simplemseed/miniseed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 2136fad..6043816 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -479,8 +479,9 @@ class MiniseedRecord:
                 self.header.endianChar + "H", recordBytes, bOffset + 2, nextOffset
             )
         # set offset to data in header
-        if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
-            offset = 64
+        if self.header.encoding in (STEIM1, STEIM2) and offset % 64 != 0:
+            # frames start on multiple of 64, decoding needs whole frames
+            offset += 64 - offset % 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
         if self.encodedDataBytes is not None:
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
-- 
2.43.0

