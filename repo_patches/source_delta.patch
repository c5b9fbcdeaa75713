From f9bfc4323a218896b21a895cc592bd9c6bab94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:23 +0000
Subject: [PATCH 01/49] fix: bound parse_varint by the length encoded in the
 first byte

Buffers longer than nine bytes were copied past the end of a nine element
stack array, an empty buffer was read, and a truncated varint was silently
decoded as a shorter one.
---
 src/eventio/var_int.pyx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 9783df5..f7edec4 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -50,9 +50,19 @@ cpdef uint8_t get_length_of_varint(const uint8_t first_byte):
 @cython.boundscheck(False)
 @cython.wraparound(False)  # disable negative indexing
 cpdef uint64_t parse_varint(const uint8_t[:] var_int_bytes):
-    cdef uint8_t length = var_int_bytes.shape[0]
+    cdef uint64_t n_bytes = var_int_bytes.shape[0]
+    cdef uint8_t length
     cdef uint64_t v[9]
     cdef uint8_t i  = 0
+
+    # the length is encoded in the first byte, never read or write beyond it
+    if n_bytes == 0:
+        raise EOFError('File seems to be truncated')
+
+    length = get_length_of_varint(var_int_bytes[0])
+    if n_bytes < length:
+        raise EOFError('File seems to be truncated')
+
     for i in range(length):
         v[i] = var_int_bytes[i]
 
-- 
2.43.0


From 0d37306e93c3c286406744e826a3d762e878dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:59 +0000
Subject: [PATCH 02/49] fix: check the buffer size before multi-byte loads in
 the cython parsers

Only the first byte of int16, int32 and float fields was bounds checked, so
payloads ending inside such a field were read beyond their end.
---
 src/eventio/simtel/parsing.pyx | 10 ++++++++++
 src/eventio/var_int.pyx        | 15 +++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/eventio/simtel/parsing.pyx b/src/eventio/simtel/parsing.pyx
index e03a670..7ae0d02 100644
--- a/src/eventio/simtel/parsing.pyx
+++ b/src/eventio/simtel/parsing.pyx
@@ -7,6 +7,13 @@ cimport numpy as np
 
 INT16 = np.int16
 
+
+cdef inline int check_available(uint64_t size, uint64_t pos, uint64_t n_bytes) except -1:
+    '''Raise EOFError if there are not `n_bytes` left at `pos` in a buffer of `size` bytes'''
+    if pos > size or n_bytes > size - pos:
+        raise EOFError('File seems to be truncated')
+    return 0
+
 @cython.wraparound(False)  # disable negative indexing
 cpdef read_sector_information_v1(
     const uint8_t[:] data,
@@ -23,12 +30,14 @@ cpdef read_sector_information_v1(
     cdef uint64_t pos = offset
     for i in range(n_pixels):
 
+        check_available(data.shape[0], pos, 2)
         short_ptr = <int16_t*> &data[pos]
         n = short_ptr[0]
         pos += 2
 
         sector = array.array('h')
         for j in range(n):
+            check_available(data.shape[0], pos, 2)
             short_ptr = <int16_t*> &data[pos]
             sector.append(short_ptr[0])
             pos += 2
@@ -64,6 +73,7 @@ cpdef dict parse_mc_event(
     cdef float xcore, ycore, aweight
     cdef int32_t shower_num
 
+    check_available(data.shape[0], pos, 16 if version >= 2 else 12)
     shower_num = (<int32_t*> &data[pos])[0]
     pos += 4
     xcore = (<float*> &data[pos])[0]
diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index f7edec4..b5a3f42 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -8,6 +8,13 @@ from libc.math cimport NAN
 cnp.import_array()
 
 
+cdef inline int check_available(uint64_t size, uint64_t pos, uint64_t n_bytes) except -1:
+    '''Raise EOFError if there are not `n_bytes` left at `pos` in a buffer of `size` bytes'''
+    if pos > size or n_bytes > size - pos:
+        raise EOFError('File seems to be truncated')
+    return 0
+
+
 @cython.wraparound(False)  # disable negative indexing
 cpdef (uint64_t, uint8_t) unsigned_varint(const uint8_t[:] data, uint64_t offset=0):
     cdef uint8_t length
@@ -341,6 +348,7 @@ def simtel_pixel_timing_parse_list_type_2(
 
         for i_pix in range(start, stop + 1):
             for i_type in range(n_types):
+                check_available(data.shape[0], pos, 2)
                 timval[i_pix, i_type] = granularity * (<int16_t*> &data[pos])[0]
                 pos += 2
 
@@ -402,17 +410,20 @@ def parse_1208(
         if version > 2:
             pix_id, length = varint(data, offset=pos)
         else:
+            check_available(data.shape[0], pos, 2)
             pix_id = (<int16_t*> &data[pos])[0]
             length = 2
 
         pos += length
 
+        check_available(data.shape[0], pos, 4)
         n_pe = (<int32_t*> &data[pos])[0]
         pos += 4
 
         photoelectrons[pix_id] = n_pe
 
         for j in range(n_pe):
+            check_available(data.shape[0], pos, 4)
             t = (<float*> &data[pos])[0]
             pixel_id[i_pe + j] = pix_id
             time[i_pe + j] = t
@@ -420,6 +431,7 @@ def parse_1208(
 
         if has_amplitudes:
             for j in range(n_pe):
+                check_available(data.shape[0], pos, 4)
                 amplitude[i_pe + j] = (<float*> &data[pos])[0]
                 pos += 4
 
@@ -435,10 +447,12 @@ def parse_1208(
     if has_photons:
         photons = cnp.PyArray_ZEROS(1, pixel_shape, cnp.NPY_INT32, False)
 
+        check_available(data.shape[0], pos, 4)
         nonempty = (<int32_t*> &data[pos])[0]
         pos += 4
 
         for i in range(nonempty):
+            check_available(data.shape[0], pos, 6)
             pix_id = (<int16_t*> &data[pos])[0]
             pos += 2
 
@@ -479,6 +493,7 @@ cpdef simtel_pixel_timing_parse_list_type_1(
     for i in range(pixel_list_length):
         i_pix = pixel_list[i]
         for i_type in range(n_types):
+            check_available(data.shape[0], pos, 2)
             short_ptr = <int16_t*> &(data[pos])
             timval[i_pix, i_type] = granularity * short_ptr[0]
             pos += 2
-- 
2.43.0


From 39800b8e92016313b20d55320ecd71fef397d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:59 +0000
Subject: [PATCH 03/49] fix: do not read past the end of an object after
 seeking beyond it

The number of remaining bytes became negative and the rest of the file was
returned as payload of the object.
---
 src/eventio/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index fddfbac..8c1839a 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -291,8 +291,8 @@ class EventIOObject:
             read `size` bytes from the payload of this object
             If size == -1 (default), read all remaining bytes.
         '''
-        # read all remaining bytes.
-        remaining = self.size - self._pos
+        # read all remaining bytes, position might be outside of the payload after seek
+        remaining = max(self.size - self._pos, 0)
         if size == -1 or size > remaining:
             size = remaining
 
-- 
2.43.0


From dd3250d4150d78c7728e4b730a7cc17baf51fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 04/49] fix: raise EOFError if the payload of an object is cut
 off

EventIOObject.read returned less data than requested if the file ended inside
of the payload, so that truncated strings were silently returned as valid and
other objects failed with unrelated errors not handled by SimTelFile.
---
 src/eventio/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 8c1839a..bd8b4ed 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -299,6 +299,10 @@ class EventIOObject:
         data = self._filehandle.read(size)
         self._pos += len(data)
 
+        # the payload continues, but the file does not
+        if len(data) < size:
+            raise EOFError('File seems to be truncated')
+
         return data
 
     def __iter__(self):
-- 
2.43.0


From 34e1ac41144588a18788267fb67240704993c2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 05/49] fix: do not allow relative seeks to before the start of
 an object

Bytes in front of the payload were returned as part of it.
---
 src/eventio/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index bd8b4ed..6a952d1 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -339,6 +339,7 @@ class EventIOObject:
             assert offset >= 0
             new_pos = self._filehandle.seek(address + offset, whence)
         elif whence == 1:
+            assert self._pos + offset >= 0
             new_pos = self._filehandle.seek(offset, whence)
         elif whence == 2:
             if offset > self.size:
-- 
2.43.0


From f22da3275acbf93cbc66e2162044ef2f8bc51d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 06/49] fix: reading contents of integer histograms

read_array was called with a non-existing keyword argument, so that histograms
of type I with entries could not be parsed.
---
 src/eventio/histograms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index a75ebd4..f86f50a 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -59,7 +59,7 @@ class Histograms(EventIOObject):
                     hist['data'] = np.zeros(n_counts)
             else:
                 if hist['tentries'] > 0:
-                    hist['data'] = read_array(self, dtype='<i4', counts=n_counts)
+                    hist['data'] = read_array(self, dtype='<i4', count=n_counts)
                 else:
                     hist['data'] = np.zeros(n_counts)
 
-- 
2.43.0


From bd320b7652d033c1020e4208a1d8999d5842d779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 07/49] fix: parsing of TriggerInformation versions 0 and 1

These versions do not contain the trigger type mask and failed with a KeyError.
---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 2830d47..922c466 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -647,7 +647,7 @@ class TriggerInformation(EventIOObject):
         # here we fix the bug, as does the fixed hessio library.
         # This only affects versions up to 3, as that was the highest version
         # existing before the fix was introduced.
-        if version <= 3:
+        if 2 <= version <= 3:
             self.fix_teltrg_type_mask(event_info["teltrg_type_mask"])
 
         return event_info
-- 
2.43.0


From 748e662bf066f1e021ee2cb10903f1f262256d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 08/49] fix: physical addresses in TelescopeEventHeader
 versions 0 and 1

The count was stored as tuple, so that these objects failed with a TypeError.
---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 922c466..6b54957 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -814,7 +814,7 @@ class TelescopeEventHeader(TelescopeObject):
 
         if t & 0x200:
             if self.header.version <= 1:
-                event_head['n_phys_addr'] = struct.unpack('<h', data[pos:pos + 2])
+                event_head['n_phys_addr'], = struct.unpack('<h', data[pos:pos + 2])
                 pos += 2
                 event_head['phys_addr'] = np.frombuffer(
                     data, dtype='<i2', count=event_head['n_phys_addr'], offset=pos
-- 
2.43.0


From 8a5f2f089475f7a780373658d5d314a35b6f6051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 09/49] fix: number of float parameters read in MCExtraParams

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 6b54957..1fab961 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1463,7 +1463,7 @@ class MCExtraParams(EventIOObject):
         if ep['n_iparam'] > 0:
             ep['iparam'] = read_array(byte_stream, dtype='<i4', count=ep['n_iparam'])
         if ep['n_fparam'] > 0:
-            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_iparam'])
+            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_fparam'])
         return ep
 
 
-- 
2.43.0


From 31555cb9d6e74cfe0ab53826e0fff2501c337de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:47 +0000
Subject: [PATCH 10/49] fix: read the extra parameters of MCShower version 2
 from the right position

The complete payload was already consumed when trying to read the header of
the MCExtraParams sub object, so these objects always failed with EOFError.
---
 src/eventio/simtel/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 1fab961..886a513 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1442,9 +1442,9 @@ class MCShower(EventIOObject):
             mc['profiles'].append(p)
 
         if self.header.version >= 2:
-            h = read_header(self, offset=self._filehandle.tell(), toplevel=False)
+            h = read_header(byte_stream, offset=byte_stream.tell(), toplevel=False)
             assert h.type == 1215
-            mc['mc_extra_params'] = MCExtraParams(h, self).parse()
+            mc['mc_extra_params'] = MCExtraParams(h, byte_stream).parse()
         return mc
 
 
-- 
2.43.0


From adc7db7038a026c5bc2061d64d7ca233e53c250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:05 +0000
Subject: [PATCH 11/49] fix: iterating over an IACTFile after peek

The peeked object was returned in place of the first event header.
---
 src/eventio/iact/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 0d0db1e..dff8798 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -139,6 +139,9 @@ class IACTFile(EventIOFile):
         Generator over the single array events
         '''
         self._next_header_pos = self._first_event_byte
+        # forget objects already read by `peek`, we start again at the first event
+        self.next = None
+        self.peek_error = None
         obj = next(self)
 
         while not isinstance(obj, RunEnd):
-- 
2.43.0


From 9697bd26d9619a4b87cdd59f916038d3ce8827a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 12/49] fix: read zstd compressed files consisting of more than
 one frame

Objects crossing a frame boundary were reported as truncated.
---
 src/eventio/base.py       | 4 +++-
 src/eventio/file_types.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 6a952d1..1e48608 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -97,7 +97,9 @@ class EventIOFile:
 
         elif is_zstd(path):
             log.info('Found zstd compressed file')
-            self._filehandle = zstd.ZstdDecompressor().stream_reader(open(path, 'rb'), read_size=1024**2)
+            self._filehandle = zstd.ZstdDecompressor().stream_reader(
+                open(path, 'rb'), read_size=1024**2, read_across_frames=True,
+            )
             self.zstd = True
 
         else:
diff --git a/src/eventio/file_types.py b/src/eventio/file_types.py
index 78e3e44..b57a295 100644
--- a/src/eventio/file_types.py
+++ b/src/eventio/file_types.py
@@ -48,7 +48,7 @@ def is_eventio(path):
             raise IOError('You need the `zstandard` module to read zstd files')
         with open(path, 'rb') as f:
             cctx = zstd.ZstdDecompressor()
-            with cctx.stream_reader(f) as stream:
+            with cctx.stream_reader(f, read_across_frames=True) as stream:
                 marker_bytes = stream.read(SYNC_MARKER_SIZE)
     else:
         with open(path, 'rb') as f:
-- 
2.43.0


From 3e79c227a23c0aa24f7dc8c064843e2b671eea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 13/49] fix: negative event ids of calibration events

The negative id was overwritten with the one of the array event, so that
calibration events and shower events had overlapping ids.
---
 src/eventio/simtel/simtelfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 2ca70ee..a7d90d2 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -330,17 +330,17 @@ class SimTelFile:
 
         elif isinstance(o, CalibrationEvent):
             array_event = next(o)
-            # make event_id negative for calibration events to not overlap with
-            # later air shower events
             event = self.current_event
             self.current_event = {
                 "type": "calibration",
-                "event_id": -array_event.header.id,
                 "calibration_type": o.type,
             }
             self.current_event.update(
                 parse_array_event(array_event, self.allowed_telescopes)
             )
+            # make event_id negative for calibration events to not overlap with
+            # later air shower events
+            self.current_event["event_id"] = -abs(self.current_event["event_id"])
             self._add_monitoring(self.current_event)
             if self._current_calib_pe is not None:
                 self.current_event["photoelectrons"] = self._current_calib_pe
-- 
2.43.0


From ed9099323697b74d8a839a00dd42606f893a515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:10 +0000
Subject: [PATCH 14/49] fix: decoding of varint arrays with values of 2**62 and
 above

The zigzag decoding was done on a signed integer, so the shift was arithmetic
and the results differed from those of the scalar functions.
---
 src/eventio/var_int.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index b5a3f42..ae6435a 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -173,10 +173,10 @@ cpdef varint_array(
     cdef cnp.npy_intp[1] shape = [n_elements];
     cdef cnp.ndarray[int64_t, ndim=1] output = cnp.PyArray_SimpleNew(1, shape, cnp.NPY_INT64)
 
-    cdef int64_t val
+    cdef uint64_t val
     cdef uint8_t length
 
-    cdef uint8_t one = 1;
+    cdef uint64_t one = 1;
     cdef uint64_t i
     cdef uint64_t pos = offset
 
-- 
2.43.0


From 6c6bdaf581c28278bd520c2a9494ade1d7672b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:17 +0000
Subject: [PATCH 15/49] fix: seek to the start of the payload in all parse
 methods

Parsing an object a second time or after accessing other objects of the file
decoded data of the wrong position.
---
 src/eventio/simtel/objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 886a513..ab6e3ac 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -80,6 +80,7 @@ class HistoryCommandLine(EventIOObject):
     eventio_type = 71
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -89,6 +90,7 @@ class HistoryConfig(EventIOObject):
     eventio_type = 72
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -98,6 +100,7 @@ class HistoryMeta(EventIOObject):
     eventio_type = 75
 
     def parse(self):
+        self.seek(0)
         n_items = read_unsigned_varint(self)
 
         data = {}
@@ -1807,6 +1810,7 @@ class AuxiliaryDigitalTraces(EventIOObject):
     eventio_type = 2029
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1821,6 +1825,7 @@ class AuxiliaryAnalogTraces(EventIOObject):
     eventio_type = 2030
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1841,6 +1846,7 @@ class PixelTriggerTimes(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         trigger_times = {}
@@ -1860,6 +1866,7 @@ class PixelMonitoring(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         flags = read_int(byte_stream)
-- 
2.43.0


From 0a8c0e27ff47d8373d7c594a23b022e4ae52cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 16/49] fix: do not assign observation level particles to the
 following showers

Particles of a shower were added to the events of all later showers that have
no particles of their own.
---
 src/eventio/simtel/simtelfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index a7d90d2..8a218ed 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -283,6 +283,8 @@ class SimTelFile:
 
         elif isinstance(o, MCShower):
             self.current_mc_shower = o.parse()
+            # particles belong to a single shower
+            self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
             # assume that array event without shower available are unpacked calibration events
-- 
2.43.0


From 2acc06d0b485f6d8a1bea4ff7d5f2faefec23042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 17/49] fix: include objects ending exactly at max_size in
 eventio_cut_file

---
 src/eventio/scripts/cut_eventio_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index fb68a57..cbae47b 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -55,7 +55,7 @@ def main():
         last_o = None
         for o in f:
             last_byte = o.header.content_address + o.header.content_size
-            if last_byte < max_size:
+            if last_byte <= max_size:
                 bytes_to_read = last_byte
                 last_o = o
             else:
-- 
2.43.0


From 7213917a3a630ba29ee7c59f9a5ade9bffaaf215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 18/49] fix: reject sizes with trailing characters in
 eventio_cut_file

Sizes like 2.5M or 10K were silently understood as 2 and 10 bytes.
---
 src/eventio/scripts/cut_eventio_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index cbae47b..4b275aa 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -26,7 +26,7 @@ parser.add_argument(
 
 
 def parse_size(size):
-    m = re.match(r'(\d+)([kMG])?', size)
+    m = re.fullmatch(r'(\d+)([kMG])?', size)
     if not m:
         raise ValueError('Format not recognized, valid are #, #k, #M or #G')
 
-- 
2.43.0


From 5c423293fa1a3965ca26a43b67f91a9c8f69daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 19/49] fix: number of omitted objects in
 eventio_print_structure

The number was one too low, and missing for the last type in a file or if only
one object was omitted.
---
 src/eventio/scripts/print_structure.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/eventio/scripts/print_structure.py b/src/eventio/scripts/print_structure.py
index d9ca5f0..878d80f 100644
--- a/src/eventio/scripts/print_structure.py
+++ b/src/eventio/scripts/print_structure.py
@@ -18,6 +18,11 @@ parser.add_argument(
 )
 
 
+def print_omitted(n_omitted, level):
+    if n_omitted > 0:
+        print('    ' * level, 'And {} objects more of the same type'.format(n_omitted))
+
+
 def print_structure():
     args = parser.parse_args()
 
@@ -35,21 +40,17 @@ def print_structure():
                     last_level = level
                 else:
                     last = o.__class__
-                    if n_same > args.max_repeats:
-                        print(
-                            '    ' * last_level,
-                            'And {} objects more of the same type'.format(
-                                n_same - args.max_repeats
-                            )
-                        )
-                    n_same = 0
+                    print_omitted(n_same - args.max_repeats, last_level)
+                    n_same = 1
                     last_level = level
 
-                if n_same < args.max_repeats:
+                if n_same <= args.max_repeats:
                     print('    ' * level, conv(o))
         except EOFError as e:
             print(e)
 
+        print_omitted(n_same - args.max_repeats, last_level)
+
 
 def main():
     try:
-- 
2.43.0


From 017333fb40e4f7506ff521dfedb6bad0406bc046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 20/49] fix: files ending before the extension field of a
 header are truncated

StopIteration was raised, as if the file ended regularly.
---
 src/eventio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 1e48608..c0e1e90 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -228,7 +228,7 @@ def read_header(byte_stream, offset, toplevel=False):
         check_size_or_raise(
             extension_field,
             constants.EXTENSION_SIZE,
-            zero_ok=True
+            zero_ok=False
         )
         ext = parse_extension_field(extension_field)
         header.content_size += ext
-- 
2.43.0


From 46a93fe6ccad9f58d2c5b80787e03503281d7157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 21/49] fix: dtype of empty photon bunches in compact format

The integer dtype of the raw data was returned instead of the float32 columns
in physical units.
---
 src/eventio/iact/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index 2f12206..5f9e78e 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -288,7 +288,7 @@ class Photons(EventIOObject):
             dtype = self.long_dtype
 
         if self.n_bunches == 0:
-            return np.array([], dtype=dtype)
+            return np.array([], dtype=self.long_dtype)
 
         count = self.n_bunches if chunksize is None else chunksize
 
-- 
2.43.0


From 6e860c8fa3671f5acddc03e1b5341a5c7a2290a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 22/49] fix: name of curved_surface in CameraSettings before
 version 4

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index ab6e3ac..c3fcd39 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -253,7 +253,7 @@ class CameraSettings(TelescopeObject):
                 cam['pixel_area'] = np.repeat(read_float(byte_stream), n_pixels)
                 cam['pixel_size'] = np.repeat(read_float(byte_stream), n_pixels)
         else:
-            cam['curve_surface'] = 0
+            cam['curved_surface'] = 0
             cam['pixels_parallel'] = 1
             cam['common_pixel_shape'] = 0
             cam['pixel_z'] = np.zeros(n_pixels, dtype='f4')
-- 
2.43.0


From 0a9182e278cf6fd17b0a334a58a714bc1c0607d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 23/49] fix: gzip compressed files with names starting with a
 dash

---
 src/eventio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index c0e1e90..bc5cb34 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -78,7 +78,7 @@ class EventIOFile:
                 try:
                     log.info('Trying to read using zcat')
                     self.read_process = sp.Popen(
-                        ['gzip', '-cd', path], stdout=sp.PIPE, stderr=sp.PIPE
+                        ['gzip', '-cd', '--', path], stdout=sp.PIPE, stderr=sp.PIPE
                     )
                     self.read_process.poll()
                     rc = self.read_process.returncode
-- 
2.43.0


From cd5cd0a4ecae5c5e24e971678faace883c92f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:39 +0000
Subject: [PATCH 24/49] fix: ignore unexpected objects in
 CalibrationPhotoelectrons

The warning says they are ignored, but they were still parsed.
---
 src/eventio/simtel/simtelfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 8a218ed..a34b070 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -364,6 +364,7 @@ class SimTelFile:
                         f"Unexpected sub-object: {photoelectrons} in {telescope_data}, ignoring",
                         UnknownObjectWarning
                     )
+                    continue
 
                 tel_id = photoelectrons.telescope_id
                 self._current_calib_pe[tel_id] = photoelectrons.parse()
-- 
2.43.0


From e1392147d54ab583689446c0b553c3f11528204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:14 +0000
Subject: [PATCH 25/49] fix: raise WrongType for headers not matching the type
 of an object

WrongType expects a class and an object, so an AttributeError was raised.
---
 src/eventio/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index bc5cb34..3e7c067 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -273,11 +273,11 @@ class EventIOObject:
     eventio_type = None
 
     def __init__(self, header, filehandle):
-        if self.eventio_type is not None and header.type != self.eventio_type:
-            raise WrongType(self.eventio_type, header.type)
-
         self._filehandle = filehandle
         self.header = header
+        if self.eventio_type is not None and header.type != self.eventio_type:
+            raise WrongType(self.__class__, self)
+
         self.address = self.header.content_address
         self.size = self.header.content_size
         self.only_subobjects = self.header.only_subobjects
-- 
2.43.0


From 2b03903b62bd152858c20da8c1ff00c0b1ef967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:14 +0000
Subject: [PATCH 26/49] fix: eventio_print_simtel_history for files ending
 after the history

---
 src/eventio/scripts/print_simtel_history.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/print_simtel_history.py b/src/eventio/scripts/print_simtel_history.py
index d7831e9..a62a9a8 100644
--- a/src/eventio/scripts/print_simtel_history.py
+++ b/src/eventio/scripts/print_simtel_history.py
@@ -11,13 +11,14 @@ def print_history():
     args = parser.parse_args()
 
     with EventIOFile(args.inputfile) as f:
-        o = next(f)
-        while isinstance(o, History):
+        for o in f:
+            if not isinstance(o, History):
+                break
+
             for subo in o:
                 t, line = subo.parse()
                 t = datetime.fromtimestamp(t)
                 print(f'{t:%Y-%m-%dT%H:%M:%S}', line.decode('utf-8').strip())
-            o = next(f)
 
 
 def main():
-- 
2.43.0


From 049250ff9bf0ba65f1aa94ed16b7a75c28182aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 27/49] fix: padding after histogram titles with non-ASCII
 characters

---
 src/eventio/histograms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index f86f50a..d028153 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -17,8 +17,10 @@ class Histograms(EventIOObject):
         for i in range(n_histograms):
             hist = {}
             hist['type'] = self.read(1).decode('ascii')
-            hist['title'] = read_string(self).decode('utf-8')
-            if len(hist['title']) % 2 == 0:
+            title = read_string(self)
+            hist['title'] = title.decode('utf-8')
+            # padded to an even number of bytes, not of characters
+            if len(title) % 2 == 0:
                 self.read(1)
             hist['id'] = read_int(self)
             hist['n_bins_x'] = read_short(self)
-- 
2.43.0


From 7cce2b23ed31b68a26b09b493215ccbb69f40245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 28/49] fix: read payloads from the own position of the object
 after the file was advanced

---
 src/eventio/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 3e7c067..30effc2 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -298,6 +298,12 @@ class EventIOObject:
         if size == -1 or size > remaining:
             size = remaining
 
+        # the file handle is shared with all other objects of the file
+        # and might have been moved by them since the last access
+        position = self.address + self._pos
+        if self._filehandle.tell() != position:
+            self._filehandle.seek(position)
+
         data = self._filehandle.read(size)
         self._pos += len(data)
 
@@ -342,7 +348,7 @@ class EventIOObject:
             new_pos = self._filehandle.seek(address + offset, whence)
         elif whence == 1:
             assert self._pos + offset >= 0
-            new_pos = self._filehandle.seek(offset, whence)
+            new_pos = self._filehandle.seek(address + self._pos + offset, 0)
         elif whence == 2:
             if offset > self.size:
                 offset = self.size
-- 
2.43.0


From 247eaf9e60b1d726957d3fc975010c0472aaadae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:04 +0000
Subject: [PATCH 29/49] fix: array events with version 0 of the trigger
 information in SimTelFile

---
 src/eventio/simtel/simtelfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index a34b070..fc3f633 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -481,10 +481,12 @@ def parse_array_event(array_event, allowed_telescopes=None):
                 event["event_id"] = o.header.id
             trigger_information = o.parse()
             event["trigger_information"] = trigger_information
-            telescopes = set(trigger_information['telescopes_with_data'])
 
-            if allowed_telescopes and len(telescopes & allowed_telescopes) == 0:
-                break
+            # not stored in version 0 of the trigger information
+            telescopes = trigger_information.get('telescopes_with_data')
+            if allowed_telescopes and telescopes is not None:
+                if len(set(telescopes) & allowed_telescopes) == 0:
+                    break
 
         elif isinstance(o, TelescopeEvent):
             if allowed_telescopes is None or o.telescope_id in allowed_telescopes:
-- 
2.43.0


From f6011cb7ba66398587bbd9daef2ec22cabddd63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:33 +0000
Subject: [PATCH 30/49] fix: str() of StereoReconstruction with more than 12
 result bits

np.binary_repr raises a ValueError if the number does not fit into the
given width, so that e.g. eventio_print_structure ended with an error.
---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index c3fcd39..74950da 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1245,7 +1245,7 @@ class StereoReconstruction(EventIOObject):
         return '{}[{}](result_bits={})'.format(
             self.__class__.__name__,
             self.header.type,
-            np.binary_repr(self.header.id, width=12),
+            format(self.header.id & 0xffffffff, '012b'),
         )
 
     def parse(self):
-- 
2.43.0


From c66675576e4b797caa280ea37d865c95238f16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 31/49] fix: raise the error found by peek in the next call of
 next

On pipes and zstd streams, the truncated header cannot be read a second time,
so that an OSError about seeking backwards was raised instead of the EOFError.
---
 src/eventio/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 30effc2..2c3f88b 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -123,6 +123,10 @@ class EventIOFile:
             o, self.next = self.next, None
             return o
 
+        # reading it again is not possible for pipes and zstd streams
+        if self.peek_error is not None:
+            raise self.peek_error
+
         return self._read_next_object()
 
     def _read_next_object(self):
-- 
2.43.0


From 05182b6a6d656807c2dcd4ad0134fad3a9f538a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 32/49] fix: truncation in an array event does not drop or
 damage SimTelFile events

If a file is truncated inside the array event of a calibration event, the
previous, complete event was dropped and an empty one delivered instead.
If it is truncated in the array event of a shower, the event id was replaced
by the id of the array event, which is not the event id in older files.
---
 src/eventio/simtel/simtelfile.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index fc3f633..f24c56e 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -287,15 +287,16 @@ class SimTelFile:
             self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
+            # decode before anything is changed, so that neither the previous nor
+            # the current event is damaged if the file is truncated in this object
+            array_event = parse_array_event(o, self.allowed_telescopes)
+
             # assume that array event without shower available are unpacked calibration events
             if self.current_mc_shower is None:
                 event = self.current_event
                 self.current_event = {"type": "calibration"}
 
-            self.current_event["event_id"] = o.header.id
-            self.current_event.update(
-                parse_array_event(o, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event)
             self._add_monitoring(self.current_event)
 
         elif isinstance(o, iact.TelescopeData):
@@ -331,15 +332,13 @@ class SimTelFile:
             self.corsika_inputcards.append(o.parse())
 
         elif isinstance(o, CalibrationEvent):
-            array_event = next(o)
+            array_event = parse_array_event(next(o), self.allowed_telescopes)
             event = self.current_event
             self.current_event = {
                 "type": "calibration",
                 "calibration_type": o.type,
             }
-            self.current_event.update(
-                parse_array_event(array_event, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event)
             # make event_id negative for calibration events to not overlap with
             # later air shower events
             self.current_event["event_id"] = -abs(self.current_event["event_id"])
-- 
2.43.0


From b1e0b69cc7d09bb18dec9944f400fc6660ef3a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 33/49] fix: refuse structured dtypes with overflowing size in
 read_array

---
 src/eventio/tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventio/tools.py b/src/eventio/tools.py
index 63a68ba..58c58b8 100644
--- a/src/eventio/tools.py
+++ b/src/eventio/tools.py
@@ -36,6 +36,12 @@ def read_double(f):
 def read_array(f, dtype, count):
     '''Read a numpy array with `dtype` of length `count` from file-like `f`'''
     dt = np.dtype(dtype)
+    # numpy does not check for overflows of the total size of structured dtypes
+    if dt.fields and any(
+        offset < 0 or offset + field.itemsize > dt.itemsize
+        for field, offset, *_ in dt.fields.values()
+    ):
+        raise ValueError('Size of dtype must fit into a C int')
     if count == 0:
         return np.array((), dtype=dtype)
     return np.frombuffer(f.read(count * dt.itemsize), count=count, dtype=dt)
-- 
2.43.0


From 6f22c588589c5dc41e52153db539833484b043ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:50 +0000
Subject: [PATCH 34/49] fix: do not loop over declared ADC traces without
 samples

---
 src/eventio/var_int.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index ae6435a..5da9ffa 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -211,6 +211,10 @@ cpdef unsigned_varint_arrays_differential(
     cdef uint32_t[:, :] output_view = output
     cdef uint32_t[:] output_view_1d
 
+    # nothing to read, independent of the number of arrays
+    if n_elements == 0:
+        return output, bytes_read_total
+
     for i in range(n_arrays):
 
         output_view_1d = output_view[i]
-- 
2.43.0


From 6d56654fe56548bf89d10204bb6e9fa40f049af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:18 +0000
Subject: [PATCH 35/49] fix: do not loop over declared pixels of zero
 suppressed samples without samples

---
 src/eventio/simtel/objects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 74950da..f68f775 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1110,6 +1110,10 @@ class ADCSamples(EventIOObject):
             (n_gains, n_pixels, n_samples),
             dtype='u2'
         )
+        # nothing to read, independent of the number of pixels
+        if n_samples == 0:
+            return adc_samples
+
         n_pixels_signal = sum(p[1] - p[0] for p in pixel_ranges)
         data = read_remaining_with_check(byte_stream, self.header.content_size)
         adc_samples_signal, bytes_read = unsigned_varint_arrays_differential(
-- 
2.43.0


From 060052d47449b7842a8d1a831dd88c3247b9a4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:25 +0000
Subject: [PATCH 36/49] fix: iterating over an IACTFile after peek on
 compressed files

Going back to the first event is not possible for pipes and zstd streams,
the peeked object has to be used instead.
---
 src/eventio/iact/__init__.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index dff8798..3c2036b 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -138,10 +138,19 @@ class IACTFile(EventIOFile):
         '''
         Generator over the single array events
         '''
-        self._next_header_pos = self._first_event_byte
-        # forget objects already read by `peek`, we start again at the first event
-        self.next = None
-        self.peek_error = None
+        # Start again at the first event. If that is the object already read by `peek`,
+        # keep it, reading it again is not possible for pipes and zstd streams.
+        if self.next is not None:
+            header = self.next.header
+            peeked_pos = header.content_address - header.header_size
+        else:
+            peeked_pos = self._next_header_pos
+
+        if peeked_pos != self._first_event_byte:
+            self._next_header_pos = self._first_event_byte
+            self.next = None
+            self.peek_error = None
+
         obj = next(self)
 
         while not isinstance(obj, RunEnd):
-- 
2.43.0


From 9025f9da278e8a8348c207d3fb3c316c4579c82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 37/49] fix: do not assign the data of the following event to
 an event without telescope data in IACTFile

---
 src/eventio/iact/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 3c2036b..053eba8 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -2,7 +2,7 @@ import logging
 from collections import namedtuple
 
 from ..base import KNOWN_OBJECTS, EventIOFile, EventIOObject
-from ..exceptions import check_type
+from ..exceptions import WrongType, check_type
 
 from .objects import (
     RunHeader,
@@ -169,6 +169,10 @@ class IACTFile(EventIOFile):
             obj = next(self)
 
             while not isinstance(obj, (TelescopeData, TelescopeArrayHead)):
+                # the data of this event is missing, do not take it from the next one
+                if isinstance(obj, (EventHeader, EventEnd, RunEnd)):
+                    raise WrongType((TelescopeData, TelescopeArrayHead), obj)
+
                 if isinstance(obj, Longitudinal):
                     longitudinal = obj.parse()
 
-- 
2.43.0


From 90dc96fe8d0967f773c0cb32622e9bdfa036fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 38/49] fix: do not drop the first photon bunches of an array
 without TelescopeArrayHead in IACTFile

---
 src/eventio/iact/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 053eba8..8c372ab 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -196,6 +196,7 @@ class IACTFile(EventIOFile):
                 n_photons = {}
                 n_bunches = {}
                 if split_always:
+                    check_type(obj, TelescopeArrayHead)
                     obj = next(self)
                     while not isinstance(obj, TelescopeArrayEnd):
                         check_type(obj, Photons)
-- 
2.43.0


From 3f6856e835aedba8280c650953e553ba823d5502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 39/49] fix: report a failing gzip process instead of ending
 normally

If the external program failed (truncated or damaged file, checksum error,
killed process) after a complete object, iteration ended as if the file was complete.
---
 src/eventio/base.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 2c3f88b..2fd2b66 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -24,16 +24,27 @@ class PipeWrapper:
     This class makes a sp.PIPE  forward-seekable
     by keeping track of the bytes already read
     and reading as many bytes as required in `seek`
+
+    If the `process` writing to the pipe is given, its failure is reported
+    instead of being mistaken for the end of the data.
     '''
-    def __init__(self, pipe):
+    def __init__(self, pipe, process=None):
         self.pipe = pipe
+        self.process = process
         self.pos = 0
 
     def read(self, size=-1):
         data = self.pipe.read(size)
         self.pos += len(data)
+        if not data and size != 0:
+            self._check_process()
         return data
 
+    def _check_process(self):
+        # 2 is only a warning, e.g. about garbage after the compressed data
+        if self.process is not None and self.process.wait() not in (0, 2):
+            raise EOFError('File seems to be truncated or damaged, decompression failed')
+
     def seek(self, offset, whence=0):
         if whence == 0:
             to_read = offset - self.pos
@@ -85,7 +96,9 @@ class EventIOFile:
                     if rc is not None and rc != 0:
                         raise ValueError(self.read_process.stderr.read().decode())
 
-                    self._filehandle = PipeWrapper(self.read_process.stdout)
+                    self._filehandle = PipeWrapper(
+                        self.read_process.stdout, self.read_process
+                    )
                     log.info('Using zcat')
                 except Exception as e:
                     log.info(str(e))
-- 
2.43.0


From 3839e0278d190bfb30be969ec81bb9e01a89bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 40/49] fix: plot empty histograms

The limits of the axes are set to the range of non zero contents, this raised
an IndexError for histograms without any, so that neither these nor the
following ones were plotted.
---
 src/eventio/scripts/plot_hists.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/plot_hists.py b/src/eventio/scripts/plot_hists.py
index 1ccbe0f..62ad854 100644
--- a/src/eventio/scripts/plot_hists.py
+++ b/src/eventio/scripts/plot_hists.py
@@ -51,10 +51,12 @@ def main():
                     marginal_y = np.sum(hist['data'], axis=1)
 
                     non_zero_x, = np.where(marginal_x != 0)
-                    plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
+                    if len(non_zero_x) > 0:
+                        plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
 
                     non_zero_y, = np.where(marginal_y != 0)
-                    plt.ylim(y_bins[non_zero_y[0]], y_bins[non_zero_y[-1] + 1])
+                    if len(non_zero_y) > 0:
+                        plt.ylim(y_bins[non_zero_y[0]], y_bins[non_zero_y[-1] + 1])
                     plt.colorbar(label='Number of Events')
 
                 else:
@@ -62,7 +64,8 @@ def main():
                     plt.hist(centers, bins=x_bins, weights=hist['data'])
 
                     non_zero_x, = np.where(hist['data'] != 0)
-                    plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
+                    if len(non_zero_x) > 0:
+                        plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
 
                 plt.title(hist['title'])
                 plt.tight_layout()
-- 
2.43.0


From 873851e6b0114f0ea4410cc96bea052b2ad89fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 41/49] fix: an empty calibration event or calibration
 photoelectrons object does not end a sim_telarray file

---
 src/eventio/simtel/simtelfile.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index f24c56e..ed8700c 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -332,7 +332,12 @@ class SimTelFile:
             self.corsika_inputcards.append(o.parse())
 
         elif isinstance(o, CalibrationEvent):
-            array_event = parse_array_event(next(o), self.allowed_telescopes)
+            # StopIteration would be mistaken for the end of the file
+            sub_object = next(o, None)
+            if sub_object is None:
+                raise ValueError(f"{o} does not contain an array event")
+
+            array_event = parse_array_event(sub_object, self.allowed_telescopes)
             event = self.current_event
             self.current_event = {
                 "type": "calibration",
@@ -348,7 +353,7 @@ class SimTelFile:
                 self._current_calib_pe = None
 
         elif isinstance(o, CalibrationPhotoelectrons):
-            telescope_data = next(o)
+            telescope_data = next(o, None)
             if not isinstance(telescope_data, iact.TelescopeData):
                 warnings.warn(
                     f"Unexpected sub-object: {telescope_data} in {o}, ignoring",
-- 
2.43.0


From 233310cbb1e82c6952c6040f6bd545258499283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 42/49] fix: report array events and telescope events without
 any object

---
 src/eventio/simtel/simtelfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index ed8700c..6e96e30 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -502,6 +502,9 @@ def parse_array_event(array_event, allowed_telescopes=None):
         elif isinstance(o, StereoReconstruction):
             event["stereo_reconstruction"] = o.parse()
 
+    if event["trigger_information"] is None:
+        raise ValueError(f"{array_event} does not contain trigger information")
+
     missing_tracking = set(telescope_events.keys()) - set(tracking_positions.keys())
     if missing_tracking:
         raise NoTrackingPositions(
@@ -562,4 +565,7 @@ def parse_telescope_event(telescope_event):
                 event["aux_traces"] = {}
             event["aux_traces"][o.header.id] = o.parse()
 
+    if 'header' not in event:
+        raise ValueError(f"{telescope_event} does not contain a telescope event header")
+
     return event
-- 
2.43.0


From 91e6f01e005817fe9985d11f473fcf23fee86cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 43/49] fix: event readers raise EOFError instead of
 StopIteration for files ending in their header

---
 src/eventio/iact/__init__.py     | 7 +++++++
 src/eventio/simtel/simtelfile.py | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 8c372ab..c6d6c6c 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -101,6 +101,13 @@ class IACTFile(EventIOFile):
     def __init__(self, path, zcat=True):
         super().__init__(path, zcat=zcat)
 
+        try:
+            self._read_header_objects()
+        except StopIteration:
+            # must not be mistaken for the end of an iteration by callers
+            raise EOFError('File ends before the first event') from None
+
+    def _read_header_objects(self):
         header_object = next(self)
         check_type(header_object, RunHeader)
         self.header = header_object.parse()
diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 6e96e30..928f0f9 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -206,7 +206,11 @@ class SimTelFile:
         # and we found the telescope_descriptions of all telescopes
         found_all_telescopes = False
         while not found_all_telescopes:
-            self._parse_next_object()
+            try:
+                self._parse_next_object()
+            except StopIteration:
+                # must not be mistaken for the end of an iteration by callers
+                raise EOFError('File ends before all telescope descriptions were read') from None
 
             # check if we found all the descriptions of all telescopes
             if self.n_telescopes is not None:
-- 
2.43.0


From fdc061367872b8dcc0cda6db3db3811a11de17e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:49 +0000
Subject: [PATCH 44/49] fix: eventio_cut_file must not overwrite its input file

---
 src/eventio/scripts/cut_eventio_file.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index 4b275aa..72e2c23 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -3,6 +3,7 @@ Cleanly cut an eventio file, so that the
 uncompressed size is at most `max_size`
 '''
 from argparse import ArgumentParser
+import os
 import re
 import gzip
 from ..base import EventIOFile
@@ -50,6 +51,11 @@ def main():
     args = parser.parse_args()
 
     max_size = parse_size(args.max_size)
+
+    # opening the output would delete the input
+    if os.path.exists(args.outputfile) and os.path.samefile(args.inputfile, args.outputfile):
+        parser.error('inputfile and outputfile must not be the same file')
+
     bytes_to_read = 0
     with EventIOFile(args.inputfile) as f:
         last_o = None
-- 
2.43.0


From 1c61f2d99525aa2f047f0692a36b5994762263f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:49 +0000
Subject: [PATCH 45/49] fix: eventio_cut_file with a size smaller than the
 first object

---
 src/eventio/scripts/cut_eventio_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index 72e2c23..54e40b8 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -68,7 +68,8 @@ def main():
                 break
 
     print('Writing {:.2f}MB (uncompressed)'.format(bytes_to_read / 1024**2))
-    print('Last object is of type {}'.format(last_o.header.type))
+    if last_o is not None:
+        print('Last object is of type {}'.format(last_o.header.type))
 
     if args.outputfile.endswith('.gz'):
         open_file = gzip.open
-- 
2.43.0


From bea73787af7f0006c8a07928bf06bee26cbcf90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:06 +0000
Subject: [PATCH 46/49] fix: do not interpret titles of histograms as formulas

---
 src/eventio/scripts/plot_hists.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/plot_hists.py b/src/eventio/scripts/plot_hists.py
index 62ad854..56e2ffc 100644
--- a/src/eventio/scripts/plot_hists.py
+++ b/src/eventio/scripts/plot_hists.py
@@ -67,7 +67,7 @@ def main():
                     if len(non_zero_x) > 0:
                         plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
 
-                plt.title(hist['title'])
+                plt.title(hist['title'], parse_math=False)
                 plt.tight_layout()
 
                 if not args.output_base:
-- 
2.43.0


From 46d772b7d231f61ade5009e0ab0c916590f62365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 47/49] fix: telescope definition without telescopes

---
 src/eventio/iact/objects.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index 5f9e78e..532fb75 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -83,7 +83,12 @@ class TelescopeDefinition(EventIOObject):
         self.seek(4)
         data = self.read()
 
-        number_of_following_arrays = len(data) // (self.n_telescopes * 4)
+        # also valid without any telescope, e.g. if only particles are stored
+        if self.n_telescopes == 0:
+            number_of_following_arrays = 4
+        else:
+            number_of_following_arrays = len(data) // (self.n_telescopes * 4)
+
         if number_of_following_arrays != 4:
             # DN: I think this cannot happen, but who knows.
             msg = 'Number_of_following_arrays is: {}'
-- 
2.43.0


From b4260465472a9fb85026106eefaa238461941d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 48/49] fix: yield_n_subobjects with n=0 yields nothing

---
 src/eventio/search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/search_utils.py b/src/eventio/search_utils.py
index 0de7543..9f3e466 100644
--- a/src/eventio/search_utils.py
+++ b/src/eventio/search_utils.py
@@ -81,6 +81,9 @@ def yield_subobjects(f, eventio_type):
 
 
 def yield_n_subobjects(f, eventio_type, n=3):
+    if n <= 0:
+        return
+
     for i, obj in enumerate(yield_subobjects(f, eventio_type), start=1):
         if i >= n:
             yield obj
-- 
2.43.0


From f3f044e0583e77f38278b70028fbae2be0828c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 49/49] fix: reading photon bunches in chunks continues if the
 object is read in between

---
 src/eventio/iact/objects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index 532fb75..e525816 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -277,12 +277,18 @@ class Photons(EventIOObject):
         if last_chunksize == 0:
             last_chunksize = chunksize
 
+        # this object might be read by others in between two chunks
+        position = 12
+
         # read the first full size chunks
         for _ in range(n_chunks - 1):
+            self.seek(position)
             data = self.read_data(chunksize=chunksize)
+            position = self.tell()
             yield self.parse_emitter(data)
 
         # read the remaining, smaller chunk
+        self.seek(position)
         data = self.read_data(chunksize=last_chunksize)
         yield self.parse_emitter(data)
 
-- 
2.43.0

