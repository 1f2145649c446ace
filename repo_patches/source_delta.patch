From b294806d11d74a83e694044fbcc3352b68cf3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 01/43] fix: missing header extension is a truncation, not the
 end of the file

---
 src/eventio/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index fddfbac..f57bc18 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -226,7 +226,7 @@ def read_header(byte_stream, offset, toplevel=False):
         check_size_or_raise(
             extension_field,
             constants.EXTENSION_SIZE,
-            zero_ok=True
+            zero_ok=False
         )
         ext = parse_extension_field(extension_field)
         header.content_size += ext
-- 
2.43.0


From ebc47db7d0c1065d8e2e08504b7c354f0d462010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 02/43] fix: decode signed variable-length integers beyond 2^62
 in varint_array

---
 src/eventio/var_int.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 9783df5..956f251 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -156,7 +156,7 @@ cpdef varint_array(
     cdef cnp.npy_intp[1] shape = [n_elements];
     cdef cnp.ndarray[int64_t, ndim=1] output = cnp.PyArray_SimpleNew(1, shape, cnp.NPY_INT64)
 
-    cdef int64_t val
+    cdef uint64_t val
     cdef uint8_t length
 
     cdef uint8_t one = 1;
-- 
2.43.0


From 9269b4362b3f14d0d3ba8e188ff8565cca6674e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 03/43] fix: raise EOFError for truncated variable-length
 integers

---
 src/eventio/var_int.pyx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 956f251..49e9dbb 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -50,9 +50,17 @@ cpdef uint8_t get_length_of_varint(const uint8_t first_byte):
 @cython.boundscheck(False)
 @cython.wraparound(False)  # disable negative indexing
 cpdef uint64_t parse_varint(const uint8_t[:] var_int_bytes):
-    cdef uint8_t length = var_int_bytes.shape[0]
+    cdef uint8_t length
     cdef uint64_t v[9]
     cdef uint8_t i  = 0
+
+    if var_int_bytes.shape[0] == 0:
+        raise EOFError('Data seems to be truncated')
+
+    length = get_length_of_varint(var_int_bytes[0])
+    if var_int_bytes.shape[0] < length:
+        raise EOFError('Data seems to be truncated')
+
     for i in range(length):
         v[i] = var_int_bytes[i]
 
-- 
2.43.0


From 22ea89c906aaae5ea9b85f59c24dbdcb2ceec1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 04/43] fix: raise WrongType instead of AttributeError when the
 type of an object does not match

---
 src/eventio/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index f57bc18..96bfe61 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -271,11 +271,11 @@ class EventIOObject:
     eventio_type = None
 
     def __init__(self, header, filehandle):
+        self.header = header
         if self.eventio_type is not None and header.type != self.eventio_type:
-            raise WrongType(self.eventio_type, header.type)
+            raise WrongType(self.__class__, self)
 
         self._filehandle = filehandle
-        self.header = header
         self.address = self.header.content_address
         self.size = self.header.content_size
         self.only_subobjects = self.header.only_subobjects
-- 
2.43.0


From 9afb6aa53a5e21b1e7e602fcb98cfc6580fee25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 05/43] fix: reading and seeking in an object stays at its own
 position inside its payload

---
 src/eventio/base.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 96bfe61..2281144 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -291,11 +291,16 @@ class EventIOObject:
             read `size` bytes from the payload of this object
             If size == -1 (default), read all remaining bytes.
         '''
-        # read all remaining bytes.
-        remaining = self.size - self._pos
-        if size == -1 or size > remaining:
+        # read all remaining bytes, never anything outside of the payload
+        remaining = max(self.size - self._pos, 0)
+        if size is None or size < 0 or size > remaining:
             size = remaining
 
+        # the filehandle is shared with the file and all other objects
+        pos = self.address + self._pos
+        if self._filehandle.tell() != pos:
+            self._filehandle.seek(pos)
+
         data = self._filehandle.read(size)
         self._pos += len(data)
 
@@ -333,18 +338,20 @@ class EventIOObject:
         address = self.address
         if whence == 0:
             assert offset >= 0
-            new_pos = self._filehandle.seek(address + offset, whence)
+            new_pos = offset
         elif whence == 1:
-            new_pos = self._filehandle.seek(offset, whence)
+            new_pos = self._pos + offset
+            if new_pos < 0:
+                raise ValueError('negative seek position {}'.format(new_pos))
         elif whence == 2:
             if offset > self.size:
                 offset = self.size
-            new_pos = self._filehandle.seek(address + self.size - offset, 0)
+            new_pos = self.size - offset
         else:
             raise ValueError(
                 'invalid whence ({}, should be 0, 1 or 2)'.format(whence)
             )
-        self._pos = new_pos - address
+        self._pos = self._filehandle.seek(address + new_pos, 0) - address
         return self._pos
 
     def tell(self):
-- 
2.43.0


From 45c1931882db29dc075ba08a65b46c25b4038f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 06/43] fix: read zstd files of several frames to their end

---
 src/eventio/base.py       | 4 +++-
 src/eventio/file_types.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 2281144..dbea865 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -97,7 +97,9 @@ class EventIOFile:
 
         elif is_zstd(path):
             log.info('Found zstd compressed file')
-            self._filehandle = zstd.ZstdDecompressor().stream_reader(open(path, 'rb'), read_size=1024**2)
+            self._filehandle = zstd.ZstdDecompressor().stream_reader(
+                open(path, 'rb'), read_size=1024**2, read_across_frames=True,
+            )
             self.zstd = True
 
         else:
diff --git a/src/eventio/file_types.py b/src/eventio/file_types.py
index 78e3e44..b57a295 100644
--- a/src/eventio/file_types.py
+++ b/src/eventio/file_types.py
@@ -48,7 +48,7 @@ def is_eventio(path):
             raise IOError('You need the `zstandard` module to read zstd files')
         with open(path, 'rb') as f:
             cctx = zstd.ZstdDecompressor()
-            with cctx.stream_reader(f) as stream:
+            with cctx.stream_reader(f, read_across_frames=True) as stream:
                 marker_bytes = stream.read(SYNC_MARKER_SIZE)
     else:
         with open(path, 'rb') as f:
-- 
2.43.0


From 4a0857283f7e4c1b0c43c27329d33f62b18e98af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 07/43] fix: yield_n_subobjects yields nothing for n=0

---
 src/eventio/search_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/search_utils.py b/src/eventio/search_utils.py
index 0de7543..216f9ee 100644
--- a/src/eventio/search_utils.py
+++ b/src/eventio/search_utils.py
@@ -81,6 +81,9 @@ def yield_subobjects(f, eventio_type):
 
 
 def yield_n_subobjects(f, eventio_type, n=3):
+    if n < 1:
+        return
+
     for i, obj in enumerate(yield_subobjects(f, eventio_type), start=1):
         if i >= n:
             yield obj
-- 
2.43.0


From c9d042ebe40a3783f67335b17c68e53f0f9738a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:21 +0000
Subject: [PATCH 08/43] fix: CameraSettings before version 4 use the documented
 key curved_surface

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 2830d47..3a3436c 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -250,7 +250,7 @@ class CameraSettings(TelescopeObject):
                 cam['pixel_area'] = np.repeat(read_float(byte_stream), n_pixels)
                 cam['pixel_size'] = np.repeat(read_float(byte_stream), n_pixels)
         else:
-            cam['curve_surface'] = 0
+            cam['curved_surface'] = 0
             cam['pixels_parallel'] = 1
             cam['common_pixel_shape'] = 0
             cam['pixel_z'] = np.zeros(n_pixels, dtype='f4')
-- 
2.43.0


From 08e7803095b0168edfa2fcd52d5c32ac8af18e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:53 +0000
Subject: [PATCH 09/43] fix: MCExtraParams reads as many float parameters as
 are stored

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 3a3436c..603f37a 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1463,7 +1463,7 @@ class MCExtraParams(EventIOObject):
         if ep['n_iparam'] > 0:
             ep['iparam'] = read_array(byte_stream, dtype='<i4', count=ep['n_iparam'])
         if ep['n_fparam'] > 0:
-            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_iparam'])
+            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_fparam'])
         return ep
 
 
-- 
2.43.0


From 714d6382d0ef2f23f7d8615d375ac1813ec1f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:01 +0000
Subject: [PATCH 10/43] fix: MCShower reads its extra parameters from where
 they are stored

---
 src/eventio/simtel/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 603f37a..d6fefff 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1442,9 +1442,9 @@ class MCShower(EventIOObject):
             mc['profiles'].append(p)
 
         if self.header.version >= 2:
-            h = read_header(self, offset=self._filehandle.tell(), toplevel=False)
+            h = read_header(byte_stream, offset=byte_stream.tell(), toplevel=False)
             assert h.type == 1215
-            mc['mc_extra_params'] = MCExtraParams(h, self).parse()
+            mc['mc_extra_params'] = MCExtraParams(h, byte_stream).parse()
         return mc
 
 
-- 
2.43.0


From 2eeb630db78c48a591b4b285c15d4cf9d2d40a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 11/43] fix: TriggerInformation without trigger masks (versions
 0 and 1) can be parsed

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index d6fefff..1490dce 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -647,7 +647,7 @@ class TriggerInformation(EventIOObject):
         # here we fix the bug, as does the fixed hessio library.
         # This only affects versions up to 3, as that was the highest version
         # existing before the fix was introduced.
-        if version <= 3:
+        if 2 <= version <= 3:
             self.fix_teltrg_type_mask(event_info["teltrg_type_mask"])
 
         return event_info
-- 
2.43.0


From 140aed7a50c20ebae436cc939a3938ea566c7888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:17 +0000
Subject: [PATCH 12/43] fix: correcting the trigger masks keeps the bits above
 bit 31

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 1490dce..0c84ede 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -654,7 +654,7 @@ class TriggerInformation(EventIOObject):
 
     @staticmethod
     def fix_teltrg_type_mask(mask):
-        wrong_bits = np.uint32(0x10 | 0x20 | 0x40)
+        wrong_bits = mask.dtype.type(0x10 | 0x20 | 0x40)
         # switch on bits in correct position
         mask |= (mask & wrong_bits) << 4
         # set wrong bits to 0
-- 
2.43.0


From 91def6812bb57cea4fb16af613bc948691779f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:26 +0000
Subject: [PATCH 13/43] fix: TelescopeEventHeader with physical addresses in
 versions 0 and 1

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 0c84ede..b3f6e50 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -814,7 +814,7 @@ class TelescopeEventHeader(TelescopeObject):
 
         if t & 0x200:
             if self.header.version <= 1:
-                event_head['n_phys_addr'] = struct.unpack('<h', data[pos:pos + 2])
+                event_head['n_phys_addr'], = struct.unpack('<h', data[pos:pos + 2])
                 pos += 2
                 event_head['phys_addr'] = np.frombuffer(
                     data, dtype='<i2', count=event_head['n_phys_addr'], offset=pos
-- 
2.43.0


From da4ba478a7d5b94df8c23af014215c5d3c006860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:48 +0000
Subject: [PATCH 14/43] fix: reading a string that is cut off raises EOFError
 instead of returning a part of it

---
 src/eventio/tools.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eventio/tools.py b/src/eventio/tools.py
index 63a68ba..4bd72f0 100644
--- a/src/eventio/tools.py
+++ b/src/eventio/tools.py
@@ -41,13 +41,20 @@ def read_array(f, dtype, count):
     return np.frombuffer(f.read(count * dt.itemsize), count=count, dtype=dt)
 
 
+def _read_exactly(f, size):
+    data = f.read(size)
+    if len(data) != size:
+        raise EOFError('File seems to be truncated')
+    return data
+
+
 def read_string(f):
     '''Read a string from eventio file or object f.
     Eventio stores strings as a short giving the length
     of the string and the string itself.
     '''
     length = read_short(f)
-    return f.read(length)
+    return _read_exactly(f, length)
 
 
 def read_var_string(f):
@@ -56,7 +63,7 @@ def read_var_string(f):
     the variable length integer instead of a short.
     '''
     length = read_unsigned_varint(f)
-    return f.read(length)
+    return _read_exactly(f, length)
 
 
 def read_from(f, fmt):
-- 
2.43.0


From 8d0771db8929ec97e9a1c24fe1033377293c10c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:18 +0000
Subject: [PATCH 15/43] fix: an EventEnd without its CORSIKA block raises
 EOFError

---
 src/eventio/iact/objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index 2f12206..a8a81d1 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -402,7 +402,11 @@ class EventEnd(EventIOObject):
         if n != 273:
             raise WrongSize('Expected 3 floats, but found {}'.format(n))
 
-        return parse_event_end(self.read(), version=corsika_version)
+        data = self.read()
+        if len(data) < 4 * n:
+            raise EOFError('File seems to be truncated')
+
+        return parse_event_end(data, version=corsika_version)
 
     def __str__(self):
         return super().__str__() + '(event_id={})'.format(self.header.id)
-- 
2.43.0


From 9d80ed1b06c1bf2e334610df9e710127a0a15741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 16/43] fix: read_sector_information_v1 never reads past the
 end of the data

---
 src/eventio/simtel/parsing.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eventio/simtel/parsing.pyx b/src/eventio/simtel/parsing.pyx
index e03a670..fdec671 100644
--- a/src/eventio/simtel/parsing.pyx
+++ b/src/eventio/simtel/parsing.pyx
@@ -21,14 +21,19 @@ cpdef read_sector_information_v1(
     cdef array.array sector
 
     cdef uint64_t pos = offset
+    cdef uint64_t size = data.shape[0]
     for i in range(n_pixels):
 
+        if pos + 2 > size:
+            raise EOFError('Data seems to be truncated')
         short_ptr = <int16_t*> &data[pos]
         n = short_ptr[0]
         pos += 2
 
         sector = array.array('h')
         for j in range(n):
+            if pos + 2 > size:
+                raise EOFError('Data seems to be truncated')
             short_ptr = <int16_t*> &data[pos]
             sector.append(short_ptr[0])
             pos += 2
-- 
2.43.0


From a2bdb66ccaea070af0046b363738cb013bd3cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 17/43] fix: parse_mc_event never reads past the end of the
 data

---
 src/eventio/simtel/parsing.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/simtel/parsing.pyx b/src/eventio/simtel/parsing.pyx
index fdec671..f4661d9 100644
--- a/src/eventio/simtel/parsing.pyx
+++ b/src/eventio/simtel/parsing.pyx
@@ -69,6 +69,9 @@ cpdef dict parse_mc_event(
     cdef float xcore, ycore, aweight
     cdef int32_t shower_num
 
+    if data.shape[0] < (16 if version >= 2 else 12):
+        raise EOFError('Data seems to be truncated')
+
     shower_num = (<int32_t*> &data[pos])[0]
     pos += 4
     xcore = (<float*> &data[pos])[0]
-- 
2.43.0


From 541f80188f6f4a94455f0140a38eaf8cd2935ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:08 +0000
Subject: [PATCH 18/43] fix: parsing the pixel timing never reads past the end
 of the data

---
 src/eventio/var_int.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 49e9dbb..8fce482 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -308,6 +308,12 @@ cdef uint64_t unsigned_varint_array_differential(
     return pos
 
 
+cdef int check_size(const uint8_t[:] data, uint64_t pos, uint64_t n_bytes) except -1:
+    if pos + n_bytes > <uint64_t> data.shape[0]:
+        raise EOFError('Data seems to be truncated')
+    return 0
+
+
 def simtel_pixel_timing_parse_list_type_2(
     const uint8_t[:] data,
     const int32_t[:, :] pixel_list,
@@ -339,6 +345,7 @@ def simtel_pixel_timing_parse_list_type_2(
 
         for i_pix in range(start, stop + 1):
             for i_type in range(n_types):
+                check_size(data, pos, 2)
                 timval[i_pix, i_type] = granularity * (<int16_t*> &data[pos])[0]
                 pos += 2
 
@@ -477,6 +484,7 @@ cpdef simtel_pixel_timing_parse_list_type_1(
     for i in range(pixel_list_length):
         i_pix = pixel_list[i]
         for i_type in range(n_types):
+            check_size(data, pos, 2)
             short_ptr = <int16_t*> &(data[pos])
             timval[i_pix, i_type] = granularity * short_ptr[0]
             pos += 2
-- 
2.43.0


From 85b0aea3ebb35ca2ddd8787d625c48de402df3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:25 +0000
Subject: [PATCH 19/43] fix: parsing photo-electrons never reads past the end
 of the data

---
 src/eventio/var_int.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 8fce482..798be72 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -407,17 +407,20 @@ def parse_1208(
         if version > 2:
             pix_id, length = varint(data, offset=pos)
         else:
+            check_size(data, pos, 2)
             pix_id = (<int16_t*> &data[pos])[0]
             length = 2
 
         pos += length
 
+        check_size(data, pos, 4)
         n_pe = (<int32_t*> &data[pos])[0]
         pos += 4
 
         photoelectrons[pix_id] = n_pe
 
         for j in range(n_pe):
+            check_size(data, pos, 4)
             t = (<float*> &data[pos])[0]
             pixel_id[i_pe + j] = pix_id
             time[i_pe + j] = t
@@ -425,6 +428,7 @@ def parse_1208(
 
         if has_amplitudes:
             for j in range(n_pe):
+                check_size(data, pos, 4)
                 amplitude[i_pe + j] = (<float*> &data[pos])[0]
                 pos += 4
 
@@ -440,10 +444,12 @@ def parse_1208(
     if has_photons:
         photons = cnp.PyArray_ZEROS(1, pixel_shape, cnp.NPY_INT32, False)
 
+        check_size(data, pos, 4)
         nonempty = (<int32_t*> &data[pos])[0]
         pos += 4
 
         for i in range(nonempty):
+            check_size(data, pos, 6)
             pix_id = (<int16_t*> &data[pos])[0]
             pos += 2
 
-- 
2.43.0


From 52a56c373c91fcdfd66913c8bac2a0da744ac223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 20/43] fix: parsing an object does not depend on what was read
 from it before

---
 src/eventio/simtel/objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index b3f6e50..30b215e 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -80,6 +80,7 @@ class HistoryCommandLine(EventIOObject):
     eventio_type = 71
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -89,6 +90,7 @@ class HistoryConfig(EventIOObject):
     eventio_type = 72
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -98,6 +100,7 @@ class HistoryMeta(EventIOObject):
     eventio_type = 75
 
     def parse(self):
+        self.seek(0)
         n_items = read_unsigned_varint(self)
 
         data = {}
@@ -1807,6 +1810,7 @@ class AuxiliaryDigitalTraces(EventIOObject):
     eventio_type = 2029
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1821,6 +1825,7 @@ class AuxiliaryAnalogTraces(EventIOObject):
     eventio_type = 2030
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1841,6 +1846,7 @@ class PixelTriggerTimes(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         trigger_times = {}
@@ -1860,6 +1866,7 @@ class PixelMonitoring(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         flags = read_int(byte_stream)
-- 
2.43.0


From 01bc4b0181cb45daea382e374db78189d4025c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 21/43] fix: read chunks of photon bunches from where they
 start

Parsing or reading the object between two chunks made the generator continue
from the wrong position and return wrong bunches or raise.
---
 src/eventio/iact/objects.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index a8a81d1..2bd96a3 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -272,12 +272,20 @@ class Photons(EventIOObject):
         if last_chunksize == 0:
             last_chunksize = chunksize
 
+        # The object or the file may have been used since the last chunk,
+        # so go to where the next chunk starts before reading it
+        dtype = self.compact_dtype if self.compact else self.long_dtype
+        chunk_length = chunksize * dtype.itemsize
+
         # read the first full size chunks
-        for _ in range(n_chunks - 1):
+        for i in range(n_chunks - 1):
+            self.seek(12 + i * chunk_length)
             data = self.read_data(chunksize=chunksize)
             yield self.parse_emitter(data)
 
         # read the remaining, smaller chunk
+        if n_chunks > 0:
+            self.seek(12 + (n_chunks - 1) * chunk_length)
         data = self.read_data(chunksize=last_chunksize)
         yield self.parse_emitter(data)
 
-- 
2.43.0


From edfc4167ab3ba3c4c0b6a70c87ccf31155467cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:27 +0000
Subject: [PATCH 22/43] fix: read the contents of filled integer histograms

---
 src/eventio/histograms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index a75ebd4..f86f50a 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -59,7 +59,7 @@ class Histograms(EventIOObject):
                     hist['data'] = np.zeros(n_counts)
             else:
                 if hist['tentries'] > 0:
-                    hist['data'] = read_array(self, dtype='<i4', counts=n_counts)
+                    hist['data'] = read_array(self, dtype='<i4', count=n_counts)
                 else:
                     hist['data'] = np.zeros(n_counts)
 
-- 
2.43.0


From 2822deded4712cadfc2b3e8b5074436ae3bdde47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:34 +0000
Subject: [PATCH 23/43] fix: padding after histogram titles with non-ASCII
 characters

---
 src/eventio/histograms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index f86f50a..ab3364b 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -17,8 +17,10 @@ class Histograms(EventIOObject):
         for i in range(n_histograms):
             hist = {}
             hist['type'] = self.read(1).decode('ascii')
-            hist['title'] = read_string(self).decode('utf-8')
-            if len(hist['title']) % 2 == 0:
+            title = read_string(self)
+            hist['title'] = title.decode('utf-8')
+            # there is a padding byte if the stored title has an even number of bytes
+            if len(title) % 2 == 0:
                 self.read(1)
             hist['id'] = read_int(self)
             hist['n_bins_x'] = read_short(self)
-- 
2.43.0


From 583324e3b6265a2e5b40bd9da1df95fc34597df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:43 +0000
Subject: [PATCH 24/43] fix: keep the pixel axis of ADC sums of cameras with
 one pixel

---
 src/eventio/simtel/objects.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 30b215e..2f16462 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -904,10 +904,7 @@ class ADCSums(EventIOObject):
                 data, n_arrays=n_gains, n_elements=n_pixels
             )
 
-            try:
-                return np.squeeze(raw['adc_sums'], axis=-1)
-            except ValueError:
-                return raw['adc_sums']
+            return raw['adc_sums']
 
         if raw['data_red_mode'] == 0 and raw['zero_sup_mode'] == 1:
             ns, ks = make_ks_n_ns(n_pixels)
@@ -948,10 +945,7 @@ class ADCSums(EventIOObject):
                         adc_sums[ADCSums.HI_GAIN, k - n + j] = hgval[mhg16]
                         mhg16 += 1
 
-            try:
-                return np.squeeze(raw['adc_sums'], axis=-1)
-            except ValueError:
-                return raw['adc_sums']
+            return raw['adc_sums']
 
         if raw['data_red_mode'] == 0 and raw['zero_sup_mode'] == 2:
             adc_sums = np.zeros((n_gains, n_pixels), dtype='f8')
@@ -1007,10 +1001,7 @@ class ADCSums(EventIOObject):
                     adc_sums[ADCSums.LO_GAIN, adc_id] = lg[mlg]
                     mlg += 1
 
-            try:
-                return np.squeeze(raw['adc_sums'], axis=-1)
-            except ValueError:
-                return raw['adc_sums']
+            return raw['adc_sums']
 
         raise NotImplementedError(
             (
-- 
2.43.0


From 296c3be97cf3a981ddb906f8bbcef205dbea5876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 25/43] fix: observation level particles do not carry over to
 the next shower

---
 src/eventio/simtel/simtelfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 2ca70ee..c686766 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -283,6 +283,8 @@ class SimTelFile:
 
         elif isinstance(o, MCShower):
             self.current_mc_shower = o.parse()
+            # particles belong to the shower they follow
+            self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
             # assume that array event without shower available are unpacked calibration events
-- 
2.43.0


From c1d638d4dbb7dbcf3848051d360ea4c6959c560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:28 +0000
Subject: [PATCH 26/43] fix: calibration events keep their negative event id

---
 src/eventio/simtel/simtelfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index c686766..897b52a 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -337,12 +337,12 @@ class SimTelFile:
             event = self.current_event
             self.current_event = {
                 "type": "calibration",
-                "event_id": -array_event.header.id,
                 "calibration_type": o.type,
             }
             self.current_event.update(
                 parse_array_event(array_event, self.allowed_telescopes)
             )
+            self.current_event["event_id"] = -array_event.header.id
             self._add_monitoring(self.current_event)
             if self._current_calib_pe is not None:
                 self.current_event["photoelectrons"] = self._current_calib_pe
-- 
2.43.0


From 85b7f47c76d49ce0258c78681ee848dcd58681c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 27/43] fix: events with trigger information of version 0 can
 be read

---
 src/eventio/simtel/simtelfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 897b52a..a0694b4 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -480,10 +480,12 @@ def parse_array_event(array_event, allowed_telescopes=None):
                 event["event_id"] = o.header.id
             trigger_information = o.parse()
             event["trigger_information"] = trigger_information
-            telescopes = set(trigger_information['telescopes_with_data'])
+            # not stored in version 0
+            telescopes = trigger_information.get('telescopes_with_data')
 
-            if allowed_telescopes and len(telescopes & allowed_telescopes) == 0:
-                break
+            if allowed_telescopes and telescopes is not None:
+                if len(set(telescopes) & allowed_telescopes) == 0:
+                    break
 
         elif isinstance(o, TelescopeEvent):
             if allowed_telescopes is None or o.telescope_id in allowed_telescopes:
-- 
2.43.0


From 0d75ced93b03a99cca16af95574e314cc94c4032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 28/43] fix: reading the payload of a truncated object raises
 EOFError

---
 src/eventio/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index dbea865..597653e 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -306,6 +306,9 @@ class EventIOObject:
         data = self._filehandle.read(size)
         self._pos += len(data)
 
+        if len(data) < size:
+            raise EOFError('File seems to be truncated')
+
         return data
 
     def __iter__(self):
-- 
2.43.0


From 3ead95ded0aee4327533c575c1dceaab8fdbba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 29/43] fix: an event that is cut off does not replace the
 previous one

---
 src/eventio/simtel/simtelfile.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index a0694b4..b70878a 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -287,15 +287,14 @@ class SimTelFile:
             self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
+            array_event_data = parse_array_event(o, self.allowed_telescopes)
+
             # assume that array event without shower available are unpacked calibration events
             if self.current_mc_shower is None:
                 event = self.current_event
                 self.current_event = {"type": "calibration"}
 
-            self.current_event["event_id"] = o.header.id
-            self.current_event.update(
-                parse_array_event(o, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event_data)
             self._add_monitoring(self.current_event)
 
         elif isinstance(o, iact.TelescopeData):
@@ -332,6 +331,8 @@ class SimTelFile:
 
         elif isinstance(o, CalibrationEvent):
             array_event = next(o)
+            array_event_data = parse_array_event(array_event, self.allowed_telescopes)
+
             # make event_id negative for calibration events to not overlap with
             # later air shower events
             event = self.current_event
@@ -339,9 +340,7 @@ class SimTelFile:
                 "type": "calibration",
                 "calibration_type": o.type,
             }
-            self.current_event.update(
-                parse_array_event(array_event, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event_data)
             self.current_event["event_id"] = -array_event.header.id
             self._add_monitoring(self.current_event)
             if self._current_calib_pe is not None:
-- 
2.43.0


From fc1b7f458c58da8bec98be355d2507c251d88afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 30/43] fix: iterating over the events of an IACTFile again
 after peeking starts at the first one

---
 src/eventio/iact/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 0d0db1e..0d2f3d8 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -139,6 +139,9 @@ class IACTFile(EventIOFile):
         Generator over the single array events
         '''
         self._next_header_pos = self._first_event_byte
+        # forget about an object peeked at somewhere else
+        self.next = None
+        self.peek_error = None
         obj = next(self)
 
         while not isinstance(obj, RunEnd):
-- 
2.43.0


From 4e089f943876e39f973ce315ef90cbd952bc00d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 31/43] fix: IACTFile refuses showers without their telescope
 data

---
 src/eventio/iact/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 0d2f3d8..66a1982 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -2,7 +2,7 @@ import logging
 from collections import namedtuple
 
 from ..base import KNOWN_OBJECTS, EventIOFile, EventIOObject
-from ..exceptions import check_type
+from ..exceptions import WrongType, check_type
 
 from .objects import (
     RunHeader,
@@ -169,6 +169,9 @@ class IACTFile(EventIOFile):
 
                     particles = obj.parse()
 
+                if isinstance(obj, (EventHeader, ArrayOffsets, EventEnd, RunEnd)):
+                    raise WrongType((TelescopeData, TelescopeArrayHead), obj)
+
                 obj = next(self)
 
             split_always = isinstance(obj, TelescopeArrayHead)
@@ -183,6 +186,7 @@ class IACTFile(EventIOFile):
                 n_photons = {}
                 n_bunches = {}
                 if split_always:
+                    check_type(obj, TelescopeArrayHead)
                     obj = next(self)
                     while not isinstance(obj, TelescopeArrayEnd):
                         check_type(obj, Photons)
-- 
2.43.0


From f3ef8821dcb9df1c4033982e4607bf37a5df2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 32/43] fix: cut_eventio_file keeps an object that ends exactly
 at the limit

---
 src/eventio/scripts/cut_eventio_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index fb68a57..cbae47b 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -55,7 +55,7 @@ def main():
         last_o = None
         for o in f:
             last_byte = o.header.content_address + o.header.content_size
-            if last_byte < max_size:
+            if last_byte <= max_size:
                 bytes_to_read = last_byte
                 last_o = o
             else:
-- 
2.43.0


From 735af6761c4b55ef8f731d43b72c64aa9236f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 33/43] fix: cut_eventio_file writes an empty file if no object
 is within the limit

---
 src/eventio/scripts/cut_eventio_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index cbae47b..81c8273 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -62,7 +62,8 @@ def main():
                 break
 
     print('Writing {:.2f}MB (uncompressed)'.format(bytes_to_read / 1024**2))
-    print('Last object is of type {}'.format(last_o.header.type))
+    if last_o is not None:
+        print('Last object is of type {}'.format(last_o.header.type))
 
     if args.outputfile.endswith('.gz'):
         open_file = gzip.open
-- 
2.43.0


From 4e7ec54e27c7f24f0fa805f5be4a7a063ac5ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 34/43] fix: cut_eventio_file refuses sizes with trailing text

---
 src/eventio/scripts/cut_eventio_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index 81c8273..cf3d72b 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -26,7 +26,7 @@ parser.add_argument(
 
 
 def parse_size(size):
-    m = re.match(r'(\d+)([kMG])?', size)
+    m = re.fullmatch(r'(\d+)([kMG])?', size)
     if not m:
         raise ValueError('Format not recognized, valid are #, #k, #M or #G')
 
-- 
2.43.0


From a8c11610d6d2eda26697ce0290680b0789a282c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 35/43] fix: print_structure prints the exact number of objects
 it leaves out

---
 src/eventio/scripts/print_structure.py | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/eventio/scripts/print_structure.py b/src/eventio/scripts/print_structure.py
index d9ca5f0..d68d9f8 100644
--- a/src/eventio/scripts/print_structure.py
+++ b/src/eventio/scripts/print_structure.py
@@ -26,28 +26,33 @@ def print_structure():
     with EventIOFile(args.inputfile) as f:
         last = None
         last_level = 0
+        # number of objects in the current run of objects of the same type
         n_same = 0
 
+        def print_left_out():
+            if n_same > args.max_repeats:
+                print(
+                    '    ' * last_level,
+                    'And {} objects more of the same type'.format(
+                        n_same - args.max_repeats
+                    )
+                )
+
         try:
             for o, level in yield_all_objects_depth_first(f):
                 if last and last != EventIOObject and isinstance(o, last):
                     n_same += 1
-                    last_level = level
                 else:
+                    print_left_out()
                     last = o.__class__
-                    if n_same > args.max_repeats:
-                        print(
-                            '    ' * last_level,
-                            'And {} objects more of the same type'.format(
-                                n_same - args.max_repeats
-                            )
-                        )
-                    n_same = 0
-                    last_level = level
-
-                if n_same < args.max_repeats:
+                    n_same = 1
+                last_level = level
+
+                if n_same <= args.max_repeats:
                     print('    ' * level, conv(o))
+            print_left_out()
         except EOFError as e:
+            print_left_out()
             print(e)
 
 
-- 
2.43.0


From 78995379c20a13e2392af99597338ee77457939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 36/43] fix: print_simtel_history ends without error at the end
 of the file

---
 src/eventio/scripts/print_simtel_history.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/print_simtel_history.py b/src/eventio/scripts/print_simtel_history.py
index d7831e9..04adc38 100644
--- a/src/eventio/scripts/print_simtel_history.py
+++ b/src/eventio/scripts/print_simtel_history.py
@@ -11,13 +11,13 @@ def print_history():
     args = parser.parse_args()
 
     with EventIOFile(args.inputfile) as f:
-        o = next(f)
-        while isinstance(o, History):
+        for o in f:
+            if not isinstance(o, History):
+                break
             for subo in o:
                 t, line = subo.parse()
                 t = datetime.fromtimestamp(t)
                 print(f'{t:%Y-%m-%dT%H:%M:%S}', line.decode('utf-8').strip())
-            o = next(f)
 
 
 def main():
-- 
2.43.0


From de7c520a113b43a918fb8846438e2ad1d0b58152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:42 +0000
Subject: [PATCH 37/43] fix: SimTelFile ignores unexpected objects in the
 calibration photo-electrons, as it says

---
 src/eventio/simtel/simtelfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index b70878a..5f2134e 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -363,6 +363,7 @@ class SimTelFile:
                         f"Unexpected sub-object: {photoelectrons} in {telescope_data}, ignoring",
                         UnknownObjectWarning
                     )
+                    continue
 
                 tel_id = photoelectrons.telescope_id
                 self._current_calib_pe[tel_id] = photoelectrons.parse()
-- 
2.43.0


From dff17e65b9477c3b9010252287b85168ab3fe635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 38/43] fix: histograms without entries are plotted like any
 other

---
 src/eventio/scripts/plot_hists.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/plot_hists.py b/src/eventio/scripts/plot_hists.py
index 1ccbe0f..62ad854 100644
--- a/src/eventio/scripts/plot_hists.py
+++ b/src/eventio/scripts/plot_hists.py
@@ -51,10 +51,12 @@ def main():
                     marginal_y = np.sum(hist['data'], axis=1)
 
                     non_zero_x, = np.where(marginal_x != 0)
-                    plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
+                    if len(non_zero_x) > 0:
+                        plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
 
                     non_zero_y, = np.where(marginal_y != 0)
-                    plt.ylim(y_bins[non_zero_y[0]], y_bins[non_zero_y[-1] + 1])
+                    if len(non_zero_y) > 0:
+                        plt.ylim(y_bins[non_zero_y[0]], y_bins[non_zero_y[-1] + 1])
                     plt.colorbar(label='Number of Events')
 
                 else:
@@ -62,7 +64,8 @@ def main():
                     plt.hist(centers, bins=x_bins, weights=hist['data'])
 
                     non_zero_x, = np.where(hist['data'] != 0)
-                    plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
+                    if len(non_zero_x) > 0:
+                        plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
 
                 plt.title(hist['title'])
                 plt.tight_layout()
-- 
2.43.0


From 264c263cc8710aaf3d30ccfac93df0e3da556b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 39/43] fix: empty compact photon bunches were arrays of
 integers

---
 src/eventio/iact/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index 2bd96a3..fadf200 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -296,7 +296,7 @@ class Photons(EventIOObject):
             dtype = self.long_dtype
 
         if self.n_bunches == 0:
-            return np.array([], dtype=dtype)
+            return np.array([], dtype=self.long_dtype)
 
         count = self.n_bunches if chunksize is None else chunksize
 
-- 
2.43.0


From 43fdce3aab3235dd77d99a0c3debf89699d7b33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 40/43] fix: types of pixel shapes, areas and sizes depended on
 the flag for common shapes

---
 src/eventio/simtel/objects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 2f16462..f551317 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -245,13 +245,13 @@ class CameraSettings(TelescopeObject):
             if not cam['common_pixel_shape']:
                 cam['pixel_shape'] = np.array([
                     read_varint(byte_stream) for _ in range(n_pixels)
-                ])
+                ], dtype='i8')
                 cam['pixel_area'] = read_array(byte_stream, dtype='<f4', count=n_pixels)
                 cam['pixel_size'] = read_array(byte_stream, dtype='<f4', count=n_pixels)
             else:
                 cam['pixel_shape'] = np.repeat(read_varint(byte_stream), n_pixels)
-                cam['pixel_area'] = np.repeat(read_float(byte_stream), n_pixels)
-                cam['pixel_size'] = np.repeat(read_float(byte_stream), n_pixels)
+                cam['pixel_area'] = np.full(n_pixels, read_float(byte_stream), dtype='f4')
+                cam['pixel_size'] = np.full(n_pixels, read_float(byte_stream), dtype='f4')
         else:
             cam['curved_surface'] = 0
             cam['pixels_parallel'] = 1
-- 
2.43.0


From b4849cda4586a7592a7ae791f229be1189439850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 41/43] fix: histograms without entries had float64 data

---
 src/eventio/histograms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index ab3364b..eab3662 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -58,12 +58,12 @@ class Histograms(EventIOObject):
                 if hist['tentries'] > 0:
                     hist['data'] = read_array(self, dtype='<f4', count=n_counts)
                 else:
-                    hist['data'] = np.zeros(n_counts)
+                    hist['data'] = np.zeros(n_counts, dtype='<f4')
             else:
                 if hist['tentries'] > 0:
                     hist['data'] = read_array(self, dtype='<i4', count=n_counts)
                 else:
-                    hist['data'] = np.zeros(n_counts)
+                    hist['data'] = np.zeros(n_counts, dtype='<i4')
 
             if hist['n_bins_y'] > 0:
                 hist['data'] = hist['data'].reshape((hist['n_bins_y'], hist['n_bins_x']))
-- 
2.43.0


From 5928a28aa7751807bba4e7c8e75b5a629619555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 42/43] fix: str of a StereoReconstruction failed for result
 bits beyond the twelfth

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index f551317..718652f 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1236,7 +1236,7 @@ class StereoReconstruction(EventIOObject):
         return '{}[{}](result_bits={})'.format(
             self.__class__.__name__,
             self.header.type,
-            np.binary_repr(self.header.id, width=12),
+            format(self.header.id & 0xffffffff, '012b'),
         )
 
     def parse(self):
-- 
2.43.0


From 0721ffb16633927a26d5c92796813339e0821a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 43/43] fix: read gzip files whose name starts with a dash

---
 src/eventio/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 597653e..4b83b07 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -1,4 +1,5 @@
 from io import BufferedIOBase
+import os
 import warnings
 import weakref
 import struct
@@ -78,7 +79,7 @@ class EventIOFile:
                 try:
                     log.info('Trying to read using zcat')
                     self.read_process = sp.Popen(
-                        ['gzip', '-cd', path], stdout=sp.PIPE, stderr=sp.PIPE
+                        ['gzip', '-cd', os.path.abspath(path)], stdout=sp.PIPE, stderr=sp.PIPE
                     )
                     self.read_process.poll()
                     rc = self.read_process.returncode
-- 
2.43.0

