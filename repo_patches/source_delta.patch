From 81404349e3c499b6f88ab51dcaf5735671836294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 001/250] fix: TBX channel_freqs used an undefined name

FrameHeader.channel_freqs (and through it get_first_channel(frequency=True))
raised NameError for every frame; the frame's own channel count is meant.
---
 lsl/reader/tbx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index 4909ff6..5795ed6 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -82,7 +82,7 @@ class FrameHeader(FrameHeaderBase):
         """
         
         fC = ndp_common.fC
-        return (np.arange(FRAME_CHANNEL_COUNT, dtype=np.float32)+self.first_chan) * fC
+        return (np.arange(self.nchan, dtype=np.float32)+self.first_chan) * fC
 
 
 class FramePayload(FramePayloadBase):
-- 
2.43.0


From 434dbf80ce39c4dbae070bc292a658a3976be274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:53 +0000
Subject: [PATCH 002/250] fix: TBX read_frame_ci8 raised NameError instead of
 SyncError

FRAME_SIZE is not defined for TBX, whose reader has already moved back to the
start of the bad frame (as in read_frame).
---
 lsl/reader/tbx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index 5795ed6..ea2664f 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -203,7 +203,7 @@ def read_frame_ci8(filehandle):
         newFrame = read_tbx_ci8(filehandle, Frame())
         newFrame.payload._data = newFrame.payload.data.view(CI8)
     except gSyncError:
-        mark = filehandle.tell() - FRAME_SIZE
+        mark = filehandle.tell()
         raise SyncError(location=mark)
     except gEOFError:
         raise EOFError
-- 
2.43.0


From c853189c785bc8c04f25fab89a2d3348e3f06328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:13 +0000
Subject: [PATCH 003/250] fix: TBX reader reported end of file for complete
 frames near the end of a file

The reader asks for as many bytes as the frames of the last file it saw (at
first, the largest frame there is) and took a short read for the end of the
file even when the bytes left hold complete, smaller frames.
---
 lsl/reader/tbx.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 13be605..80e40a3 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -54,6 +54,7 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     PyObject *ph, *buffer, *output, *frame, *fHeader, *fPayload, *temp;
     PyArrayObject *data;
     int i, nstand, nchan;
+    Py_ssize_t nread;
     TBXFrame cFrame;
     
     static constexpr int frameSize = sizeof(TBXHeader)+8+NCHAN*NSTAND*2*1;
@@ -78,25 +79,35 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
             PyErr_Format(PyExc_AttributeError, "Object does not have a read() method");
         }
         return NULL;
-    } else if( PyBytes_GET_SIZE(buffer) != frameSize ) {
+    } else if( PyBytes_GET_SIZE(buffer) < (Py_ssize_t) sizeof(TBXHeader) ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
         Py_XDECREF(buffer);
         return NULL;
     }
-    memcpy(&cFrame, PyBytes_AS_STRING(buffer), frameSize);
+    nread = PyBytes_GET_SIZE(buffer);
+    memcpy(&cFrame, PyBytes_AS_STRING(buffer), nread);
     Py_XDECREF(buffer);
     
     // Determine the number of stands and channels in the frame 
     nstand = __bswap_16(cFrame.header.nstand);
     nchan = __bswap_16(cFrame.header.nchan);
     
+    // A short read is the end of the file unless what is left holds a smaller frame
+    if( nread != frameSize
+        && ( !validSync5C(cFrame.header.syncWord)
+             || (nstand == NSTAND && nchan == NCHAN)
+             || nread < (Py_ssize_t) sizeof(TBXHeader)+8+((Py_ssize_t) nchan)*nstand*2*1 ) ) {
+        PyErr_Format(EOFError, "End of file encountered during filehandle read");
+        return NULL;
+    }
+    
     // If nstand is not what we expect, update the cache and retry with correct size
     if( nstand != NSTAND || nchan != NCHAN ) {
         cached_nstand = nstand; // Update for next time
         cached_nchan = nchan;
         Py_XDECREF(tbx_size);   // Update for next time
         tbx_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change tbx_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        PyObject_CallMethod(ph, "seek", "ni", -nread, 1);
         
 #define MATCH_TBX_MODE(MNSTAND,MNCHAN) \
     case MNCHAN: \
-- 
2.43.0


From 7705646be9488fca0753b066f6da542d64b7feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:13 +0000
Subject: [PATCH 004/250] fix: read_frame_i8 of complex VDIF data returned
 garbage

The unpacked samples are int8 there, but were read as float32 (past the end of
the array) when they were paired into complex values.
---
 lsl/reader/vdif.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index a69caa9..3625ac3 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -328,10 +328,10 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         
-        float *a;
+        T *a;
         std::complex<float> *b;
         
-        a = (float *) PyArray_DATA(data);
+        a = (T *) PyArray_DATA(data);
         b = (std::complex<float> *) PyArray_DATA(tempArrayComplex);
         for(i=0; i<nSamples; i+=2) {
             *(b+i/2) = std::complex<float>(*(a+i+0), *(a+i+1));
-- 
2.43.0


From 4e5dbe1fabb98010cce666c808f511156d3f0a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:31 +0000
Subject: [PATCH 005/250] fix: VDIF and DR spectrometer readers released
 buffers twice on errors

After a buffer (or the unpacked array) had been released, a later error in the
same call released it again: corrupting the interpreter for, e.g., a VDIF
frame with an unsupported number of bits or a channel count that does not
divide the number of samples.
---
 lsl/reader/drspec.cpp | 2 ++
 lsl/reader/vdif.cpp   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index 6aa65d7..f5b15c6 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -275,6 +275,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
     }
     memcpy(&header, PyBytes_AS_STRING(buffer), sizeof(header));
     Py_XDECREF(buffer);
+    buffer = NULL;
     
     // Check the header's magic numbers
     if( header.MAGIC1 != 0xC0DEC0DE || header.MAGIC2 != 0xED0CED0C) {
@@ -370,6 +371,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
     }
     memcpy(data, PyBytes_AS_STRING(buffer), nBytes);
     Py_XDECREF(buffer);
+    buffer = NULL;
     
     Py_BEGIN_ALLOW_THREADS
     
diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index 3625ac3..89f8a58 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -211,6 +211,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     memcpy(&bHeader, PyBytes_AS_STRING(buffer), sizeof(bHeader));
     Py_XDECREF(buffer);
+    buffer = NULL;
     
     // Fix up various bits in the basic header
     uint32_t nChan;
@@ -250,6 +251,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         }
         memcpy(&eHeader, PyBytes_AS_STRING(buffer), sizeof(eHeader));
         Py_XDECREF(buffer);
+        buffer = NULL;
         
     } else {
         // Legacy headers are missing this information
@@ -291,6 +293,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     memcpy(rawData, PyBytes_AS_STRING(buffer), sizeof(uint8_t)*dataLength);
     Py_XDECREF(buffer);
+    buffer = NULL;
     
     // Parse it out
     if( bitsPerSample == 8 ) {
@@ -357,6 +360,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         
         tempArrayMulti = (PyArrayObject*) PyArray_Newshape(data, &padims, NPY_CORDER);
         Py_XDECREF(data);
+        data = NULL;
         if( tempArrayMulti == NULL ) {
             PyErr_Format(PyExc_MemoryError, "Cannot create output array");
             goto fail;
-- 
2.43.0


From 6555752549a579c59f4bac3eb3e890ca636271fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:06 +0000
Subject: [PATCH 006/250] fix: DR spectrometer reader read past its buffer for
 unsupported data formats

A format byte that is not one of the combinations the reader unpacks (0x03,
0x11, 0x00, ...) was unpacked as four products whatever the frame holds; it is
now rejected.
---
 lsl/reader/drspec.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index f5b15c6..0eb348e 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -284,6 +284,27 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     
+    // Check that the data format is one that we know how to unpack
+    switch( header.stokes_format ) {
+        case LINEAR_XX:
+        case LINEAR_XY_RE:
+        case LINEAR_XY_IM:
+        case LINEAR_YY:
+        case LINEAR_XX | LINEAR_YY:
+        case LINEAR_XY_RE | LINEAR_XY_IM:
+        case LINEAR_XX | LINEAR_XY_RE | LINEAR_XY_IM | LINEAR_YY:
+        case STOKES_I:
+        case STOKES_Q:
+        case STOKES_U:
+        case STOKES_V:
+        case STOKES_I | STOKES_V:
+        case STOKES_I | STOKES_Q | STOKES_U | STOKES_V:
+            break;
+        default:
+            PyErr_Format(PyExc_RuntimeError, "Cannot parse data with format 0x%02X", header.stokes_format);
+            goto fail;
+    }
+    
     // Get the data format
     nSets = pol_count(header.stokes_format)*2;
     
-- 
2.43.0


From 4de4e2b74624a20838718e70055e7d09788a3e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:18 +0000
Subject: [PATCH 007/250] fix: flush() of a frame buffer did not return its
 segments in time order

The segments came in the order in which their first frames had arrived, so
that frames received out of order stayed out of order.
---
 lsl/reader/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index b2f7c7d..0fcf6f9 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -360,7 +360,7 @@ class FrameBufferBase(object):
             the LWA-SV COR frames out of the buffer
         """
         
-        for key in list(self.buffer):
+        for key in sorted(self.buffer):
             yield self.get(key_to_return=key)
             
     def reset(self):
-- 
2.43.0


From d35d7e98b97dd57c5bffd06fb9acd90b514af447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:18 +0000
Subject: [PATCH 008/250] fix: 'from lsl.reader.buffer import *' failed on a
 class that does not exist

---
 lsl/reader/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 0fcf6f9..bb5f31d 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -39,7 +39,7 @@ from lsl.logger import LSL_LOGGER
 
 __version__ = '1.4'
 __all__ = ['FrameBufferBase', 'DRXFrameBuffer', 'DRX8FrameBuffer', 
-           'TBFFrameBuffer', 'VDIFFrameBuffer', 'TBXFrameBuffer']
+           'CORFrameBuffer', 'VDIFFrameBuffer', 'TBXFrameBuffer']
 
 
 def _cmp_frames(x, y):
-- 
2.43.0


From 2a7d0bcb815693f1a3feece2b047e443232a4111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:18 +0000
Subject: [PATCH 009/250] fix: append() of a frame buffer returned True for
 frames that it dropped

As documented, False is returned when a frame is dropped because it belongs to
a segment that has already been returned.
---
 lsl/reader/buffer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index bb5f31d..41584cf 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -244,12 +244,14 @@ class FrameBufferBase(object):
             frames = deque([frames,])
             
         # Loop over frames
+        status = True
         for frame in frames:
             # Make sure that it is not in the `done' list.  If it is,
             # disgaurd the frame and make a note of it.
             fom = self.get_figure_of_merit(frame)
             if fom <= self.done[-1]:
                 self.dropped += 1
+                status = False
                 continue
                 
             # If that time tag hasn't been done yet, add it to the 
@@ -260,7 +262,7 @@ class FrameBufferBase(object):
                 self.buffer[fom] = deque()
                 self.buffer[fom].append(frame)
                 
-        return True
+        return status
         
     def put(self, *args, **kwds):
         """
-- 
2.43.0


From 451549e8add84033629f1311d0ecdb7516fd7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:20 +0000
Subject: [PATCH 010/250] fix: a duplicate frame in a frame buffer hid a
 missing one

Duplicates were only dropped from segments with more frames than expected:
with one frame missing and another received twice the segment counted as full,
and the missing frame was not filled in.  For COR the frames of different
channels count as different, too.
---
 lsl/reader/buffer.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 41584cf..07e879a 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -304,7 +304,19 @@ class FrameBufferBase(object):
             key_to_return = self.peek()
             if key_to_return is None:
                 return None
-        returnCount = len(self.buffer[key_to_return])
+        
+        # Drop any duplicate frames
+        unique = deque()
+        frameIDs = set()
+        for frame in self.buffer[key_to_return]:
+            newID = (getattr(frame, 'id', None), getattr(frame.header, 'first_chan', None))
+            if newID not in frameIDs:
+                unique.append(frame)
+                frameIDs.add(newID)
+            else:
+                self.dropped += 1
+        self.buffer[key_to_return] = unique
+        returnCount = len(unique)
         
         if returnCount == self.nFrames:
             ## Everything is good (Is it really???)
@@ -324,19 +336,8 @@ class FrameBufferBase(object):
             ## There are too many frames
             self.full = self.full + 1
             
-            output = []
-            frameIDs = []
-            for frame in self.buffer[key_to_return]:
-                try:
-                    newID = frame.id
-                except AttributeError:
-                    newID = frame.header.first_chan
-                if newID not in frameIDs:
-                    output.append(frame)
-                    frameIDs.append(newID)
-                else:
-                    self.dropped += 1
-                    
+            output = self.buffer[key_to_return]
+            
         del(self.buffer[key_to_return])
         self.done.append(key_to_return)
         
-- 
2.43.0


From fc45315bd27f129bab50c3f8af8f99f330e0ce9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:33 +0000
Subject: [PATCH 011/250] fix: FrameTimestamp.pulsar_mjd could return 86400
 seconds of a day or a fraction of one second

---
 lsl/reader/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/base.py b/lsl/reader/base.py
index 0457399..5e5ce15 100644
--- a/lsl/reader/base.py
+++ b/lsl/reader/base.py
@@ -550,10 +550,13 @@ class FrameTimestamp(object):
         day_sec1 = mjd_frac1 * 86400
         day_sec2 = mjd_frac2 * 86400
         day_sec = int(day_sec1) + int(day_sec2)
-        if day_sec > 86400:
+        sec_frac = (day_sec1 - int(day_sec1)) + (day_sec2 - int(day_sec2))
+        if sec_frac >= 1.0:
+            day_sec += 1
+            sec_frac -= 1.0
+        if day_sec >= 86400:
             mjd += 1
             day_sec -= 86400
-        sec_frac = (day_sec1 - int(day_sec1)) + (day_sec2 - int(day_sec2))
         return mjd, day_sec, sec_frac
         
     @property
-- 
2.43.0


From f1c712483e3d6deba0e8f0828e6cc1d2e17d87f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:19 +0000
Subject: [PATCH 012/250] fix: SplitFileWrapper.read() stopped short when a
 read spans more than two parts

---
 lsl/reader/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index da932cb..2ddb745 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -82,7 +82,7 @@ class SplitFileWrapper(object):
             
         data = self._fh.read(size)
         self._pos += len(data)
-        if len(data) < size and self._idx < self._nfiles-1:
+        while len(data) < size and self._idx < self._nfiles-1:
             self._open_part()
             new_data = self._fh.read(size-len(data))
             self._pos += len(new_data)
-- 
2.43.0


From 2d5b64dd29169a4b90c5d137f77ee07cf5950995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:19 +0000
Subject: [PATCH 013/250] fix: SplitFileWrapper.seek() from the end of the file
 had the wrong sign

---
 lsl/reader/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index 2ddb745..dde2711 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -115,5 +115,5 @@ class SplitFileWrapper(object):
             self.seek(offset, whence=0)
             
         else:
-            offset = self._total_size - pos
+            offset = self._total_size + pos
             self.seek(offset, whence=0)
-- 
2.43.0


From b2e6be537279801c4e16a63d2d99305b623dbb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:50 +0000
Subject: [PATCH 014/250] fix: DRSpecFile could not open a file with a single
 frame

---
 lsl/reader/ldp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index f132c53..fad5d97 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1249,12 +1249,13 @@ class DRSpecFile(LDPFileBase):
         
         # Align on the start of a Mark5C packet...
         while True:
+            mark = self.fh.tell()
             try:
                 junkFrame = drspec.read_frame(self.fh)
                 break
             except errors.SyncError:
                 self.fh.seek(1, 1)
-        self.fh.seek(-drspec.get_frame_size(self.fh), 1)
+        self.fh.seek(mark, 0)
         
         return True
         
-- 
2.43.0


From 87afd162387723f178cd4007c2f15427864cffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:17 +0000
Subject: [PATCH 015/250] fix: CORFile.read() without a duration failed on an
 unset variable

---
 lsl/reader/ldp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index fad5d97..e4a2e22 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -2059,10 +2059,10 @@ class CORFile(LDPFileBase):
             self._timetag = 0
             
         # Find out how many frames to read in
+        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         if duration is None:
             duration = self.description['nframe'] / framesPerObs * self.description['tint']
             LSL_LOGGER.debug(f"Requested duration is None, loading {duration:.1f} s of data")
-        framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frame_count = int(round(1.0 * duration / self.description['tint']))
         frame_count = frame_count if frame_count else 1
         duration = frame_count * self.description['tint']
-- 
2.43.0


From e0d6e55f1f7c570005bdeba03c3be0277e3c0267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 016/250] fix: CORFile.read() rejected files whose integration
 time is not exact in floating point

---
 lsl/reader/ldp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index e4a2e22..0228dbe 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -2052,7 +2052,7 @@ class CORFile(LDPFileBase):
                 raise errors.EOFError()
                 
         # Covert the sample rate to an expected timetag skip
-        timetagSkip = int(self.description['tint'] * fS)
+        timetagSkip = int(round(self.description['tint'] * fS))
         
         # Setup the counter variables:  frame count and time tag count
         if getattr(self, "_timetag", None) is None:
-- 
2.43.0


From 3a1594aa831b8c5a81e710da20e41d22e4b6af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 017/250] fix: TBXFile.read() after offset() returned less data
 than the file holds

---
 lsl/reader/ldp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 0228dbe..9d293fa 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1690,7 +1690,7 @@ class TBXFile(LDPFileBase):
             
         # Find out how many frames to read in... but make sure we don't read too much
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
-        remaining_count = self.description['nframe'] - self.fh.tell() // self.description['frame_size']
+        remaining_count = self.get_remaining_frame_count()
         max_frame_count = remaining_count // framesPerObs + len(self.buffer.buffer.keys())
         if duration is None:
             duration = max_frame_count / self.description['sample_rate']
-- 
2.43.0


From 56f06ef6ed4a5e0eefb803fae07c9b8c888aa34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 018/250] fix: TBXFile and CORFile offset() after a read() did
 not account for the buffered data

---
 lsl/reader/ldp.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 9d293fa..9ee3841 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1597,12 +1597,15 @@ class TBXFile(LDPFileBase):
         buffer_offset = 0
         if getattr(self, "_timetag", None) is not None:
             curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = tbx.read_frame(self.fh)
-                self.fh.seek(-frame_size, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
+            if curr is not None:
+                mark = self.fh.tell()
+                try:
+                    last = tbx.read_frame(self.fh).payload.timetag
+                except errors.EOFError:
+                    last = max(self.buffer.buffer) + int(round(fS / self.description['sample_rate']))
+                self.fh.seek(mark, 0)
+                buffer_offset = last - curr
+                buffer_offset = buffer_offset / fS
             
         offset = offset - buffer_offset
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
@@ -1620,7 +1623,7 @@ class TBXFile(LDPFileBase):
         # Reset the timetag checker
         self._timetag = None
         
-        return 1.0 * frameOffset / framesPerObs / self.description['sample_rate']
+        return 1.0 * frameOffset / framesPerObs / self.description['sample_rate'] + buffer_offset
         
     def read_frame(self, return_ci8=False):
         """
@@ -1983,18 +1986,21 @@ class CORFile(LDPFileBase):
         buffer_offset = 0
         if getattr(self, "_timetag", None) is not None:
             curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = cor.read_frame(self.fh)
-                self.fh.seek(-cor.FRAME_SIZE, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
+            if curr is not None:
+                mark = self.fh.tell()
+                try:
+                    last = cor.read_frame(self.fh).payload.timetag
+                except errors.EOFError:
+                    last = max(self.buffer.buffer) + int(round(self.description['tint'] * fS))
+                self.fh.seek(mark, 0)
+                buffer_offset = last - curr
+                buffer_offset = buffer_offset / fS
             
         offset = offset - buffer_offset
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count'] * self.description['nbaseline']
         frameOffset = int(offset / self.description['tint'] * framesPerObs)
         frameOffset = int(1.0 * frameOffset / framesPerObs) * framesPerObs
-        self.fh.seek(frameOffset*cor.FRAME_SIZE, 1)
+        self.fh.seek(frameOffset*self.description['frame_size'], 1)
         
         # Update the file metadata
         self._describe_file()
@@ -2006,7 +2012,7 @@ class CORFile(LDPFileBase):
         # Reset the timetag checker
         self._timetag = None
         
-        return 1.0 * frameOffset / framesPerObs * self.description['tint']
+        return 1.0 * frameOffset / framesPerObs * self.description['tint'] + buffer_offset
         
     def read_frame(self):
         """
-- 
2.43.0


From 62df2324cee1ecf5ef17707bd05c80ace26a4d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 019/250] fix: TBXFile.read() did not fill gaps in data with
 another time tag step

---
 lsl/reader/ldp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 9ee3841..3029af3 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1755,13 +1755,13 @@ class TBXFile(LDPFileBase):
                 aStand = 0
                 if self._timetag == 0:
                     pass
-                elif cTimetag != self._timetag + 8192:
-                    missing = (cTimetag - self._timetag - 8192) / float(8192)
+                elif cTimetag != self._timetag + timetagSkip:
+                    missing = (cTimetag - self._timetag - timetagSkip) / float(timetagSkip)
                     if int(missing) == missing and missing < LDP_CONFIG.get('tbx_autofill_size'):
                         LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
                         ## This is kind of black magic down here
                         for m in range(int(missing)):
-                            m = self._timetag + 8192*(m+1)
+                            m = self._timetag + timetagSkip*(m+1)
                             try:
                                 baseframe = copy.deepcopy(cFrames[0])
                             except NameError:
-- 
2.43.0


From c76e6b5b9e2afc52a7579524879acc33ee6aea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:23 +0000
Subject: [PATCH 020/250] fix: DRXFile and DRX8File filled gaps only in files
 with the first tuning and polarization

---
 lsl/reader/ldp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 3029af3..5a84170 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -613,7 +613,7 @@ class DRXFile(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
+                aStand = max(self._timetag, key=self._timetag.get)
                 if self._timetag[aStand] == 0:
                     pass
                 elif cTimetag != self._timetag[aStand]+self._timetagSkip:
@@ -1079,7 +1079,7 @@ class DRX8File(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
+                aStand = max(self._timetag, key=self._timetag.get)
                 if self._timetag[aStand] == 0:
                     pass
                 elif cTimetag != self._timetag[aStand]+self._timetagSkip:
-- 
2.43.0


From 33c5d09c000635da937799efed45f35ae2af2082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:23 +0000
Subject: [PATCH 021/250] fix: DRXFile and DRX8File could not open files just
 over a checkpoint in size

---
 lsl/reader/ldp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 5a84170..f7c44a5 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -345,11 +345,12 @@ class DRXFile(LDPFileBase):
             except AttributeError:
                 filesize = self.fh.size
                 
-            if filesize > checkpoint_size*1024**2:
+            coffset = ((checkpoint_size*1024**2-1)//drx.FRAME_SIZE+1)*drx.FRAME_SIZE
+            if filesize >= self.fh.tell() + coffset + drx.FRAME_SIZE:
                 foffset = 0
                 toffset = 0
                 with FilePositionSaver(self.fh):
-                    self.fh.seek(((checkpoint_size*1024**2-1)//drx.FRAME_SIZE+1)*drx.FRAME_SIZE, 1)
+                    self.fh.seek(coffset, 1)
                     newFrame = drx.read_frame(self.fh)
                     toffset = newFrame.time - junkFrame.time
                     if toffset > 300:
@@ -811,11 +812,12 @@ class DRX8File(LDPFileBase):
             except AttributeError:
                 filesize = self.fh.size
                 
-            if filesize > checkpoint_size*1024**2:
+            coffset = ((checkpoint_size*1024**2-1)//drx8.FRAME_SIZE+1)*drx8.FRAME_SIZE
+            if filesize >= self.fh.tell() + coffset + drx8.FRAME_SIZE:
                 foffset = 0
                 toffset = 0
                 with FilePositionSaver(self.fh):
-                    self.fh.seek(((checkpoint_size*1024**2-1)//drx8.FRAME_SIZE+1)*drx8.FRAME_SIZE, 1)
+                    self.fh.seek(coffset, 1)
                     newFrame = drx8.read_frame(self.fh)
                     toffset = newFrame.time - junkFrame.time
                     if toffset > 300:
-- 
2.43.0


From 4e624032d587373a9aac35ab7385c10cf095c634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:14 +0000
Subject: [PATCH 022/250] fix: spectrometer read past the end of the PSD for
 odd numbers of channels

---
 lsl/correlator/spec.cpp   | 2 +-
 lsl/correlator/stokes.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 4dc51cb..57be4ad 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -224,7 +224,7 @@ void compute_spec_complex(long nStand,
             
             // Shift FFTs
             memcpy(temp2, psd + nChan*i, sizeof(OutType)*(nChan/2+nChan%2));
-            memmove(psd + nChan*i, psd + nChan*i+nChan/2+nChan%2, sizeof(OutType)*nChan/2);
+            memmove(psd + nChan*i, psd + nChan*i+nChan/2+nChan%2, sizeof(OutType)*(nChan/2));
             memcpy(psd + nChan*i+nChan/2, temp2, sizeof(OutType)*(nChan/2+nChan%2));
             
             // Scale FFTs
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 2110ecc..869ee33 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -282,7 +282,7 @@ void compute_stokes_complex(long nStand,
             for(j=0; j<4; j++) {
                 // Shift FFTs
                 memcpy(temp2, (psd + j*nChan*nStand + nChan*i), sizeof(OutType)*(nChan/2+nChan%2));
-                memmove((psd + j*nChan*nStand + nChan*i), (psd + j*nChan*nStand + nChan*i)+nChan/2+nChan%2, sizeof(OutType)*nChan/2);
+                memmove((psd + j*nChan*nStand + nChan*i), (psd + j*nChan*nStand + nChan*i)+nChan/2+nChan%2, sizeof(OutType)*(nChan/2));
                 memcpy((psd + j*nChan*nStand + nChan*i)+nChan/2, temp2, sizeof(OutType)*(nChan/2+nChan%2));
                 
                 // Scale FFTs
-- 
2.43.0


From ca2bd9ffe9723b061f00f01cf849e86934255027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:42 +0000
Subject: [PATCH 023/250] fix: correlator read past the end of the data when
 the overlap does not divide the transform

---
 lsl/correlator/core.cpp   | 6 ++++--
 lsl/correlator/spec.cpp   | 6 ++++--
 lsl/correlator/stokes.cpp | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index c84ec3c..d3b12c9 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -425,7 +425,8 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = nSamps - fifoMax - (1+isReal)*nChan;
+    nFFT = (nFFT < 0) ? 0 : nFFT*Overlap/((1+isReal)*nChan) + 1;
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -627,7 +628,8 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = nSamps - fifoMax - (1+isReal)*nChan;
+    nFFT = (nFFT < 0) ? 0 : nFFT*Overlap/((1+isReal)*nChan) + 1;
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
diff --git a/lsl/correlator/spec.cpp b/lsl/correlator/spec.cpp
index 57be4ad..62d9532 100644
--- a/lsl/correlator/spec.cpp
+++ b/lsl/correlator/spec.cpp
@@ -293,7 +293,8 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = nSamps - (1+isReal)*nChan;
+    nFFT = (nFFT < 0) ? 0 : nFFT*Overlap/((1+isReal)*nChan) + 1;
     npy_intp dims[2];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -419,7 +420,8 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = nSamps - (1+isReal)*nChan;
+    nFFT = (nFFT < 0) ? 0 : nFFT*Overlap/((1+isReal)*nChan) + 1;
     npy_intp dims[2];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
diff --git a/lsl/correlator/stokes.cpp b/lsl/correlator/stokes.cpp
index 869ee33..7061505 100644
--- a/lsl/correlator/stokes.cpp
+++ b/lsl/correlator/stokes.cpp
@@ -374,7 +374,8 @@ static PyObject *FPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = nSamps - (1+isReal)*nChan;
+    nFFT = (nFFT < 0) ? 0 : nFFT*Overlap/((1+isReal)*nChan) + 1;
     npy_intp dims[3];
     dims[0] = (npy_intp) 4;
     dims[1] = (npy_intp) nStand;
@@ -528,7 +529,8 @@ static PyObject *PFBPSD(PyObject *self, PyObject *args, PyObject *kwds) {
     }
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = nSamps / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    nFFT = nSamps - (1+isReal)*nChan;
+    nFFT = (nFFT < 0) ? 0 : nFFT*Overlap/((1+isReal)*nChan) + 1;
     npy_intp dims[3];
     dims[0] = (npy_intp) 4;
     dims[1] = (npy_intp) nStand;
-- 
2.43.0


From b131160393eddf4ec9f2029a084cc05c29c947ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:42 +0000
Subject: [PATCH 024/250] fix: FXMaster and FXStokes failed when the X and Y
 delays gave different numbers of transforms

---
 lsl/correlator/fx.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index fad91b8..9a955b5 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -322,6 +322,12 @@ def FXMaster(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     else:
         signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
         
+        # The two polarizations can have a different number of FFTs if their 
+        # delays differ
+        nFFT = min(signalsF1.shape[2], signalsF2.shape[2])
+        signalsF1, validF1 = signalsF1[:,:,:nFFT], validF1[:,:nFFT]
+        signalsF2, validF2 = signalsF2[:,:,:nFFT], validF2[:,:nFFT]
+        
     # X
     output = _core.XEngine2(signalsF1, signalsF2, validF1, validF2)
     if not include_auto:
@@ -470,6 +476,12 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     
     signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
     
+    # The two polarizations can have a different number of FFTs if their 
+    # delays differ
+    nFFT = min(signalsF1.shape[2], signalsF2.shape[2])
+    signalsF1, validF1 = signalsF1[:,:,:nFFT], validF1[:,:nFFT]
+    signalsF2, validF2 = signalsF2[:,:,:nFFT], validF2[:,:nFFT]
+    
     # X
     output = _stokes.XEngine3(signalsF1, signalsF2, validF1, validF2)
     if not include_auto:
-- 
2.43.0


From e54e308e12b30bb0f9bf9bf0b8cbfbf4f3aae8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:42 +0000
Subject: [PATCH 025/250] fix: FXStokes normalized clipped data with the wrong
 number of transforms

---
 lsl/correlator/fx.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index 9a955b5..791545f 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -482,6 +482,12 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     signalsF1, validF1 = signalsF1[:,:,:nFFT], validF1[:,:nFFT]
     signalsF2, validF2 = signalsF2[:,:,:nFFT], validF2[:,:nFFT]
     
+    # Blank both polarizations of a stand where either is clipped so that the
+    # four Stokes parameters cover the same data
+    validF1 = validF2 = validF1 & validF2
+    signalsF1 = signalsF1 * validF1[:,None,:]
+    signalsF2 = signalsF2 * validF2[:,None,:]
+    
     # X
     output = _stokes.XEngine3(signalsF1, signalsF2, validF1, validF2)
     if not include_auto:
-- 
2.43.0


From eafd4c0523304ab4c9b9bf286befb60006b8ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:53 +0000
Subject: [PATCH 026/250] fix: FXStokes and XStokes calibrated Stokes products
 with mixed X and Y delays and gains

---
 lsl/correlator/fx.py | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index 791545f..79d72ce 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -488,6 +488,12 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     signalsF1 = signalsF1 * validF1[:,None,:]
     signalsF2 = signalsF2 * validF2[:,None,:]
     
+    # Apply cable gain corrections (if needed)
+    if gain_correct:
+        for i in range(nStands):
+            signalsF1[i,:,:] /= np.sqrt(antennas1[i].cable.gain(freq))[:,None]
+            signalsF2[i,:,:] /= np.sqrt(antennas2[i].cable.gain(freq))[:,None]
+            
     # X
     output = _stokes.XEngine3(signalsF1, signalsF2, validF1, validF2)
     if not include_auto:
@@ -499,14 +505,6 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
         nonAuto = np.where(fom)[0]
         output = output[:,nonAuto,:]
         
-    # Apply cable gain corrections (if needed)
-    if gain_correct:
-        for bl in range(output.shape[0]):
-            cableGain1 = baselines[bl][0].cable.gain(freq)
-            cableGain2 = baselines[bl][1].cable.gain(freq)
-            
-            output[:,bl,:] /= np.sqrt(cableGain1*cableGain2)
-            
     # Create antenna baseline list (if needed)
     if return_baselines:
         returnValues = (baselines, freq, output)
@@ -699,8 +697,6 @@ def XStokes(freq, signals, antennas, include_auto=False, gain_correct=False, ret
         minDelay = delays2[:,dlyRef].min()
     delays1 -= minDelay
     delays2 -= minDelay
-    delays1 = {antennas1[i].stand.id: delays1[i] for i in list(range(nStands))}
-    delays2 = {antennas2[i].stand.id: delays2[i] for i in list(range(nStands))}
     
     # Polarization split
     signals1 = signals[signalsIndex1,...]
@@ -708,6 +704,15 @@ def XStokes(freq, signals, antennas, include_auto=False, gain_correct=False, ret
     signals2 = signals[signalsIndex2,...]
     valid2 = np.ones((signals2.shape[0],signals2.shape[2]), dtype=np.uint8)
     
+    # Apply delays and cable gain corrections (if needed)
+    for i in range(nStands):
+        signals1[i,:,:] *= np.exp(2j*np.pi*freq*delays1[i])[:,None]
+        signals2[i,:,:] *= np.exp(2j*np.pi*freq*delays2[i])[:,None]
+        
+        if gain_correct:
+            signals1[i,:,:] /= np.sqrt(antennas1[i].cable.gain(freq))[:,None]
+            signals2[i,:,:] /= np.sqrt(antennas2[i].cable.gain(freq))[:,None]
+            
     # X
     output = _stokes.XEngine3(signals1, signals2, valid1, valid2)
     if not include_auto:
@@ -719,19 +724,6 @@ def XStokes(freq, signals, antennas, include_auto=False, gain_correct=False, ret
         nonAuto = np.where(fom)[0]
         output = output[:,nonAuto,:]
         
-    # Apply cable gain corrections (if needed)
-    for bl in range(output.shape[1]):
-        phaseRot1 = np.exp(2j*np.pi*freq*delays1[baselines[bl][0].stand.id])
-        phaseRot2 = np.exp(2j*np.pi*freq*delays2[baselines[bl][1].stand.id])
-        
-        output[:,bl,:] *= phaseRot2.conj()*phaseRot1
-        
-        if gain_correct:
-            cableGain1 = baselines[bl][0].cable.gain(freq)
-            cableGain2 = baselines[bl][1].cable.gain(freq)
-            
-            output[:,bl,:] /= np.sqrt(cableGain1*cableGain2)
-            
     # Create antenna baseline list (if needed)
     if return_baselines:
         returnValues = (baselines, output)
-- 
2.43.0


From 62ea69e03e3652a93ab05921035c60fbb190659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:07 +0000
Subject: [PATCH 027/250] fix: antennas_to_baseline returned a
 cross-correlation for an auto-correlation

---
 lsl/correlator/uvutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/uvutils.py b/lsl/correlator/uvutils.py
index 1296b1a..6bf65cc 100644
--- a/lsl/correlator/uvutils.py
+++ b/lsl/correlator/uvutils.py
@@ -118,7 +118,7 @@ def antennas_to_baseline(ant1, ant2, antennas, antennas2=None, baseline_list=Non
     # Loop over the baselines until we find one that matches.  If we don't find 
     # one, return -1
     for i,baseline in enumerate(baseline_list):
-        if ant1 in baseline and ant2 in baseline:
+        if (ant1, ant2) == tuple(baseline) or (ant2, ant1) == tuple(baseline):
             return i
             
     return -1
-- 
2.43.0


From 014c1b48ec11f769f99a8779a2b7137f88e2606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:17 +0000
Subject: [PATCH 028/250] fix: compute_uv_track returned NaN at the ends of
 many tracks

---
 lsl/correlator/uvutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/uvutils.py b/lsl/correlator/uvutils.py
index 6bf65cc..54ee8db 100644
--- a/lsl/correlator/uvutils.py
+++ b/lsl/correlator/uvutils.py
@@ -287,8 +287,9 @@ def compute_uv_track(antennas_or_baselines, dec=34.070, freq=49.0e6, site=lwa1):
         xyz = np.ravel(xyz)
         
         uRange = np.linspace(-np.sqrt(xyz[0]**2 + xyz[1]**2), np.sqrt(xyz[0]**2 + xyz[1]**2), num=256)
-        vRange1 = np.sqrt(xyz[0]**2 + xyz[1]**2 - uRange**2)*np.sin(dec2) + xyz[2]*np.cos(dec2)
-        vRange2 = -np.sqrt(xyz[0]**2 + xyz[1]**2 - uRange**2)*np.sin(dec2) + xyz[2]*np.cos(dec2)
+        vOffset = np.sqrt(np.maximum(xyz[0]**2 + xyz[1]**2 - uRange**2, 0.0))
+        vRange1 = vOffset*np.sin(dec2) + xyz[2]*np.cos(dec2)
+        vRange2 = -vOffset*np.sin(dec2) + xyz[2]*np.cos(dec2)
         
         uvTrack[count,0,0:256] = uRange * freq / np.array(speedOfLight)
         uvTrack[count,1,0:256] = vRange1 * freq / np.array(speedOfLight)
-- 
2.43.0


From b8010796c4c2d3c80a80fd4ba874a7772a4a04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:47 +0000
Subject: [PATCH 029/250] fix: VDIF writer gave the first frame of some seconds
 a frame number out of range

---
 lsl/writer/vdif.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/vdif.py b/lsl/writer/vdif.py
index 596137a..a5f5c43 100644
--- a/lsl/writer/vdif.py
+++ b/lsl/writer/vdif.py
@@ -93,8 +93,12 @@ class Frame(object):
         self.seconds = int(epochSeconds.sec)
         
         # Compute the frames since the beginning of the second
-        frame = (epochSeconds.sec - self.seconds) * (self.sample_rate/(len(self.data)//(2-self.dataReal)))
+        frameRate = self.sample_rate/(len(self.data)//(2-self.dataReal))
+        frame = (epochSeconds.sec - self.seconds) * frameRate
         self.frame = int(round(frame))
+        if self.frame >= frameRate:
+            self.seconds += 1
+            self.frame = 0
         
     def create_raw_frame(self):
         """
-- 
2.43.0


From 187567273585d8d64d25a504769f4dd316d2ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:47 +0000
Subject: [PATCH 030/250] fix: frame_to_frame lost the tuning word of DRX
 frames

---
 lsl/sim/drx.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lsl/sim/drx.py b/lsl/sim/drx.py
index 6b9c0a0..d9d08ce 100644
--- a/lsl/sim/drx.py
+++ b/lsl/sim/drx.py
@@ -59,11 +59,15 @@ def frame_to_frame(drx_frame):
     rawFrame[21] = (drx_frame.payload.timetag>>16) & 255
     rawFrame[22] = (drx_frame.payload.timetag>>8) & 255
     rawFrame[23] = drx_frame.payload.timetag & 255
+    ## Tuning word
+    tuning_word = drx_frame.payload.tuning_word
+    if tuning_word is None:
+        tuning_word = drx_frame.payload.flags>>32
+    rawFrame[24] = (tuning_word>>24) & 255
+    rawFrame[25] = (tuning_word>>16) & 255
+    rawFrame[26] = (tuning_word>>8) & 255
+    rawFrame[27] = tuning_word & 255
     ## Flags
-    rawFrame[24] = (drx_frame.payload.flags>>56) & 255
-    rawFrame[25] = (drx_frame.payload.flags>>48) & 255
-    rawFrame[26] = (drx_frame.payload.flags>>40) & 255
-    rawFrame[27] = (drx_frame.payload.flags>>32) & 255
     rawFrame[28] = (drx_frame.payload.flags>>24) & 255
     rawFrame[29] = (drx_frame.payload.flags>>16) & 255
     rawFrame[30] = (drx_frame.payload.flags>>8) & 255
-- 
2.43.0


From edd79b1f8dae5895a907c1453b6d5f717814afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:47 +0000
Subject: [PATCH 031/250] fix: version in the NRAO extended user data of VDIF
 frames was a float

---
 lsl/reader/vdif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/vdif.py b/lsl/reader/vdif.py
index cef3d73..79f1a5e 100644
--- a/lsl/reader/vdif.py
+++ b/lsl/reader/vdif.py
@@ -230,7 +230,7 @@ class FrameHeader(FrameHeaderBase):
             mj = int((self.extended_data_4 >> 12) & 0xF)
             mn = int((self.extended_data_4 >>  8) & 0xF)
             pr = int(self.extended_data_4 & 0xFF)
-            fields['version'] = '%i.%i-%02f' % (mj, mn, pr)
+            fields['version'] = '%i.%i-%02i' % (mj, mn, pr)
             
         elif edv == 0xAB:
             ## Haystack (which is really an embedded Mark 5B header)
-- 
2.43.0


From eb17bead5e4eb0bf18972bda1c4b8b69c896db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:56 +0000
Subject: [PATCH 032/250] fix: VDIF times were half a second late in the
 half-year after a leap second

---
 lsl/reader/vdif.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/vdif.py b/lsl/reader/vdif.py
index 79f1a5e..02c52b9 100644
--- a/lsl/reader/vdif.py
+++ b/lsl/reader/vdif.py
@@ -131,9 +131,10 @@ class FrameHeader(FrameHeaderBase):
         # and convert it to a MJD
         frameDT = AstroTime(f"{2000+self.ref_epoch//2}-{(self.ref_epoch % 2)*6+1}-1 00:00:00",
                             format='iso', scale='utc')
-        frameJD = int(frameDT.jd)
+        # NB:  Leap seconds happen at the end of the UTC day, i.e., at a JD of xxxxxxx.5
+        frameJD = frameDT.jd
         frameDT += AstroDelta(self.seconds_from_epoch, format='sec')
-        frameDT -= AstroDelta(_ls_tracker(frameJD, int(frameDT.jd)), format='sec')
+        frameDT -= AstroDelta(_ls_tracker(frameJD, int(frameDT.jd - 0.5) + 0.5), format='sec')
         
         if self.sample_rate == 0.0:
             # Try to get the sub-second time by parsing the extended user data
-- 
2.43.0


From 7391d8f4229880fd8a3ca03b5b2d9987591e6d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:08 +0000
Subject: [PATCH 033/250] fix: stand numbers above 999 were read back modulo
 1000

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 51efcbc..09d4ce6 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -84,7 +84,7 @@ vLight = vLight.to('m/s').value
 
 # Regular expression for trying to get the stand number out of an antenna
 # name
-_annameRE = re.compile(r'^.*?(?P<id>\d{1,3})$')
+_annameRE = re.compile(r'^.*?(?P<id>\d+)$')
 
 
 def CorrelatedData(filename):
-- 
2.43.0


From 6bf52f5118669a881cf3433fe5424d7cd9010e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:04 +0000
Subject: [PATCH 034/250] fix: writers took J2000 source positions for
 positions of date when computing uvw

---
 lsl/writer/fitsidi.py        | 2 +-
 lsl/writer/measurementset.py | 2 +-
 lsl/writer/uvfits.py         | 2 +-
 lsl/writer/virtual.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 8567fe2..92d6c8b 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -1097,7 +1097,7 @@ class Idi(WriterBase):
                 else:
                     ### Real-live sources (ephem.Body instances)
                     equ = FK5(dataSet.source.a_ra*astrounits.rad, dataSet.source.a_dec*astrounits.rad,
-                              equinox=date)
+                              equinox='J2000')
                     
                     name = dataSet.source.name
                     
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 55ac5d1..ef9561b 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -830,7 +830,7 @@ try:
                     else:
                         ### Real-live sources (ephem.Body instances)
                         equ = FK5(dataSet.source.a_ra*astrounits.rad, dataSet.source.a_dec*astrounits.rad,
-                                  equinox=date)
+                                  equinox='J2000')
                         
                         name = dataSet.source.name
                         
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index e9dc125..697863c 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -293,7 +293,7 @@ class Uv(WriterBase):
                 else:
                     ### Real-live sources (ephem.Body instances)
                     equ = FK5(dataSet.source.a_ra*astrounits.rad, dataSet.source.a_dec*astrounits.rad,
-                              equinox=date)
+                              equinox='J2000')
                     
                     name = dataSet.source.name
                     
diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index c9a65ba..b515a13 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -105,7 +105,7 @@ class VirtualWriter(WriterBase):
             equ = tc.transform_to(FK5(equinox=date))
         else:
             equ = FK5(source.a_ra*astrounits.rad, source.a_dec*astrounits.rad,
-                      equinox=date)
+                      equinox='J2000')
             
         # Phase center coordinates
         it = equ.transform_to(ITRS(location=self.el, obstime=date))
-- 
2.43.0


From 67619d62a8bf8fd52650d324d00448f5843a577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:51 +0000
Subject: [PATCH 035/250] fix: writers mixed up baselines when data sets list
 them in different orders

---
 lsl/writer/fitsidi.py        |  3 ++-
 lsl/writer/measurementset.py | 26 +++++---------------------
 lsl/writer/uvfits.py         |  3 ++-
 3 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 92d6c8b..8994402 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -1061,9 +1061,10 @@ class Idi(WriterBase):
                 
             # Sort the data by packed baseline
             try:
-                if len(dataSet.visibilities) != len(order):
+                if dataSet.baselines != baselines:
                     raise NameError
             except NameError:
+                baselines = dataSet.baselines
                 order = dataSet.argsort(mapper=mapper, shift=self._PACKING_BIT_SHIFT)
                 try:
                     del baselineMapped
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index ef9561b..4f4bfe5 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -799,15 +799,14 @@ try:
             for dataSet in self.data:
                 # Sort the data by packed baseline
                 try:
-                    if len(dataSet.visibilities) != len(order):
+                    if dataSet.baselines != baselines:
                         raise NameError
                 except NameError:
+                    baselines = dataSet.baselines
                     order = dataSet.argsort(mapper=mapper, shift=16)
-                    try:
-                        del baselineMapped
-                    except NameError:
-                        pass
-                        
+                    ant1List = [mapper.index(baselines[o][0].stand.id) for o in order]
+                    ant2List = [mapper.index(baselines[o][1].stand.id) for o in order]
+                    
                 # Deal with defininig the values of the new data set
                 if dataSet.pol == self.stokes[0]:
                     ## Figure out the new date/time for the observation
@@ -848,21 +847,6 @@ try:
                     uvwCoords = dataSet.get_uvw(HA, dec, el)
                     
                     ## Populate the metadata
-                    ### Add in the baselines
-                    try:
-                        ant1List
-                        ant2List
-                    except NameError:
-                        a1List, a2List = [], []
-                        for o in order:
-                            antenna1, antenna2 = dataSet.baselines[o]
-                            a1 = mapper.index(antenna1.stand.id)
-                            a2 = mapper.index(antenna2.stand.id)
-                            a1List.append( a1 )
-                            a2List.append( a2 )
-                        ant1List = a1List
-                        ant2List = a2List
-                        
                     ### Add in the new u, v, and w coordinates
                     uvwList = uvwCoords[order,:]
                     
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 697863c..51371cb 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -258,9 +258,10 @@ class Uv(WriterBase):
         for dataSet in self.data:
             # Sort the data by packed baseline
             try:
-                if len(dataSet.visibilities) != len(order):
+                if dataSet.baselines != baselines:
                     raise NameError
             except NameError:
+                baselines = dataSet.baselines
                 order = dataSet.argsort(mapper=mapper)
                 try:
                     del baselineMapped
-- 
2.43.0


From 6a87f4ccd7a9fe514fab01c046c996d438a0dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:49 +0000
Subject: [PATCH 036/250] fix: dates in UVFITS files were uninitialized memory

---
 lsl/writer/uvfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 51371cb..0d5b4e1 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -367,9 +367,12 @@ class Uv(WriterBase):
                                           np.array(blineList), np.array(sourceList), 
                                           np.array(intTimeList)], 
                                  parbscales=[1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0], 
-                                 parbzeros=[0.0, 0.0, 0.0, utcR, 0.0, 0.0, 0.0, 0.0], 
+                                 parbzeros=[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], 
                                  bitpix=-32)
         primary = astrofits.GroupsHDU(uv)
+        # The dates are stored relative to the first one.  This is set here since
+        # GroupData leaves a parameter with a non-zero 'parbzeros' unfilled.
+        primary.header['PZERO4'] = utcR
         
         primary.header['EXTEND'] = (True, 'indicates UVFITS file')
         primary.header['GROUPS'] = (True, 'indicates UVFITS file')
-- 
2.43.0


From 0c553a9cecc5f1e84749e8034fc2e0d6f11f045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:29 +0000
Subject: [PATCH 037/250] fix: Measurement Sets of two or three antennas could
 not be read

---
 lsl/imaging/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 09d4ce6..20798ab 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -54,7 +54,6 @@ from astropy.coordinates import EarthLocation, SkyCoord, ICRS, FK5, AltAz, Carte
 from astropy.wcs import WCS
 
 from lsl import astro
-from lsl.statistics import robust
 from lsl.common import stations
 from lsl.sim import vis as simVis
 from lsl.writer.fitsidi import NUMERIC_STOKES
@@ -933,9 +932,9 @@ try:
                 elv = np.append(elv, el)
                 
             ## Estimate the center of the station
-            sLat = robust.mean(lat)
-            sLng = robust.mean(lng)
-            sElv = robust.mean(elv)
+            sLat = np.median(lat)
+            sLng = np.median(lng)
+            sElv = np.median(elv)
             
             ## Build a preliminayr represenation of the station
             self.station = stations.LWAStation(ants.col('STATION')[0], sLat, sLng, sElv)
-- 
2.43.0


From 7261f196cf7217c868a4c2d52a8745b4791b1998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:59 +0000
Subject: [PATCH 038/250] fix: antenna positions in Measurement Sets were two
 Earth radii out

---
 lsl/writer/measurementset.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 4f4bfe5..921522a 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -286,9 +286,7 @@ try:
             
             for i,ant in enumerate(self.array[0]['ants']):
                 #tb.putcell('OFFSET', i, [0.0, 0.0, 0.0])
-                tb.putcell('POSITION', i, [ant.x + self.array[0]['center'][0],
-                                           ant.y + self.array[0]['center'][1], 
-                                           ant.z + self.array[0]['center'][2]])
+                tb.putcell('POSITION', i, [ant.x, ant.y, ant.z])
                 #tb.putcell('TYPE', i, 'GROUND-BASED')
                 #tb.putcell('DISH_DIAMETER', i, 2.0)
                 #tb.putcell('FLAG_ROW', i, False)
-- 
2.43.0


From d8955e7b6b48a7af32d6ffb4105dcac95431bffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:40 +0000
Subject: [PATCH 039/250] fix: uvw of the virtual writer used the hour angle in
 degrees as hours

---
 lsl/writer/virtual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index b515a13..5b304b9 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -109,7 +109,7 @@ class VirtualWriter(WriterBase):
             
         # Phase center coordinates
         it = equ.transform_to(ITRS(location=self.el, obstime=date))
-        HA = ((self.el.lon - it.spherical.lon).wrap_at('180deg')).deg
+        HA = ((self.el.lon - it.spherical.lon).wrap_at('180deg')).hourangle
         dec = it.spherical.lat.deg
         
         # (u,v,w) coordinates
-- 
2.43.0


From 371216c967842e5c288b705cd988fa76f6908005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:40 +0000
Subject: [PATCH 040/250] fix: virtual writer dropped the integration time

---
 lsl/writer/virtual.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index 5b304b9..4d624a5 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -176,7 +176,8 @@ class VirtualWriter(WriterBase):
         pds = PolarizationDataSet(pol, visibilities, weight=weights)
         vds = VisibilityDataSet(obsJD, self.freq, numericBaselines, uvw,
                                 antennaarray=self.antenna_array,
-                                phase_center=phase_center)
+                                phase_center=phase_center,
+                                int_time=intTime)
         vds.append(pds)
         return vds
         
-- 
2.43.0


From bbdb744c219d111b2009514e14c06bc73e0ba079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:40 +0000
Subject: [PATCH 041/250] fix: virtual writer refused a second polarization

---
 lsl/writer/virtual.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/virtual.py b/lsl/writer/virtual.py
index 4d624a5..cb68233 100644
--- a/lsl/writer/virtual.py
+++ b/lsl/writer/virtual.py
@@ -189,7 +189,18 @@ class VirtualWriter(WriterBase):
         
         vds = self.convert_to_data_set(obsTime, intTime, baselines, visibilities,
                                        weights=weights, pol=pol, source=source)
-        self.visibility_data.append(vds)
+        
+        # Merge polarizations that are for the same integration
+        for other in self.visibility_data:
+            if other.jd == vds.jd:
+                if vds.pols[0] in other or sorted(other.baselines) != sorted(vds.baselines):
+                    raise ValueError(f"Data for JD {vds.jd} have already been added")
+                vds.sort([vds.baselines.index(bl) for bl in other.baselines])
+                for pds in vds:
+                    other.append(pds)
+                break
+        else:
+            self.visibility_data.extend([vds,])
         
     def write(self):
         """
-- 
2.43.0


From c1afc9b86c7125cae0ef81bbee0f901d46bbfaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:33 +0000
Subject: [PATCH 042/250] fix: Measurement Sets with three or more spectral
 windows could not be read

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 20798ab..fd399ee 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1100,7 +1100,7 @@ try:
                     baselines.append( (a1,a2) )
                     select.append( b )
                 if len(self._windows) > 1:
-                    baselines = baselines[:len(baselines)//2]
+                    baselines = baselines[:len(baselines)//len(self._windows)]
                     selectU = select[:len(baselines)]
                 else:
                     selectU = select
-- 
2.43.0


From a223d35ab4fa383ad5baefe3c1acf72328459fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:12 +0000
Subject: [PATCH 043/250] fix: writing zenith data failed now and then over the
 rounding of the source name

---
 lsl/writer/fitsidi.py        | 3 ++-
 lsl/writer/measurementset.py | 3 ++-
 lsl/writer/uvfits.py         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 8994402..359cd90 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -880,7 +880,8 @@ class Idi(WriterBase):
         sourceID = 0
         for dataSet in self.data:
             if dataSet.pol == self.stokes[0]:
-                date = AstroTime(dataSet.obsTime, format='mjd', scale='tai')
+                utc = astro.taimjd_to_utcjd(dataSet.obsTime)
+                date = AstroTime(utc, format='jd', scale='utc')
                 
                 try:
                     currSourceName = dataSet.source.name
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 921522a..2af1179 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -476,7 +476,8 @@ try:
             sourceID = 0
             for dataSet in self.data:
                 if dataSet.pol == self.stokes[0]:
-                    date = AstroTime(dataSet.obsTime, format='mjd', scale='tai')
+                    utc = astro.taimjd_to_utcjd(dataSet.obsTime)
+                    date = AstroTime(utc, format='jd', scale='utc')
                     
                     try:
                         currSourceName = dataSet.source.name
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 0d5b4e1..3f66dfc 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -688,7 +688,8 @@ class Uv(WriterBase):
         sourceID = 0
         for dataSet in self.data:
             if dataSet.pol == self.stokes[0]:
-                date = AstroTime(dataSet.obsTime, format='mjd', scale='tai')
+                utc = astro.taimjd_to_utcjd(dataSet.obsTime)
+                date = AstroTime(utc, format='jd', scale='utc')
                 
                 try:
                     currSourceName = dataSet.source.name
-- 
2.43.0


From 80dce9aac7a25dcacbd5e33de237313513d83bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:12 +0000
Subject: [PATCH 044/250] fix: sources of Measurement Sets were mixed up after
 zenith integrations of less than 0.1 s

---
 lsl/writer/measurementset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 2af1179..d7eda96 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -498,6 +498,8 @@ try:
                             (tsecs, secs) = math.modf(raHms.seconds)
                             
                             name = "ZA%02d%02d%02d%01d" % (raHms.hours, raHms.minutes, int(secs), int(tsecs * 10.0))
+                            if name in nameList:
+                                continue
                             equPo = equ.transform_to(FK5(equinox='J2000'))
                             
                             equ = astro.equ_posn.from_astropy(equ)
-- 
2.43.0


From f30e8eff17410cbe21b8329d8dba14b861acd843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:29 +0000
Subject: [PATCH 045/250] fix: extended FITS-IDI files could not hold stands
 above 32767

---
 lsl/writer/fitsidi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 359cd90..c112175 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -174,7 +174,7 @@ class WriterBase(object):
                 else:
                     s1, s2 = mapper[a1.stand.id], mapper[a2.stand.id]
                 packed.append( merge_baseline(s1, s2, shift=shift) )
-            packed = np.array(packed, dtype=np.int32)
+            packed = np.array(packed, dtype=np.int64)
             
             return np.argsort(packed)
             
@@ -1174,7 +1174,7 @@ class Idi(WriterBase):
                         array=np.concatenate(mList))
         # Baseline number (first*256+second)
         c2 = astrofits.Column(name='BASELINE', format='1J', 
-                        array=np.array(blineList))
+                        array=np.array(blineList, dtype=np.int64).astype(np.int32))
         # Julian date at 0h
         c3 = astrofits.Column(name='DATE', format='1D', unit='DAYS',
                         array = np.array(dateList))
-- 
2.43.0


From 4e367a847452fc3098dcd7c16c05400074c727cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:57 +0000
Subject: [PATCH 046/250] fix: SDFITS polarization code -4 was named RL, not LR

---
 lsl/writer/sdfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index 0de1136..b018390 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -39,7 +39,7 @@ STOKES_CODES = { 'I':  1,  'Q': 2,   'U':  3,  'V':  4,
                 'XX': -5, 'YY': -6, 'XY': -7, 'YX': -8}
 
 NUMERIC_STOKES = { 1: 'I',   2: 'Q',   3: 'U',   4: 'V', 
-                  -1: 'RR', -2: 'LL', -3: 'RL', -4: 'RL', 
+                  -1: 'RR', -2: 'LL', -3: 'RL', -4: 'LR', 
                   -5: 'XX', -6: 'YY', -7: 'XY', -8: 'YX'}
 
 
-- 
2.43.0


From a5374e937c7c94e6d0c0f1a0defc010711cefc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:59 +0000
Subject: [PATCH 047/250] fix: SDFITS mixed up polarizations of integrations
 less than 26 ms apart

---
 lsl/writer/sdfits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index b018390..28aa488 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -160,8 +160,8 @@ class Sd(WriterBase):
             polarization code.
             """
             
-            xID = x.obsTime*10000000 + abs(x.pol)
-            yID = y.obsTime*10000000 + abs(y.pol)
+            xID = (x.obsTime, abs(x.pol))
+            yID = (y.obsTime, abs(y.pol))
             
             if xID > yID:
                 return 1
-- 
2.43.0


From c3dff1999295a526f4c35e25f1789c793e001eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:59 +0000
Subject: [PATCH 048/250] fix: SDFITS scan numbers overflowed after 32767
 integrations

---
 lsl/writer/sdfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index 28aa488..4cf4d3a 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -284,7 +284,7 @@ class Sd(WriterBase):
                 rawList = []
         
         # Scan number
-        c1  = astrofits.Column(name='SCAN', format='1I', 
+        c1  = astrofits.Column(name='SCAN', format='1J', 
                         array=np.array(scanList))
         ## Cycle
         #c2 = astrofits.Column(name='CYCLE', format='1J', 
-- 
2.43.0


From 351fea4080dc023787211263d3546d160556d256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:11 +0000
Subject: [PATCH 049/250] fix: visibilities could not be appended to a
 PolarizationDataSet

---
 lsl/imaging/data.py | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 13e428d..b0a302b 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -58,35 +58,27 @@ class PolarizationDataSet(object):
         Append a new visibility to the object.
         """
         
+        data = np.atleast_2d(data)
+        if weight is None:
+            weight = np.ones(data.shape, dtype=np.float32)
+        weight = np.atleast_2d(weight)
+        if weight.shape != data.shape:
+            raise ValueError("weight shape does not match the data shape")
+        if mask is None:
+            mask = np.zeros(data.shape, dtype=bool)
+        mask = np.atleast_2d(mask)
+        if mask.shape != data.shape:
+            raise ValueError("mask shape does not match the data shape")
+            
         if self.data.size == 0:
             ## Deal with the first batch of data being added
             self.data = data
-            
-            if weight is None:
-                weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
-                raise ValueError("weight shape does not match the data shape")
             self.weight = weight
-            
-            if mask is None:
-                mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
-                raise ValueError("mask shape does not match the data shape")
             self.mask = mask
             
         else:
             self.data = np.vstack([self.data, data])
-            
-            if weight is None:
-                weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
-                raise ValueError("weight shape does not match the data shape")
             self.weight = np.vstack([self.weight, weight])
-            
-            if mask is None:
-                mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
-                raise ValueError("mask shape does not match the data shape")
             self.mask = np.vstack([self.mask, mask])
             
     def extend(self, data, weight=None, mask=None):
-- 
2.43.0


From 721d2ac65057c3121f8cfcd6605f5d85b3c93ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:11 +0000
Subject: [PATCH 050/250] fix: VisibilityData created from a tuple could not be
 changed, from a list it changed the list

---
 lsl/imaging/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index b0a302b..c3fd3c7 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -404,7 +404,7 @@ class VisibilityData(object):
                     if not isinstance(d, VisibilityDataSet):
                         ### Is everybody in the list a VisibilityDataSet?
                         raise TypeError(f"Excepted element {i} to be a VisibilityDataSet object")
-                self._data = data
+                self._data = list(data)
             elif isinstance(data, VisibilityDataSet):
                 ## Do we have a single VisibilityDataSet?
                 self._data = [data,]
-- 
2.43.0


From c05cee2b2b0c093963fc9163767ff367f52be13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:25 +0000
Subject: [PATCH 051/250] fix: selecting antennas of a VisibilityData by stand
 number used the numbers as indices

---
 lsl/imaging/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index c3fd3c7..d934b41 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -611,6 +611,6 @@ class VisibilityData(object):
         
         new_data = VisibilityData()
         for data_set in self:
-            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=True) )
+            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=indicies) )
         return new_data
         
-- 
2.43.0


From f58b3898c467e6ef34c3387f2e24b516d39bcb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:47 +0000
Subject: [PATCH 052/250] fix: selecting antennas by index needed an antenna
 array

---
 lsl/imaging/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index d934b41..dde44bc 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -349,15 +349,15 @@ class VisibilityDataSet(object):
                 raise AttributeError("No anntennaarray defined for this data set")
                 
         # Convert to indicies, if needed
-        stands = list(self.antennaarray.get_stands())
         if not indicies:
+            stands = list(self.antennaarray.get_stands())
             if include is not None:
                 include = [stands.index(i) for i in include if i in stands]
             if exclude is not None:
                 exclude = [stands.index(e) for e in exclude if e in stands]
                 
         # Merge include and exclude
-        to_keep = list(range(len(stands)))
+        to_keep = sorted(set([a for bl in self.baselines for a in bl]))
         if include is not None:
             to_keep = include
         for e in exclude:
-- 
2.43.0


From 35bf8e38ce86ea33b54101bc13f153fc6dadc431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:43 +0000
Subject: [PATCH 053/250] fix: images had the wrong scale after gridding with
 another image size in the same process

---
 lsl/imaging/gridder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 161357b..b45adc0 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -212,7 +212,7 @@ void compute_gridding(long nVis,
     double avgW, ci, cj, temp, temp2;
     long pi, pj, gi, gj;
     Complex32 *suv, *sbm, *kern;
-    static float norm = (float) 1.0 / (nPixSide * nPixSide);
+    float norm = (float) 1.0 / (nPixSide * nPixSide);
     
     // FFT setup
     Complex32* inP;
-- 
2.43.0


From 7c8bb1070b8b3e3e2429e6b451fa0481d494575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:43 +0000
Subject: [PATCH 054/250] fix: gridding data in a single w plane gave an empty
 image

---
 lsl/imaging/gridder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index b45adc0..4f0e1d8 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -111,7 +111,7 @@ int compute_planes(int nVis,
             psw = csw;
         }
     }
-    if( *(planeStop + nPlanes - 1) < nVis) {
+    if( nPlanes == 0 || *(planeStop + nPlanes - 1) < nVis) {
         *(planeStop + nPlanes) = nVis;
         nPlanes++;
     }
-- 
2.43.0


From 5a53a5c46b4b93c3dd6904be003935da87be8884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:43 +0000
Subject: [PATCH 055/250] fix: gridding with more than 1024 w planes wrote past
 the end of its buffers

---
 lsl/imaging/gridder.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index 4f0e1d8..a4a2123 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -20,9 +20,6 @@
 #include "../correlator/common.hpp"
 
 
-// Maximum number of w-planes to project
-#define MAX_W_PLANES 1024
-
 // Gridding convolution size on a side and oversampling factor
 #define GRID_KERNEL_SIZE 7    // should be an odd number
 #define GRID_KERNEL_OVERSAMPLE 64
@@ -199,8 +196,8 @@ void compute_gridding(long nVis,
     // Figure out the w-planes to use
     int nPlanes = 0;
     long *planeStart, *planeStop;
-    planeStart = (long *) malloc(MAX_W_PLANES*sizeof(long));
-    planeStop = (long *) malloc(MAX_W_PLANES*sizeof(long));
+    planeStart = (long *) malloc((nVis+1)*sizeof(long));
+    planeStop = (long *) malloc((nVis+1)*sizeof(long));
     nPlanes = compute_planes(nVis, wRes, w, planeStart, planeStop);
     
     // Fill in the 1-D gridding kernel
-- 
2.43.0


From 46817bf05e0cbd7cd21e31788bdd8ebf74f926a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:43 +0000
Subject: [PATCH 056/250] fix: gridding baselines beyond the uv plane wrote
 outside of the plane

---
 lsl/imaging/gridder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lsl/imaging/gridder.cpp b/lsl/imaging/gridder.cpp
index a4a2123..b1456c6 100644
--- a/lsl/imaging/gridder.cpp
+++ b/lsl/imaging/gridder.cpp
@@ -251,6 +251,11 @@ void compute_gridding(long nVis,
             for(i=secStart; i<secStop; i++) {
                 avgW += *(w + i);
                 
+                // Skip anything that is not on the uv plane
+                if( !(fabs(*(u + i)) <= uvRes*nPixSide/2 && fabs(*(v + i)) <= uvRes*nPixSide/2) ) {
+                    continue;
+                }
+                
                 // Pixel in the uv plane this corresponds to
                 ci = *(v + i) / -uvRes;
                 if( ci < 0.0 ) {
-- 
2.43.0


From 54b7e24f620f671ea8916d55e5dc775874a9a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:50 +0000
Subject: [PATCH 057/250] fix: images of several integrations held only the
 last one

---
 lsl/imaging/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index fd399ee..d608260 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1696,7 +1696,9 @@ def build_gridded_image(data_set, size=80, res=0.50, im_size=None, im_res=None,
     if wgt.dtype != np.complex64:
         wgt = wgt.astype(np.complex64)
 
-    im.uv, im.bm[0], im.kern_corr = WProjection(u, v, w, vis, wgt, size, np.float64(res), np.float64(wres))
+    uv, bm, im.kern_corr = WProjection(u, v, w, vis, wgt, size, np.float64(res), np.float64(wres))
+    im.uv = im.uv + uv
+    im.bm[0] = im.bm[0] + bm
         
     # Update MJD, phase center, and antenna array information
     im.mjd = data_set.mjd
-- 
2.43.0


From 5b26123e733eecfbe9a9efd636463023d30c0ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:50 +0000
Subject: [PATCH 058/250] fix: imaging with uniform or Briggs weighting changed
 the gridded data

---
 lsl/imaging/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index d608260..dd6731a 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1454,7 +1454,7 @@ class ImgWPlus(aipy.img.ImgW):
         elif weighting == 'uniform':
             ## Uniform weighting
             wgt = self.bm[0].real
-            data *= 1.0/wgt
+            data = data * (1.0/wgt)
             data[np.where(wgt == 0)] = 0.0
             
         elif weighting == 'briggs':
@@ -1463,7 +1463,7 @@ class ImgWPlus(aipy.img.ImgW):
             wavg = wgt.sum()
             w2avg = (wgt**2).sum()
             S2 = 25 * 10**(-2*robust) / (w2avg / wavg)
-            data *= 1.0 / (1.0 + wgt*S2)
+            data = data * (1.0 / (1.0 + wgt*S2))
             data[np.where(wgt == 0)] = 0.0
             
         # Make sure that we have the right type to taper with
-- 
2.43.0


From 9bbbc5ff29634055b3851b87fd936d0088f024f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:50 +0000
Subject: [PATCH 059/250] fix: the u and v tapers of images were swapped

---
 lsl/imaging/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index dd6731a..9c2a1ce 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1476,7 +1476,8 @@ class ImgWPlus(aipy.img.ImgW):
             
         # Apply the taper
         if taper[0] > 0.0 or taper[1] > 0.0:
-            u,v = self.get_uv()
+            ## NOTE: v runs along the first axis of the gridded data and u along the second
+            v,u = self.get_uv()
             
             taper1 = 1.0
             if taper[0] > 0.0:
-- 
2.43.0


From 020cf6f8b2abd8b547d08c72a4a4725398c1626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:50 +0000
Subject: [PATCH 060/250] fix: images with an equ_posn phase center had no WCS

---
 lsl/imaging/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 9c2a1ce..8ad01a8 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1595,7 +1595,9 @@ class ImgWPlus(aipy.img.ImgW):
             pc_dec = self._phase_center.dec
             pc_equinox = 'J2000'
             pc = FK5(ra=pc_ra*astrounits.deg, dec=pc_dec*astrounits.deg, equinox=pc_equinox)
-            pc = self._phase_center.transform_to(FK5(equinox=obs_t))
+            pc = pc.transform_to(FK5(equinox=obs_t))
+            pc_ra = pc.ra.deg
+            pc_dec = pc.dec.deg
         else:
             try:
                 pc = self._phase_center.transform_to(FK5(equinox=obs_t))
-- 
2.43.0


From fe7c8a54980712ec76963672ee26ecaf509bc31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 061/250] fix: scale_data used the baselines of the first
 integration for all of them

---
 lsl/sim/vis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 4cfe24c..1f24a6f 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1204,7 +1204,7 @@ def scale_data(dataSet, amps, delays, phase_offsets=None):
     for pds in sclData:
         if isinstance(pds, VisibilityDataSet):
             for ppds in pds:
-                for b,(i,j) in enumerate(sclData.baselines):
+                for b,(i,j) in enumerate(pds.baselines):
                     ppds.data[b,:] *= cGains[j].conj()*cGains[i] 
         else:
             for b,(i,j) in enumerate(sclData.baselines):
-- 
2.43.0


From 1dab911ec5aef1ed44862e3a332a9a658918e6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 062/250] fix: simulated visibilities were NaN for sources
 where the beam has no response

---
 lsl/sim/vis.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 1f24a6f..548d404 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1091,17 +1091,13 @@ def __build_sim_data(aa, srcs, pols=['xx', 'yy', 'xy', 'yx'], jd=None, chan=None
         pcAz = phase_center.az*180/np.pi
         pcAlt = phase_center.alt*180/np.pi
         
+    jys_nobeam = aa._cache['jys'].copy()
     for p,pol in enumerate(pols):
         ## Apply the antenna gain pattern for each source
         if not flat_response:
-            if p == 0:
-                for i in range(aa._cache['jys'].shape[0]):
-                    aa._cache['jys'][i,:] *= Bij_sf(aa._cache['s_top'][i,:], pol)
-            else:
-                for i in range(aa._cache['jys'].shape[0]):
-                    aa._cache['jys'][i,:] /= Bij_sf(aa._cache['s_top'][i,:], pols[p-1])	# Remove the old pol
-                    aa._cache['jys'][i,:] *=  Bij_sf(aa._cache['s_top'][i,:], pol)
-                    
+            for i in range(aa._cache['jys'].shape[0]):
+                aa._cache['jys'][i,:] = jys_nobeam[i,:] * Bij_sf(aa._cache['s_top'][i,:], pol)
+                
         ## Simulate
         if not flat_response:
             uvw1, vis1 = FastVis(aa, baselines, chanMin, chanMax, pcAz, pcAlt, resolve_src=resolve_src)
@@ -1119,8 +1115,7 @@ def __build_sim_data(aa, srcs, pols=['xx', 'yy', 'xy', 'yx'], jd=None, chan=None
     # Cleanup
     if not flat_response:
         for i in range(aa._cache['jys'].shape[0]):
-            aa._cache['jys'][i,:] /= Bij_sf(aa._cache['s_top'][i,:], pols[-1])	# Remove the old pol
-            aa._cache['jys'][i,:] /= Gij_sf								# Remove the bandpass
+            aa._cache['jys'][i,:] = jys_nobeam[i,:] / Gij_sf			# Remove the beam and the bandpass
             
     # Return
     return UVData
-- 
2.43.0


From 0e3ad8b172069421adb81de45b0646ec9a7ff784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 063/250] fix: polarizations simulated with a flat response
 shared their values

---
 lsl/sim/vis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 548d404..a6c53f4 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1109,7 +1109,7 @@ def __build_sim_data(aa, srcs, pols=['xx', 'yy', 'xy', 'yx'], jd=None, chan=None
         ## Unpack the data and add it to the data set
         if p == 0:
             UVData.uvw = uvw1
-        pds = PolarizationDataSet(pol.upper(), data=vis1)
+        pds = PolarizationDataSet(pol.upper(), data=vis1.copy())
         UVData.append( pds )
         
     # Cleanup
-- 
2.43.0


From b3b1a2c9524dd422f0a27079dd5531081d855451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 064/250] fix: baseline noise failed for subsets of antennas
 and mixed up the baselines of several integrations

---
 lsl/sim/vis.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index a6c53f4..53d55b4 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1275,18 +1275,23 @@ def add_baseline_noise(dataSet, SEFD, tInt, bandwidth=None, efficiency=1.0):
     except TypeError:
         SEFD = np.ones(nAnts)*SEFD
         
-    # Calculate the standard deviation of the real/imaginary noise
-    visNoiseSigma = np.zeros((len(dataSet.baselines), len(dataSet.freq)))
-    for k,(i,j) in enumerate(dataSet.baselines):
-        visNoiseSigma[k,:] = np.sqrt(SEFD[i]*SEFD[j])
-    visNoiseSigma *= 1 / efficiency / np.sqrt(2.0*bandwidth*tInt)
+    SEFD = {ant: sefd for ant,sefd in zip(sorted(ants), SEFD)}
     
+    # Calculate the standard deviation of the real/imaginary noise
+    def calc_sigma(data_set):
+        sigma = np.zeros((len(data_set.baselines), len(data_set.freq)))
+        for k,(i,j) in enumerate(data_set.baselines):
+            sigma[k,:] = np.sqrt(SEFD[i]*SEFD[j])
+        sigma *= 1 / efficiency / np.sqrt(2.0*bandwidth*tInt)
+        return sigma
+        
     # Build the VisibilityDataSet to hold the data with noise added
     bnData = dataSet.copy(include_pols=True)
     
     # Apply the scales and delays for all polarization pairs found in the original data
     for pds in bnData:
         if isinstance(pds, VisibilityDataSet):
+            visNoiseSigma = calc_sigma(pds)
             for ppds in pds:
                 ## Calculate the expected noise
                 visNoise = visNoiseSigma * (np.random.randn(*ppds.data.shape) \
@@ -1296,6 +1301,7 @@ def add_baseline_noise(dataSet, SEFD, tInt, bandwidth=None, efficiency=1.0):
                 ppds.data += visNoise
         else:
             ## Calculate the expected noise
+            visNoiseSigma = calc_sigma(bnData)
             visNoise = visNoiseSigma * (np.random.randn(*pds.data.shape) \
                        + 1j*np.random.randn(*pds.data.shape))
             
-- 
2.43.0


From 461a542d5a3b64d8f05d561ab62ecd793c69ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:59 +0000
Subject: [PATCH 065/250] fix: shift_data did not follow the phase center to
 the time of each integration

---
 lsl/sim/vis.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lsl/sim/vis.py b/lsl/sim/vis.py
index 53d55b4..0f814cb 100644
--- a/lsl/sim/vis.py
+++ b/lsl/sim/vis.py
@@ -1224,15 +1224,14 @@ def shift_data(dataSet, aa):
     shftData = dataSet.copy(include_pols=True)
     
     # Apply the coordinate shift
-    if isinstance(shftData, VisibilityData):
-        for data_set in shftData:
-            for b,(i,j) in enumerate(data_set.baselines):
-                crds = aa.gen_uvw(j, i, src=data_set.phase_center)[:,0,:]
-                data_set.uvw[b,:] = crds
-    else:
-        for b,(i,j) in enumerate(shftData.baselines):
-            crds = aa.gen_uvw(j, i, src=shftData.phase_center)[:,0,:]
-            shftData.uvw[b,:] = crds
+    data_sets = shftData if isinstance(shftData, VisibilityData) else [shftData,]
+    for data_set in data_sets:
+        aa.set_jultime(data_set.jd)
+        if data_set.phase_center != 'z':
+            data_set.phase_center.compute(aa)
+        for b,(i,j) in enumerate(data_set.baselines):
+            crds = aa.gen_uvw(j, i, src=data_set.phase_center)[:,0,:]
+            data_set.uvw[b,:] = crds
             
     return shftData
 
-- 
2.43.0


From 15268ff51f79c01df335c06d37d6ce329157c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 066/250] fix: times less than half a millisecond before a full
 second could not be used for observations

---
 lsl/common/_sdf_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/common/_sdf_utils.py b/lsl/common/_sdf_utils.py
index 2a2caff..ff7bdec 100644
--- a/lsl/common/_sdf_utils.py
+++ b/lsl/common/_sdf_utils.py
@@ -122,7 +122,7 @@ def parse_time(s, station=lwa1):
         # Round the microsecond value to milliseconds
         us = s.microsecond
         us = int(round(us/1000.0))*1000
-        dtObject = s.replace(microsecond=us)
+        dtObject = s.replace(microsecond=0) + timedelta(microseconds=us)
         
     else:
         mtch = _dtRE.match(s)
@@ -273,7 +273,8 @@ def parse_time(s, station=lwa1):
                 microsecond = int(round(microsecond/1000.0))*1000
                 
             # Localize as the appropriate time zone
-            dtObject = datetime(year, month, day, hour, minute, second, microsecond, tzinfo=tz)
+            dtObject = datetime(year, month, day, hour, minute, second, 0, tzinfo=tz)
+            dtObject += timedelta(microseconds=microsecond)
             
     # Return as UTC
     return dtObject.astimezone(timezone.utc)
-- 
2.43.0


From 0ca34eb50b156ec47afda2834ad24ca5bc731148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 067/250] fix: astropy times were refused as observation start
 times

---
 lsl/common/_sdf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/_sdf_utils.py b/lsl/common/_sdf_utils.py
index ff7bdec..5faf2e9 100644
--- a/lsl/common/_sdf_utils.py
+++ b/lsl/common/_sdf_utils.py
@@ -113,7 +113,7 @@ def parse_time(s, station=lwa1):
     """
     
     if isinstance(s, AstroTime):
-        s = s.utc.datetime
+        s = s.utc.to_datetime(timezone=timezone.utc)
         
     if isinstance(s, datetime):
         if s.tzinfo is None:
-- 
2.43.0


From 200d88fcf953aca398d0d585579181b6543e7a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 068/250] fix: time zone offsets with a single digit for the
 hours were misread

---
 lsl/common/_sdf_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/common/_sdf_utils.py b/lsl/common/_sdf_utils.py
index 5faf2e9..1900b02 100644
--- a/lsl/common/_sdf_utils.py
+++ b/lsl/common/_sdf_utils.py
@@ -86,7 +86,7 @@ def _get_equinox_equation(jd):
     return deltaPsi * math.cos(epsilon*math.pi/180.0)
 
 
-_dtRE = re.compile(r'^((?P<tz>[A-Z]{2,3}) )?(?P<year>\d{4})[ -/]((?P<month>\d{1,2})|(?P<mname>[A-Za-z]{3}))[ -/](?P<day>\d{1,2})[ T](?P<hour>\d{1,2}):(?P<minute>\d{1,2}):(?P<second>\d{1,2}(\.\d{1,6})?) ?(?P<tzOffset>[-+]\d{1,2}:?\d{1,2})?$')
+_dtRE = re.compile(r'^((?P<tz>[A-Z]{2,3}) )?(?P<year>\d{4})[ -/]((?P<month>\d{1,2})|(?P<mname>[A-Za-z]{3}))[ -/](?P<day>\d{1,2})[ T](?P<hour>\d{1,2}):(?P<minute>\d{1,2}):(?P<second>\d{1,2}(\.\d{1,6})?) ?(?P<tzOffset>[-+](?P<tzHour>\d{2}|\d(?=:)):?(?P<tzMinute>\d{1,2}))?$')
 _EST = zoneinfo.ZoneInfo('America/New_York')
 _CST = zoneinfo.ZoneInfo('America/Chicago')
 _MST = zoneinfo.ZoneInfo('America/Denver')
@@ -175,8 +175,8 @@ def parse_time(s, station=lwa1):
                 tzOffsetSign = 1
                 if mtch.group('tzOffset')[0] == '-':
                     tzOffsetSign = -1
-                tzOffsetHours = int( mtch.group('tzOffset').replace(':', '')[1:3] )
-                tzOffsetMinutes = int( mtch.group('tzOffset').replace(':', '')[3:5] )
+                tzOffsetHours = int( mtch.group('tzHour') )
+                tzOffsetMinutes = int( mtch.group('tzMinute') )
                 
                 tzOffsetSeconds = tzOffsetHours*3600 + tzOffsetMinutes*60
                 tzOffsetSeconds *= tzOffsetSign
-- 
2.43.0


From f01629daa50bf212b390c04e5d5b5853c9c284fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 069/250] fix: durations of observations could not be set with
 astropy quantities

---
 lsl/common/sdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 590c747..3732d2e 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -629,7 +629,7 @@ class Observation(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
@@ -1627,7 +1627,7 @@ class BeamStep(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
-- 
2.43.0


From c2e18694be519ca7714ffb4dd448b69624ddfa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 070/250] fix: observations with an invalid declination raised
 a NameError

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 3732d2e..5408677 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -669,7 +669,7 @@ class Observation(object):
         elif isinstance(value, str):
             value = AstroAngle(value).to('deg').value
         if value < -90.0 or value > 90.0:
-            raise ValueError(f"Invalid value for dec. '{dec:+.6f}' deg")
+            raise ValueError(f"Invalid value for dec. '{value:+.6f}' deg")
         self._dec = value
         
     @property
-- 
2.43.0


From 6f532a8ab993de12865279cc7c92d16c6651327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 071/250] fix: observation frequencies and step coordinates
 could not be given as astropy objects

---
 lsl/common/sdf.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 5408677..ba99ae1 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -550,8 +550,8 @@ class Observation(object):
         self.duration = duration
         self.mode = mode
         self.beamDipole = None
-        self.frequency1 = float(frequency1)
-        self.frequency2 = float(frequency2)
+        self.frequency1 = frequency1
+        self.frequency2 = frequency2
         self.filter = int(filter)
         self.high_dr = bool(high_dr)
         self.comments = comments
@@ -1510,19 +1510,15 @@ class BeamStep(object):
     
     def __init__(self, c1, c2, duration, frequency1, frequency2, is_radec=True, high_dr=False, spec_delays=None, spec_gains=None):
         self.is_radec = bool(is_radec)
-        if self.is_radec:
-            convFactor = 12.0/math.pi
-        else:
-            convFactor = 180.0/math.pi
-        self.c1 = float(c1) * (convFactor if type(c1).__name__ == 'Angle' else 1.0)
-        self.c2 = float(c2) * (180.0/math.pi if type(c2).__name__ == 'Angle' else 1.0)
+        self.c1 = c1 if isinstance(c1, (ephem.Angle, AstroAngle, str)) else float(c1)
+        self.c2 = c2 if isinstance(c2, (ephem.Angle, AstroAngle, str)) else float(c2)
         if isinstance(duration, timedelta):
             # Make sure the number of microseconds agree with milliseconds
             us = int(round(duration.microseconds/1000.0))*1000
             duration = timedelta(days=duration.days, seconds=duration.seconds, microseconds=us)
         self.duration = duration
-        self.frequency1 = float(frequency1)
-        self.frequency2 = float(frequency2)
+        self.frequency1 = frequency1
+        self.frequency2 = frequency2
         self.high_dr = bool(high_dr)
         self.delays = spec_delays
         self.gains = spec_gains
-- 
2.43.0


From c88431a5cf48ddd32e54e5a3f4e58d3f99678899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 072/250] fix: steps were checked for visibility over the
 duration of the whole observation

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index ba99ae1..8a54b1b 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1407,7 +1407,7 @@ class Stepped(Observation):
                 pnt = step.fixed_body
                 
                 dt = 0.0
-                while dt <= self.dur/1000.0:
+                while dt <= step.dur/1000.0:
                     station.date = self.mjd + (relStart/1000.0 + self.mpm/1000.0 + dt)/3600/24.0 + MJD_OFFSET - DJD_OFFSET
                     pnt.compute(station)
                     max_alt = max([max_alt, pnt.alt])
-- 
2.43.0


From 0d73894b9bd4ca8c235f8011080a2fe7e4d472e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 073/250] fix: stepped observations with the maximum number of
 steps were refused

---
 lsl/common/sdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 8a54b1b..ed78148 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1456,8 +1456,8 @@ class Stepped(Observation):
                 
             stepCount += 1
             
-        if stepCount > MAX_STP_N:
-            LSL_LOGGER.error(f"Too many steps ({stepCount}) set for this observation")
+        if len(self.steps) > MAX_STP_N:
+            LSL_LOGGER.error(f"Too many steps ({len(self.steps)}) set for this observation")
             failures += 1
             
         # Advanced - Target Visibility
-- 
2.43.0


From 7977e9cb8e518b5d500175de57e3e524757caff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 074/250] fix: validating a stepped observation without steps
 raised a ZeroDivisionError

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index ed78148..020972a 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1430,7 +1430,7 @@ class Stepped(Observation):
             #warnings.warn("Maximum altitude for this observation is %.1f degrees" % (max_alt*180/math.pi))
             pass
             
-        return float(vis)/float(cnt)
+        return float(vis)/float(cnt) if cnt > 0 else 0.0
         
     def validate(self):
         """Evaluate the observation and return True if it is valid, False
-- 
2.43.0


From 1b3840f534016ecb6bfeea4420e32172f8097e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 075/250] fix: validating a step outside of an observation
 raised an AttributeError

---
 lsl/common/sdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 020972a..e1599c1 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1508,6 +1508,8 @@ class BeamStep(object):
         instances
     """
     
+    _parent = None
+    
     def __init__(self, c1, c2, duration, frequency1, frequency2, is_radec=True, high_dr=False, spec_delays=None, spec_gains=None):
         self.is_radec = bool(is_radec)
         self.c1 = c1 if isinstance(c1, (ephem.Angle, AstroAngle, str)) else float(c1)
-- 
2.43.0


From e85c36c3fd1cc566383ee85014acf9b1ce55ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 076/250] fix: lists of observations with a wrong type in them
 were dropped without an error

---
 lsl/common/sdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index e1599c1..4812167 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -131,6 +131,8 @@ class _TypedParentList(list):
                 for value in values:
                     value._parent = self.parent
             list.extend(self, values)
+        else:
+            raise TypeError("Expected one of: %s" % (', '.join([t.__name__ for t in self.allowed_types])))
             
     def insert(self, index, value):
         if isinstance(value, self.allowed_types):
-- 
2.43.0


From 5336a40db9714142b309fef72052ffe80e5b326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 077/250] fix: FEE power settings of a single polarization for
 all stands were not written

---
 lsl/common/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 4812167..3c630bf 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -444,8 +444,9 @@ class Project(object):
             ## FEE power settings
             if all(j == obs.fee_power[0] for j in obs.fee_power):
                 ### All the same
-                if obs.fee_power[0][0] != -1 and obs.fee_power[0][1] != -1:
+                if obs.fee_power[0][0] != -1:
                     output += "OBS_FEE[%i][1]  %i\n" % (0, obs.fee_power[0][0])
+                if obs.fee_power[0][1] != -1:
                     output += "OBS_FEE[%i][2]  %i\n" % (0, obs.fee_power[0][1])
             else:
                 ### Some different
-- 
2.43.0


From 5b14010a90cf32ff8d91de8a7a32c6f163e988b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 078/250] fix: session comments grew each time a session with a
 UCF user name was rendered

---
 lsl/common/sdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 3c630bf..e64cf6f 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -310,6 +310,8 @@ class Project(object):
             clean = ''
             if ses.comments:
                 clean = UCF_USERNAME_RE.sub('', ses.comments)
+                if clean != ses.comments and clean.startswith(';;'):
+                    clean = clean[2:]
             ses.comments = f"ucfuser:{ses.ucf_username}"
             if len(clean) > 0:
                 ses.comments += ';;%s' % clean
-- 
2.43.0


From 97c9ce9954e117106e250afcdea3fd920dc62da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 079/250] fix: log and station flags of session definition
 files were true even when zero

---
 lsl/common/sdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index e64cf6f..1137b17 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2250,16 +2250,16 @@ def parse_sdf(filename):
                 project.sessions[0].update_mib[component] = int(value)
                 continue
             if keyword == 'SESSION_LOG_SCH':
-                project.sessions[0].include_mcssch_log = bool(value)
+                project.sessions[0].include_mcssch_log = bool(int(value))
                 continue
             if keyword == 'SESSION_LOG_EXE':
-                project.sessions[0].include_mcsexe_log = bool(value)
+                project.sessions[0].include_mcsexe_log = bool(int(value))
                 continue
             if keyword == 'SESSION_INC_SMIB':
-                project.sessions[0].include_station_smib = bool(value)
+                project.sessions[0].include_station_smib = bool(int(value))
                 continue
             if keyword == 'SESSION_INC_DES':
-                project.sessions[0].include_station_design = bool(value)
+                project.sessions[0].include_station_design = bool(int(value))
                 continue
             if keyword == 'SESSION_DRX_BEAM':
                 project.sessions[0].drx_beam = int(value)
-- 
2.43.0


From fc58189ab1cda0c4942904bfff82b0a609a01b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 080/250] fix: settings of one observation were carried over to
 the next when reading session definition files

---
 lsl/common/sdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 1137b17..21542a3 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2144,12 +2144,13 @@ def parse_sdf(filename):
     project.project_office.sessions = []
     project.project_office.observations = [[],]
     
-    obs_temp = {'id': 0, 'name': '', 'target': '', 'ra': 0.0, 'dec': 0.0, 'start': '', 'duration': '', 'mode': '', 
+    obs_default = {'id': 0, 'name': '', 'target': '', 'ra': 0.0, 'dec': 0.0, 'start': '', 'duration': '', 'mode': '', 
                 'beamDipole': None, 'freq1': 0, 'freq2': 0, 'filter': 0, 'HighDR': False, 'comments': None, 
                 'stpRADec': True, 'tbtSamples': 0, 'gain': -1, 
                 'obsFEE': [[-1,-1] for n in range(LWA_MAX_NSTD)], 
                 'aspFlt': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT1': [-1 for n in range(LWA_MAX_NSTD)], 
                 'aspAT2': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT3': [-1 for n in range(LWA_MAX_NSTD)]}
+    obs_temp = copy.deepcopy(obs_default)
     beam_temp = {'id': 0, 'c1': 0.0, 'c2': 0.0, 'duration': 0, 'freq1': 0, 'freq2': 0, 'HighDR': False, 'delays': None, 'gains': None}
     beam_temps = []
     
@@ -2290,6 +2291,7 @@ def parse_sdf(filename):
                     project.sessions[0].observations.append( _parse_create_obs_object(obs_temp, beam_temps=beam_temps) )
                     beam_temp = {'id': 0, 'c1': 0.0, 'c2': 0.0, 'duration': 0, 'freq1': 0, 'freq2': 0, 'HighDR': False, 'delays': None, 'gains': None}
                     beam_temps = []
+                    obs_temp = copy.deepcopy(obs_default)
                 obs_temp['id'] = int(value)
                 project.project_office.observations[0].append( None )
             
-- 
2.43.0


From e4a8cace548913737035fb5b3c78fbf94bf52ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 081/250] fix: custom delays and gains of a step were carried
 over to the next when reading session definition files

---
 lsl/common/sdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 21542a3..41c8de1 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2439,6 +2439,8 @@ def parse_sdf(filename):
                         beam_temps.append( copy.deepcopy(beam_temps[-1]) )
                         beam_temps[-1]['id'] = ids[0]
                     
+                    beam_temps[-1]['delays'] = None
+                    beam_temps[-1]['gains'] = None
                     if value in ('HIGH_DR', '2'):
                         beam_temps[-1]['HighDR'] = True
                     
-- 
2.43.0


From 5b1de2fdfa5a362a16f51d279647b59a82d8b1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:46 +0000
Subject: [PATCH 082/250] fix: projects could not be auto-filled from the
 configuration

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 41c8de1..c3a66ba 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -234,7 +234,7 @@ class Project(object):
         id = OBSV_CONFIG.get('project_id')
         if name is None or id is None:
             raise RuntimeError("Auto-fill values for the project cannot be loaded from the configuration file")
-        return cls(observer, name, id, sessions=session, comments=comments, project_office=project_office)
+        return cls(observer, name, id, sessions=sessions, comments=comments, project_office=project_office)
         
     def update(self):
         """Update the various sessions that are part of this project."""
-- 
2.43.0


From 2ed6f37f071c83dcf057da37e53b5893d9e2bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:52 +0000
Subject: [PATCH 083/250] fix: observations on days with a leap second were
 read back up to a second late

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index c3a66ba..6a0908b 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2043,7 +2043,7 @@ def _parse_create_obs_object(obs_temp, beam_temps=None):
     # Create a time string for the start time in UTC.  This is a little tricky 
     # because of the rounding to the nearest millisecond which has to be done
     # to the datetime object.
-    start = Time(obs_temp['mjd'] + obs_temp['mpm'] / 1000.0 / 3600.0 / 24.0, format='MJD').utc_py_date
+    start = mjdmpm_to_datetime(obs_temp['mjd'], obs_temp['mpm'])
     start += timedelta(microseconds=(int(round(start.microsecond/1000.0)*1000.0)-start.microsecond))
     utcString = start.strftime("UTC %Y %m %d %H:%M:%S.%f")
     utcString = utcString[:-3]
-- 
2.43.0


From fb4be1af75d47a80ed31ef11349ceb228d43717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 084/250] fix: durations and frequencies of scans could not be
 given as astropy quantities

---
 lsl/common/idf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 22c6661..65e7338 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -613,8 +613,8 @@ class Scan(object):
         self.duration = duration
         self.mode = mode
         self.beamDipole = None
-        self.frequency1 = float(frequency1)
-        self.frequency2 = float(frequency2)
+        self.frequency1 = frequency1
+        self.frequency2 = frequency2
         self.filter = int(filter)
         self.comments = comments
         
@@ -710,7 +710,7 @@ class Scan(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
-- 
2.43.0


From 2155c55fdcd82acde7c00770f5d7fedc49707d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 085/250] fix: scans on days with a leap second were read back
 up to a second late

---
 lsl/common/idf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 65e7338..e975a0d 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1200,7 +1200,7 @@ def _parse_create_scan_object(obs_temp, alt_temps=[]):
     # Create a time string for the start time in UTC.  This is a little tricky 
     # because of the rounding to the nearest millisecond which has to be done
     # to the datetime object.
-    start = Time(obs_temp['mjd'] + obs_temp['mpm'] / 1000.0 / 3600.0 / 24.0, format='MJD').utc_py_date
+    start = mjdmpm_to_datetime(obs_temp['mjd'], obs_temp['mpm'])
     start += timedelta(microseconds=(int(round(start.microsecond/1000.0)*1000.0)-start.microsecond))
     utcString = start.strftime("UTC %Y %m %d %H:%M:%S.%f")
     utcString = utcString[:-3]
-- 
2.43.0


From a903eb75a967f3c41fae3056e5dd89f818b5acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 086/250] fix: settings of one scan were carried over to the
 next when reading interferometer definition files

---
 lsl/common/idf.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index e975a0d..66e1127 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1267,9 +1267,10 @@ def parse_idf(filename):
     project.project_office.runs = []
     project.project_office.scans = [[],]
     
-    obs_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0], 'start': '', 'duration': '', 'mode': '', 
-                'freq1': 0, 'freq2': 0, 'filter': 0, 'comments': None, 'nAlt': 0, 'gain': -1, 
-                'aspFlt': -1}
+    obs_default = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0], 'start': '', 'duration': '', 'mode': '', 
+                   'freq1': 0, 'freq2': 0, 'filter': 0, 'comments': None, 'nAlt': 0, 'gain': -1, 
+                   'aspFlt': -1}
+    obs_temp = copy.deepcopy(obs_default)
     alt_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0]}
     alt_temps = []
     
@@ -1390,6 +1391,7 @@ def parse_idf(filename):
                     project.runs[0].scans.append( _parse_create_scan_object(obs_temp, alt_temps=alt_temps) )
                     alt_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0]}
                     alt_temps = []
+                    obs_temp = copy.deepcopy(obs_default)
                 obs_temp['id'] = int(value)
                 project.project_office.scans[0].append( None )
             
-- 
2.43.0


From 1bb2e98e949ef7080604d40d0a8fc89f885b54b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 087/250] fix: proper motions of one alternate phase center
 were carried over to the next

---
 lsl/common/idf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 66e1127..9914c8c 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1455,7 +1455,7 @@ def parse_idf(filename):
                     alt_temps[-1]['target'] = value
                 else:
                     if alt_temps[-1]['id'] != ids[0]:
-                        alt_temps.append( copy.deepcopy(alt_temps[-1]) )
+                        alt_temps.append( copy.deepcopy(alt_temp) )
                         alt_temps[-1]['id'] = ids[0]
                     alt_temps[-1]['target'] = value
                 continue
-- 
2.43.0


From 152532e9a85aecd24f37efd1cd37eb56f1d4f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 088/250] fix: run comments grew each time a run with a UCF
 user name was rendered

---
 lsl/common/idf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 9914c8c..035f38d 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -194,6 +194,8 @@ class Project(object):
             clean = ''
             if ses.comments:
                 clean = UCF_USERNAME_RE.sub('', ses.comments)
+                if clean != ses.comments and clean.startswith(';;'):
+                    clean = clean[2:]
             ses.comments = f"ucfuser:{ses.ucf_username}"
             if len(clean) > 0:
                 ses.comments += ';;%s' % clean
@@ -1365,7 +1367,10 @@ def parse_idf(filename):
                     project.runs[0].ucf_username = mtch.group('username')
                     if mtch.group('subdir') is not None:
                         project.runs[0].ucf_username = os.path.join(project.runs[0].ucf_username, mtch.group('subdir'))
-                project.runs[0].comments = UCF_USERNAME_RE.sub('', value)
+                comments = UCF_USERNAME_RE.sub('', value)
+                if mtch is not None and comments.startswith(';;'):
+                    comments = comments[2:]
+                project.runs[0].comments = comments
                 continue
             if keyword == 'RUN_REMPO':
                 project.project_office.runs.append(None)
-- 
2.43.0


From 1e7711ebc3f87939e6eff77d18ab59b8401dd172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 089/250] fix: validating an alternate phase center outside of
 a scan raised an AttributeError

---
 lsl/common/idf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 035f38d..233279a 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1039,6 +1039,8 @@ class Jovian(Scan):
 class AlternatePhaseCenter(object):
     """Class to hold an alternate phase center for a scan."""
     
+    _parent = None
+    
     def __init__(self, target, intent, ra, dec, pm=[0.0, 0.0]):
         self.target = target
         self.intent = intent
-- 
2.43.0


From bab880ba30486103b9fd96a469f408e853b58bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 090/250] fix: session definition files could not be generated
 from scans without comments

---
 lsl/common/idf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 233279a..d0f2a82 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -328,7 +328,7 @@ class Project(object):
                     ra = obs.ra + delta_epoch * obs.pm[0]/math.cos(obs.dec*math.pi/180)/1000.0/3600.0/15.0
                     dec = obs.dec + delta_epoch * obs.pm[1]/1000.0/3600.0
                     comments = ''
-                    if comments is not None:
+                    if obs.comments is not None:
                         comments += obs.comments
                     if obs.pm[0] != 0.0 or obs.pm[1] != 0.0:
                         comments = comments+";;Applied proper motion of %+.1f mas/yr in RA and %+.1f mas/yr in dec" % (obs.pm[0], obs.pm[1])
-- 
2.43.0


From 304a4de8e443467523125d33a9015f99010e7b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 091/250] fix: session definition files could not be generated
 without project office comments

---
 lsl/common/idf.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index d0f2a82..1e58e05 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -315,9 +315,19 @@ class Project(object):
             session.include_station_smib = True
             
             ## Project Office
+            try:
+                pos = self.project_office.runs[run]
+            except (TypeError, IndexError):
+                pos = None
+            try:
+                poo = copy.deepcopy(self.project_office.scans[run])
+            except (TypeError, IndexError):
+                poo = []
+            while len(poo) < len(ses.scans):
+                poo.append(None)
             new_projoff = sdf.ProjectOffice(project=copy.deepcopy(self.project_office.project), 
-                                               sessions=copy.deepcopy([self.project_office.runs[run],]), 
-                                               observations=copy.deepcopy([self.project_office.scans[run],]))
+                                               sessions=[pos,], 
+                                               observations=[poo,])
             
             ## Observations
             for o,obs in enumerate(ses.scans):
@@ -360,10 +370,6 @@ class Project(object):
                     alt_r = alt_r + delta_epoch * alt_pr/math.cos(alt_d*math.pi/180)/1000.0/3600.0/15.0
                     alt_d = alt_d + delta_epoch * alt_pd/1000.0/3600.0
                     
-                    try:
-                        new_projoff.observations[0][o]
-                    except IndexError:
-                        new_projoff.observations[0][o] = None
                     if new_projoff.observations[0][o] is None:
                         new_projoff.observations[0][o] = ''
                     new_projoff.observations[0][o] = "alttarget%i:%s;;altintent%i:%s;;altra%i:%.9f;;altdec%i:%+.9f;;%s" % (cid, alt_t, cid, alt_i, cid, alt_r, cid, alt_d, new_projoff.observations[0][o])
-- 
2.43.0


From 31ed061b9d3cecec47ae49a45f1b02bf61755ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 092/250] fix: session definition files could not be generated
 for proper motions across 0 hours of right ascension

---
 lsl/common/idf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 1e58e05..8c6d156 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -335,7 +335,7 @@ class Project(object):
                 if isinstance(obs, DRX):
                     ### Apply the proper motion to generate the SDFs
                     delta_epoch = (obs.mjd + obs.mpm/1000.0/86400.0 - 51544.5) / 365.25
-                    ra = obs.ra + delta_epoch * obs.pm[0]/math.cos(obs.dec*math.pi/180)/1000.0/3600.0/15.0
+                    ra = (obs.ra + delta_epoch * obs.pm[0]/math.cos(obs.dec*math.pi/180)/1000.0/3600.0/15.0) % 24.0
                     dec = obs.dec + delta_epoch * obs.pm[1]/1000.0/3600.0
                     comments = ''
                     if obs.comments is not None:
@@ -367,7 +367,7 @@ class Project(object):
                     
                     ### Apply the proper motion to generate the SDFs
                     delta_epoch = (obs.mjd + obs.mpm/1000.0/86400.0 - 51544.5) / 365.25
-                    alt_r = alt_r + delta_epoch * alt_pr/math.cos(alt_d*math.pi/180)/1000.0/3600.0/15.0
+                    alt_r = (alt_r + delta_epoch * alt_pr/math.cos(alt_d*math.pi/180)/1000.0/3600.0/15.0) % 24.0
                     alt_d = alt_d + delta_epoch * alt_pd/1000.0/3600.0
                     
                     if new_projoff.observations[0][o] is None:
-- 
2.43.0


From 9a26343f8381761c37b4c6638d212f59d394d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:48 +0000
Subject: [PATCH 093/250] fix: the ASP filter of scans was missing from the
 generated session definition files

---
 lsl/common/idf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 8c6d156..389f8a3 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -357,6 +357,8 @@ class Project(object):
                                             gain=obs.gain, high_dr=False, comments=obs.comments)
                 else:
                     raise RuntimeError("This should never happen")
+                if obs.asp_filter != -1:
+                    new_obs.asp_filter = [obs.asp_filter for f in new_obs.asp_filter]
                 session.append(new_obs)
                 
                 npc = len(obs.alt_phase_centers)
-- 
2.43.0


From 8620df47fcbc61369b6738c68ffe431300d87394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:11 +0000
Subject: [PATCH 094/250] fix: validating a scan with alternate phase centers
 and no tunings raised a ZeroDivisionError

---
 lsl/common/idf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 389f8a3..7a13087 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -929,7 +929,7 @@ class Scan(object):
 
             alt_sep = ephem.separation(pnt, alt_pnt) * 180/math.pi
 
-            beam = 2.0*74e6/max([self.frequency1, self.frequency2])
+            beam = 2.0*74e6/max([self.frequency1, self.frequency2, 1.0])
             if alt_sep > beam/2.0:
                 LSL_LOGGER.error(f"Error: alternate phase center {j+1} is {alt_sep:.1f} degrees from pointing center")
                 failures += 1
-- 
2.43.0


From a93d7159797206aa37d8857a92493b94b4cebc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 095/250] fix: numbers in MIB entries were zero when any of
 their bytes is zero

---
 lsl/common/mcs.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lsl/common/mcs.py b/lsl/common/mcs.py
index e1d26bc..f2e14e7 100644
--- a/lsl/common/mcs.py
+++ b/lsl/common/mcs.py
@@ -1144,7 +1144,12 @@ class MIBEntry(object):
         mibe = klass()
         mibe.eType = int(record.eType)
         mibe.index = index
-        mibe.value = mibe._parse_value(record.val, dbmType)
+        value = record.val
+        if dbmType[:1] in ('i', 'f'):
+            # Numbers are binary and can contain null characters
+            size = int(dbmType[1:2])
+            value = temp.raw[type(record).val.offset:type(record).val.offset+size]
+        mibe.value = mibe._parse_value(value, dbmType)
         mibe.dbmType = dbmType
         mibe.icdType = icdType
         mibe._tv = (int(record.tv[0]), int(record.tv[1]))
-- 
2.43.0


From 68eaf5dd916bac037a23d98f3256534adb2de340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 096/250] fix: update times of MIB entries were off by up to a
 second

---
 lsl/common/mcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/mcs.py b/lsl/common/mcs.py
index f2e14e7..a1906d3 100644
--- a/lsl/common/mcs.py
+++ b/lsl/common/mcs.py
@@ -1155,6 +1155,6 @@ class MIBEntry(object):
         mibe._tv = (int(record.tv[0]), int(record.tv[1]))
         
         # Time
-        mibe.updateTime = datetime.fromtimestamp(record.tv[0] + record.tv[1]/1e9, tz=timezone.utc)
+        mibe.updateTime = datetime.fromtimestamp(record.tv[0] + record.tv[1]/1e6, tz=timezone.utc)
         
         return mibe
-- 
2.43.0


From 49e3c8059876430434f50aae467d88f7b097c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 097/250] fix: truncated MIB entries were read past their end

---
 lsl/common/mcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/mcs.py b/lsl/common/mcs.py
index a1906d3..a4fb020 100644
--- a/lsl/common/mcs.py
+++ b/lsl/common/mcs.py
@@ -1118,6 +1118,8 @@ class MIBEntry(object):
             """ % (MIB_INDEX_FIELD_LENGTH, MIB_VAL_FIELD_LENGTH), endianness='little')
             
         # Squeeze the binary string into the structure using ctypes magic
+        if len(value) < ctypes.sizeof(record):
+            raise ValueError(f"Entry is too short: {len(value)} < {ctypes.sizeof(record)} bytes")
         temp = ctypes.create_string_buffer(value)
         ctypes.memmove(ctypes.addressof(record), ctypes.addressof(temp), ctypes.sizeof(record))
         
-- 
2.43.0


From 18685894a40edae1af66cda5cb5f7b8d8cb57811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 098/250] fix: subsystem status entries could not be printed

---
 lsl/common/sdm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/common/sdm.py b/lsl/common/sdm.py
index 02bbbe7..f24e110 100644
--- a/lsl/common/sdm.py
+++ b/lsl/common/sdm.py
@@ -29,7 +29,7 @@ class SubSystemStatus(object):
         self.time = float(time)
         
     def __str__(self):
-        return "%s at %s: %s [%i = %s]" % (self.name, datetime.fromtimestamp(self.time, tz=timezone.utc), self.info, self.summary, self.summary.description)
+        return "%s at %s: %s [%i = %s]" % (self.name, datetime.fromtimestamp(self.time, tz=timezone.utc), self.info, self.summary.value, self.summary.description)
         
     def binary_read(self, fh):
         """
@@ -42,8 +42,8 @@ class SubSystemStatus(object):
         
         fh.readinto(sssStruct)
         
-        self.summary = sssStruct.summary
-        self.info = sssStruct.info
+        self.summary = SummaryCode(sssStruct.summary)
+        self.info = sssStruct.info.decode('utf-8', errors='replace')
         ts, tu = sssStruct.tv
         self.time = ts + tu/1.0e6
 
-- 
2.43.0


From e0cea17bf37e1c1991efab9bb69302bf336cd0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 099/250] fix: the intervals of DR5 were missing from station
 settings and session specifications

---
 lsl/common/metabundle.py | 4 ++--
 lsl/common/sdm.py        | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 3bd84e7..5c2bd57 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -44,11 +44,11 @@ def read_ses_file(filename):
         
     record = {'ASP': bses.SESSION_MRP_ASP, 'NDP': bses.SESSION_MRP_NDP, 'SHL': bses.SESSION_MRP_SHL, 
               'MCS': bses.SESSION_MRP_MCS, 'DR1': bses.SESSION_MRP_DR1, 'DR2': bses.SESSION_MRP_DR2,
-              'DR3': bses.SESSION_MRP_DR3, 'DR4': bses.SESSION_MRP_DR4}
+              'DR3': bses.SESSION_MRP_DR3, 'DR4': bses.SESSION_MRP_DR4, 'DR5': bses.SESSION_MRP_DR5}
     
     update = {'ASP': bses.SESSION_MUP_ASP, 'NDP': bses.SESSION_MUP_NDP, 'SHL': bses.SESSION_MUP_SHL, 
               'MCS': bses.SESSION_MUP_MCS, 'DR1': bses.SESSION_MUP_DR1, 'DR2': bses.SESSION_MUP_DR2,
-              'DR3': bses.SESSION_MUP_DR3, 'DR4': bses.SESSION_MUP_DR4}
+              'DR3': bses.SESSION_MUP_DR3, 'DR4': bses.SESSION_MUP_DR4, 'DR5': bses.SESSION_MUP_DR5}
     
     return {'version': bses.FORMAT_VERSION,
             'project_id': bses.PROJECT_ID.lstrip().rstrip(), 'session_id': bses.SESSION_ID, 
diff --git a/lsl/common/sdm.py b/lsl/common/sdm.py
index f24e110..5cd315e 100644
--- a/lsl/common/sdm.py
+++ b/lsl/common/sdm.py
@@ -175,6 +175,7 @@ class StationSettings(object):
         self.report['DR2'] = ssStruct.mrp_dr2
         self.report['DR3'] = ssStruct.mrp_dr3
         self.report['DR4'] = ssStruct.mrp_dr4
+        self.report['DR5'] = ssStruct.mrp_dr5
         self.report['SHL'] = ssStruct.mrp_shl
         self.report['MCS'] = ssStruct.mrp_mcs
         
@@ -184,6 +185,7 @@ class StationSettings(object):
         self.update['DR2'] = ssStruct.mup_dr2
         self.update['DR3'] = ssStruct.mup_dr3
         self.update['DR4'] = ssStruct.mup_dr4
+        self.update['DR5'] = ssStruct.mup_dr5
         self.update['SHL'] = ssStruct.mup_shl
         self.update['MCS'] = ssStruct.mup_mcs
         
-- 
2.43.0


From 25ece9c444560af20dd1219a7f9f82a27808b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 100/250] fix: tarballs could write to or read from files
 outside of the temporary directory

---
 lsl/common/_metabundle_utils.py | 43 ++++++++++-------------
 lsl/common/metabundle.py        | 62 ++++-----------------------------
 2 files changed, 26 insertions(+), 79 deletions(-)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 656daae..3ea1344 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -14,7 +14,7 @@ from lsl.common.mcs import MIB
 
 
 __version__ = '0.1'
-__all__ = ['FILENAME_RE', '_open_tarball', '_get_members', 'managed_mkdtemp',
+__all__ = ['FILENAME_RE', '_open_tarball', '_get_members', '_extract_member', 'managed_mkdtemp',
            'get_beamformer_min_delay', 'get_session_metadata',
            'get_asp_configuration', 'get_asp_configuration_summary']
 
@@ -34,6 +34,21 @@ def _get_members(tarname):
     return tf.getmembers()
 
 
+def _extract_member(tf, member, path):
+    """
+    Extract a member of a tarball to a directory.  Members that would end up 
+    outside of this directory, or that link to something outside of it, are 
+    refused.
+    """
+    
+    mname = os.path.abspath(os.path.normpath(os.path.join(path, member.name)))
+    if os.path.commonpath([path, mname]) != path:
+        raise RuntimeError(f"Invalid path in tarball: '{member.name}'")
+    if not (member.isreg() or member.isdir()):
+        raise RuntimeError(f"Invalid member in tarball: '{member.name}'")
+    tf.extract(member, path)
+
+
 class managed_mkdtemp(object):
     """
     Wrapper class around tempfile.mkdtemp to enable 'with' statements with 
@@ -69,14 +84,7 @@ def get_beamformer_min_delay(tarname):
             ti = tf.getmember('mindelay.txt')
         except KeyError:
             return None
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        _extract_member(tf, ti, tempDir)
         
         # Parse the SDM file and build the SDM instance
         with open(os.path.join(tempDir, 'mindelay.txt'), 'r') as fh:
@@ -111,14 +119,7 @@ def get_session_metadata(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-13:] == '_metadata.txt':
                     break
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        _extract_member(tf, ti, tempDir)
         
         # Read in the SMF
         filename = os.path.join(tempDir, ti.name)
@@ -212,13 +213,7 @@ def get_asp_configuration(tarname, which='beginning'):
                     
         if len(mibs) > 0:
             for member in mibs:
-                mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-                try:
-                    if os.path.commonpath([tempDir, mname]) != tempDir:
-                        continue
-                except ValueError:
-                    continue
-                tf.extract(member, tempDir)
+                _extract_member(tf, member, tempDir)
             
             # Read in the right MIB
             aspMIB = {}
diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 5c2bd57..1125a4b 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -200,14 +200,7 @@ def get_sdm(tarname):
             ti = tf.getmember('dynamic/sdm.dat')
         except KeyError:
             return None
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        _extract_member(tf, ti, tempDir)
         
         # Parse the SDM file and build the SDM instance
         dynamic = sdm.parse_sdm(os.path.join(tempDir, 'dynamic', 'sdm.dat'))
@@ -231,14 +224,7 @@ def get_mcs_hostname(tarname):
             ti = tf.getmember('mcs.host')
         except KeyError:
             return 'unknown'
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        _extract_member(tf, ti, tempDir)
         
         # Read in the name
         with open(os.path.join(tempDir, 'mcs.host'), 'r') as fh:
@@ -269,14 +255,7 @@ def get_station(tarname, apply_sdm=True):
             hostname = get_mcs_hostname(tarname)
             hostname = hostname.split('-')[0]
             return getattr(stations, hostname, None)
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        _extract_member(tf, ti, tempDir)
         
         # Read in the SSMIF
         station = stations.parse_ssmif(os.path.join(tempDir, 'ssmif.dat'))
@@ -320,14 +299,7 @@ def get_session_spec(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-4:] == '.ses':
                     break
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        _extract_member(tf, ti, tempDir)
         
         # Read in the SES
         ses = read_ses_file(os.path.join(tempDir, ti.name))
@@ -352,13 +324,7 @@ def get_observation_spec(tarname, obs_id=None):
             if ti.name[-4:] == '.obs':
                 tis.append(ti)
         for member in tis:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+            _extract_member(tf, member, tempDir)
         
         # Read in the OBS files
         obsList = []
@@ -409,14 +375,7 @@ def get_sdf(tarname):
         for ti in _get_members(tarname):
             if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
                 break
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        _extract_member(tf, ti, tempDir)
         
         # Parse it
         project = sdf.parse_sdf(os.path.join(tempDir, ti.name))
@@ -437,14 +396,7 @@ def get_command_script(tarname):
         for ti in _get_members(tarname):
             if ti.name[-3:] == '.cs':
                 break
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        _extract_member(tf, ti, tempDir)
         
         # Read in the CS
         cs = read_cs_file(os.path.join(tempDir, ti.name))
-- 
2.43.0


From f8417500b31b14f1fc975d776d4d208857b411ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 101/250] fix: Measurement Set tarballs could write to files
 outside of the temporary directory

---
 lsl/imaging/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 8ad01a8..bc57b14 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -872,6 +872,8 @@ try:
                                 continue
                         except ValueError:
                             continue
+                        if not (member.isreg() or member.isdir()):
+                            continue
                             
                         tf.extract(member, tempdir)
                         
-- 
2.43.0


From 88c22ccbf3ad123031e5766921f9b65a188fc16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 102/250] fix: tarballs without any meta-data were valid

---
 lsl/common/_metabundle_utils.py | 2 ++
 lsl/common/metabundle.py        | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 3ea1344..65ce19a 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -119,6 +119,8 @@ def get_session_metadata(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-13:] == '_metadata.txt':
                     break
+            else:
+                raise RuntimeError("Cannot find a session meta-data file in the tarball")
         _extract_member(tf, ti, tempDir)
         
         # Read in the SMF
diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 1125a4b..d65d95b 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -299,6 +299,8 @@ def get_session_spec(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-4:] == '.ses':
                     break
+            else:
+                raise RuntimeError("Cannot find a session specification file in the tarball")
         _extract_member(tf, ti, tempDir)
         
         # Read in the SES
@@ -375,6 +377,8 @@ def get_sdf(tarname):
         for ti in _get_members(tarname):
             if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
                 break
+        else:
+            raise RuntimeError("Cannot find a session definition file in the tarball")
         _extract_member(tf, ti, tempDir)
         
         # Parse it
@@ -396,6 +400,8 @@ def get_command_script(tarname):
         for ti in _get_members(tarname):
             if ti.name[-3:] == '.cs':
                 break
+        else:
+            raise RuntimeError("Cannot find a command script in the tarball")
         _extract_member(tf, ti, tempDir)
         
         # Read in the CS
-- 
2.43.0


From 56d9dd4fa1bedc422e575d571883e7911a5977e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 103/250] fix: the minimum beamformer delay could be taken for
 the session definition file

---
 lsl/common/metabundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index d65d95b..79c5872 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -375,7 +375,7 @@ def get_sdf(tarname):
         # Find the right .txt file (not the metadata one) and extract it
         tf = _open_tarball(tarname)
         for ti in _get_members(tarname):
-            if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
+            if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1 and ti.name != 'mindelay.txt':
                 break
         else:
             raise RuntimeError("Cannot find a session definition file in the tarball")
-- 
2.43.0


From 542df674e0faf41cb39cd798b9e65a1b7bafd4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:13 +0000
Subject: [PATCH 104/250] fix: meta-data tarballs which have changed were read
 from a cache

---
 lsl/common/_metabundle_utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 65ce19a..3506d2b 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -24,11 +24,15 @@ FILENAME_RE = re.compile(r'(?P<projectID>[a-zA-Z0-9]{1,8})_(?P<sessionID>\d+)(_(
 
 
 @lru_cache(maxsize=1)
-def _open_tarball(tarname):
+def _open_tarball_version(tarname, inode, mtime, size):
     return tarfile.open(tarname, mode='r:*')
 
 
-@lru_cache(maxsize=1)
+def _open_tarball(tarname):
+    info = os.stat(tarname)
+    return _open_tarball_version(tarname, info.st_ino, info.st_mtime_ns, info.st_size)
+
+
 def _get_members(tarname):
     tf = _open_tarball(tarname)
     return tf.getmembers()
-- 
2.43.0


From f6a391edd37464c23269bd259ac44a78b4d3b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:08 +0000
Subject: [PATCH 105/250] fix: some delays changed when converted to a NDP
 delay and back

---
 lsl/common/ndp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/ndp.py b/lsl/common/ndp.py
index 0d9fdde..ed61e16 100644
--- a/lsl/common/ndp.py
+++ b/lsl/common/ndp.py
@@ -87,7 +87,7 @@ def delay_to_ndpd(delay):
     
     # Convert the delay to a combination of FIFO delays (~5.1 ns) and 
     # FIR delays (~0.3 ns)
-    sample = delay * (fS/1e9)
+    sample = round(delay * (fS/1e9), 6)
     course = int(sample)
     fine   = int(16*(sample - course))
     
-- 
2.43.0


From b616a07cf6a513059e3afc107f9347d2d6f39990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 106/250] fix: digitizers of stations from binary SSMIFs were
 wrong and unused entries were taken for antennas

---
 lsl/common/stations.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 580cb22..2c211c8 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1624,19 +1624,20 @@ def _parse_ssmif_binary(filename_or_fh):
         #
         # Stand & Antenna Data
         #
-        stdPos   = [list(i) for i in zip(bssmif.fStdLx, bssmif.fStdLy, bssmif.fStdLz)]
-        stdAnt   = list(bssmif.iAntStd)
-        stdOrie  = list(bssmif.iAntOrie)
-        stdStat  = list(bssmif.iAntStat)
-        stdTheta = list(bssmif.fAntTheta)
-        stdPhi   = list(bssmif.fAntPhi)
-        stdDesi  = list(bssmif.eAntDesi)
+        nStand   = bssmif.nStd
+        stdPos   = [list(i) for i in zip(bssmif.fStdLx, bssmif.fStdLy, bssmif.fStdLz)][:nStand]
+        stdAnt   = list(bssmif.iAntStd)[:2*nStand]
+        stdOrie  = list(bssmif.iAntOrie)[:2*nStand]
+        stdStat  = list(bssmif.iAntStat)[:2*nStand]
+        stdTheta = list(bssmif.fAntTheta)[:2*nStand]
+        stdPhi   = list(bssmif.fAntPhi)[:2*nStand]
+        stdDesi  = list(bssmif.eAntDesi)[:2*nStand]
         
         #
         # FEE, Cable, & SEP Data
         #
         feeID   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sFEEID], *bssmif.dims['sFEEID'])
-        feeID   = [''.join([k for k in i if k != '\x00']) for i in feeID]
+        feeID   = [''.join([k for k in i if k != '\x00']) for i in feeID][:bssmif.nFEE]
         feeStat = list(bssmif.iFEEStat)
         feeDesi = list(bssmif.eFEEDesi)
         feeGai1 = list(bssmif.fFEEGai1)
@@ -1645,7 +1646,7 @@ def _parse_ssmif_binary(filename_or_fh):
         feeAnt2 = list(bssmif.iFEEAnt2)
         
         rpdID   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sRPDID], *bssmif.dims['sRPDID'])
-        rpdID   = [''.join([k for k in i if k != '\x00']) for i in rpdID]
+        rpdID   = [''.join([k for k in i if k != '\x00']) for i in rpdID][:bssmif.nRPD]
         rpdStat = list(bssmif.iRPDStat)
         rpdDesi = list(bssmif.eRPDDesi)
         rpdLeng = list(bssmif.fRPDLeng)
@@ -1676,6 +1677,7 @@ def _parse_ssmif_binary(filename_or_fh):
         arxPort  = list(bssmif.iARBPort)
         arxStat  = mcs_mod.flat_to_multi(bssmif.eARBStat, *bssmif.dims['eARBStat'])
         arxAnt   = mcs_mod.flat_to_multi(bssmif.iARBAnt, *bssmif.dims['iARBAnt'])
+        arxAnt   = [list(i)[:nChanARX] for i in arxAnt[:bssmif.nARB]]
         arxIn    = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBIN], *bssmif.dims['sARBIN'])
         arxIn    = [[''.join(i) for i in j] for j in arxIn]
         arxOut   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBOUT], *bssmif.dims['sARBOUT'])
@@ -1695,6 +1697,7 @@ def _parse_ssmif_binary(filename_or_fh):
         snapInC  = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sSnapINC], *bssmif.dims['sSnapINC'])
         snapInC  = [[''.join([k for k in i if k != '\x00']) for i in j] for j in snapInC]
         snapAnt  = mcs_mod.flat_to_multi(bssmif.iSnapAnt, *bssmif.dims['iSnapAnt'])
+        snapAnt  = [list(i)[:bssmif.nSnapCh] for i in snapAnt[:bssmif.nSnap]]
         
         serverID   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sServerID], *bssmif.dims['sServerID'])
         serverID   = [''.join([k for k in i if k != '\x00']) for i in serverID]
@@ -1719,10 +1722,10 @@ def _parse_ssmif_binary(filename_or_fh):
         #
         # ASP Settings
         #
-        aspFlt = list(bsettings.asp_flt)
-        aspAT1 = list(bsettings.asp_at1)
-        aspAT2 = list(bsettings.asp_at2)
-        aspAT3 = list(bsettings.asp_at3)
+        aspFlt = list(bsettings.asp_flt)[:nStand]
+        aspAT1 = list(bsettings.asp_at1)[:nStand]
+        aspAT2 = list(bsettings.asp_at2)[:nStand]
+        aspAT3 = list(bsettings.asp_at3)[:nStand]
         
         #
         # DRX Settings
-- 
2.43.0


From 04d1845a7cfc28cad47d832f8a9477034d908434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 107/250] fix: labels of ARX inputs and outputs from binary
 SSMIFs were padded with nulls

---
 lsl/common/stations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 2c211c8..d10bd20 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1679,9 +1679,9 @@ def _parse_ssmif_binary(filename_or_fh):
         arxAnt   = mcs_mod.flat_to_multi(bssmif.iARBAnt, *bssmif.dims['iARBAnt'])
         arxAnt   = [list(i)[:nChanARX] for i in arxAnt[:bssmif.nARB]]
         arxIn    = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBIN], *bssmif.dims['sARBIN'])
-        arxIn    = [[''.join(i) for i in j] for j in arxIn]
+        arxIn    = [[''.join([k for k in i if k != '\x00']) for i in j] for j in arxIn]
         arxOut   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBOUT], *bssmif.dims['sARBOUT'])
-        arxOut   = [[''.join(i) for i in j] for j in arxOut]
+        arxOut   = [[''.join([k for k in i if k != '\x00']) for i in j] for j in arxOut]
         
         #
         # SNAP & Server Data
-- 
2.43.0


From 27f9761d586ef74a5384881645eb2f2d1247a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 108/250] fix: AT3 settings of single stands in SSMIFs were
 taken from AT1

---
 lsl/common/stations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index d10bd20..03b7c48 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1561,7 +1561,7 @@ def _parse_ssmif_text(filename_or_fh):
                 if ids[0] == -1:
                     aspAT3 = [at3 for n in range(nStand)]
                 else:
-                    aspAT3[ids[0]-1] = at1
+                    aspAT3[ids[0]-1] = at3
                 continue
                 
             #
-- 
2.43.0


From 5e5decdf9324517b1025d9e1bff3860b72879c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 109/250] fix: ARX power ports in SSMIFs replaced the racks

---
 lsl/common/stations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 03b7c48..56d0c4c 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1391,7 +1391,7 @@ def _parse_ssmif_text(filename_or_fh):
                 continue
                 
             if keyword == 'ARB_PORT':
-                arxRack[ids[0]-1] = int(value)
+                arxPort[ids[0]-1] = int(value)
                 continue
                 
             if keyword == 'ARB_STAT':
-- 
2.43.0


From 56c715d6b8e45db7260c0486a7f1191dff59853a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 110/250] fix: values in SSMIFs kept the blanks before a
 comment

---
 lsl/common/stations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 56d0c4c..4ce467b 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1098,7 +1098,7 @@ def _parse_ssmif_text(filename_or_fh):
                 continue
                 
             keywordSection, value = line.split(None, 1)
-            value = value.split('#', 1)[0]
+            value = value.split('#', 1)[0].rstrip()
             
             mtch = kwdRE.match(keywordSection)
             keyword = mtch.group('keyword')
-- 
2.43.0


From 2f7e6304c10bab2896df807e129dd1f1ca032186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 111/250] fix: default ASP attenuations were applied to the
 cables of other stands

---
 lsl/common/stations.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 4ce467b..a666e63 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1833,16 +1833,6 @@ def parse_ssmif(filename_or_fh):
         cables.append(Cable(id, length, vf=vf/100.0, dd=float(dd)*1e-9, a0=a0, a1=a1, ref_freq=ref_freq, stretch=stretch))
         i += 1
         
-    # Apply corrections for the default ASP attenuator settings to the cables
-    minAT1 = min(aspAT1)
-    minAT2 = min(aspAT2)
-    minAT3 = min(aspAT3)
-    for cbl,at1,at2,at3 in zip(cables, aspAT1, aspAT2, aspAT3):
-        asp_atten_db = (at1 - minAT1)*2     # AT1 is 2 dB per step
-        asp_atten_db += (at2 - minAT2)*2    # AT2 is 2 dB per step
-        asp_atten_db += (at3 - minAT3)*0.5  # AT3 is 0.5 dB per step
-        cbl.asp_atten_db = asp_atten_db
-        
     # Build up a list of Antenna instances and load them with antenna-level
     # data
     i = 1
@@ -1869,6 +1859,18 @@ def parse_ssmif(filename_or_fh):
         antennas[ant-1].cable = cbl
         i += 1
         
+    # Apply corrections for the default ASP attenuator settings, which are for
+    # stands, to the cables
+    minAT1 = min(aspAT1)
+    minAT2 = min(aspAT2)
+    minAT3 = min(aspAT3)
+    for ant in antennas:
+        std = ant.stand.id - 1
+        asp_atten_db = (aspAT1[std] - minAT1)*2     # AT1 is 2 dB per step
+        asp_atten_db += (aspAT2[std] - minAT2)*2    # AT2 is 2 dB per step
+        asp_atten_db += (aspAT3[std] - minAT3)*0.5  # AT3 is 0.5 dB per step
+        ant.cable.asp_atten_db = asp_atten_db
+        
     # Associate ARX boards/channels with Antennas
     for i in range(len(arxAnt)):
         for j in range(len(arxAnt[i])):
-- 
2.43.0


From 5ae4ea78aba68b2d0d486d72aaa972f66308de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 112/250] fix: unused digitizer inputs, FEEs, and cables in
 SSMIFs were assigned to the last antenna

---
 lsl/common/stations.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index a666e63..6a591c4 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1844,11 +1844,17 @@ def parse_ssmif(filename_or_fh):
     # Associate FEEs with Antennas and set the FEE port numbers
     i = 1
     for fee,ant in zip(fees, feeAnt1):
+        if ant < 1 or ant > len(antennas):
+            continue
+            
         antennas[ant-1].fee = fee
         antennas[ant-1].fee_port = 1
         i += 1
     i = 1
     for fee,ant in zip(fees, feeAnt2):
+        if ant < 1 or ant > len(antennas):
+            continue
+            
         antennas[ant-1].fee = fee
         antennas[ant-1].fee_port = 2
         i += 1
@@ -1856,6 +1862,9 @@ def parse_ssmif(filename_or_fh):
     # Associate Cables with Antennas
     i = 1
     for cbl,ant in zip(cables, rpdAnt):
+        if ant < 1 or ant > len(antennas):
+            continue
+            
         antennas[ant-1].cable = cbl
         i += 1
         
@@ -1875,7 +1884,7 @@ def parse_ssmif(filename_or_fh):
     for i in range(len(arxAnt)):
         for j in range(len(arxAnt[i])):
             ant = arxAnt[i][j]
-            if ant == 0 or ant > 512:
+            if ant < 1 or ant > len(antennas):
                 continue
                 
             boardID = arxID[i]
@@ -1887,9 +1896,10 @@ def parse_ssmif(filename_or_fh):
     j = 1
     for brd,inp in zip(snapAnt,snapInR):
         for ant,con in zip(brd,inp):
-            antennas[ant-1].board = i
-            antennas[ant-1].digitizer = j
-            antennas[ant-1].input = con
+            if ant >= 1 and ant <= len(antennas):
+                antennas[ant-1].board = i
+                antennas[ant-1].digitizer = j
+                antennas[ant-1].input = con
             j += 1
         i += 1
         
-- 
2.43.0


From f3575faedea4ada33b58c9fc079a8223d54322a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 113/250] fix: copies of stations and cables lost the
 attenuator settings, clock offsets, delays, and gains

---
 lsl/common/stations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 6a591c4..bde5afd 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -244,7 +244,8 @@ class LWAStation(ephem.Observer, LWAStationBase):
         return tw_fill(_build_repr(n, a), subsequent_indent='    ')
         
     def __reduce__(self):
-        return (LWAStation, (self.name, self.lat*180/np.pi, self.long*180/np.pi, self.elev, self.id, tuple(self.antennas), self.interface))
+        state = {attr: getattr(self, attr) for attr in ('beamformer_min_delay', 'beamformer_min_delay_samples', 'default_drx_gain') if hasattr(self, attr)}
+        return (LWAStation, (self.name, self.lat*180/np.pi, self.long*180/np.pi, self.elev, self.id, tuple(self.antennas), self.interface), state)
         
     def __hash__(self):
         return hash(self.__reduce__()[1])
@@ -764,7 +765,8 @@ class Cable(object):
         return tw_fill(_build_repr(n, a), subsequent_indent='    ')
         
     def __reduce__(self):
-        return (Cable, (self.id, self.length, self.vf, self.dd, self.a0, self.a1, self.ref_freq, self.stretch))
+        return (Cable, (self.id, self.length, self.vf, self.dd, self.a0, self.a1, self.ref_freq, self.stretch), 
+                {'clock_offset': self.clock_offset, 'asp_atten_db': self.asp_atten_db})
         
     def __hash__(self):
         return hash(self.__reduce__()[1])
-- 
2.43.0


From 1ba9228205360338aa8c1ce3d312e0cc45175de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 114/250] fix: the 20 MHz high pass and 73 MHz low pass filter
 combination of ARX Rev. I was the one with the 83 MHz low pass filter

---
 lsl/common/stations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index bde5afd..9b428f3 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -972,7 +972,7 @@ class ARX(object):
         filename = f"arx/ARX_board_{self.id:04d}_filters.npz"
         mapper = mapper = {0: 0, 1: 1, 2: 2, 4: 3}
         if self.revision() == 'I':
-            mapper = {0: 3, 1: 1, 2: 7, 3: 4, 4: 2, 5: 0, 6: 5, 7: 2}
+            mapper = {0: 3, 1: 1, 2: 7, 3: 4, 4: 2, 5: 0, 6: 5, 7: 6}
             
         # Read in the file and convert it to a numpy array
         with DataAccess.open(filename, 'rb') as fh:
-- 
2.43.0


From 2de5916503ed6f331d8d2e2dc69b2cd530a588c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:57 +0000
Subject: [PATCH 115/250] fix: stations could not have a range of antennas
 replaced

---
 lsl/common/stations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 9b428f3..24df69d 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -151,7 +151,7 @@ class LWAStationBase(object):
         coordinate transforms on the stands.
         """
         
-        if index is not None:
+        if index is not None and not isinstance(index, slice):
             self._antennas[index].stand._parent = weakref.proxy(self)
         else:
             for a in self._antennas:
-- 
2.43.0


From edb5872e86daeb78082c0f52e37ad8c672aa36f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:08 +0000
Subject: [PATCH 116/250] fix: SSMIFs with unidentified ARX boards could not be
 read

---
 lsl/common/stations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 24df69d..9f9da52 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -887,7 +887,11 @@ class ARX(object):
     
     def __init__(self, id, channel=0, asp_channel=0, input='', output=''):
         if not isinstance(id, int):
-            id = int(id, 10)
+            try:
+                id = int(id, 10)
+            except ValueError:
+                # Unidentified board
+                id = 0
         self.id = id
         self.channel = int(channel)
         self.asp_channel = int(asp_channel)
-- 
2.43.0


From bf332c5fc3841066905630ecb697712a51f438d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 117/250] fix: astro.add_hms did not add the hours

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 20fade9..5267638 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1892,7 +1892,7 @@ def add_hms(source, dest):
     degrees1 += degrees2
     _hms = deg_to_hms(degrees1)
     
-    dest.degrees = 1*_hms.hours
+    dest.hours = 1*_hms.hours
     dest.minutes = 1*_hms.minutes
     dest.seconds = 1*_hms.seconds
     
-- 
2.43.0


From 01d81c12adeb746fef798f7f0938a3ee48a0ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 118/250] fix: angles split into sexagesimal units could be off
 by a minute

---
 lsl/astro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 5267638..2fe80a4 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1769,8 +1769,8 @@ def _float_to_sexa(value):
         value *= -1
         
     d = int(value)
-    m = int(value * 60) % 60
-    s = (value * 3600.0) % 60.0
+    m, s = divmod((value - d) * 3600.0, 60.0)
+    m = int(m)
     
     return sgn, d, m, s
 
-- 
2.43.0


From 8e43bb9c89902faf210af954dc173e7e5a1d5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 119/250] fix: astro.deg_to_hms gave the wrong sign or failed
 for angles outside of [0, 360)

---
 lsl/astro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 2fe80a4..5fc8ade 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1845,8 +1845,8 @@ def deg_to_hms(degrees):
     Returns object of type hms representing angle.
     """
     
-    sgn,h,m,s = _float_to_sexa(degrees / 15.0)
-    return hms(h, m, s)
+    sgn,h,m,s = _float_to_sexa(degrees % 360.0 / 15.0)
+    return hms(h % 24, m, s)
 
 
 def rad_to_hms(radians):
-- 
2.43.0


From d46942a697ff05912cce4677d7bdabe2618feea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 120/250] fix: astro.range_hours returned 24 for negative
 multiples of 24

---
 lsl/astro.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 5fc8ade..8f978e1 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2900,12 +2900,7 @@ def range_hours(hours):
     if (hours >= 0.0) and (hours < 24.0):
         return hours
         
-    temp = int(hours / 24)
-    if hours < 0.0:
-        temp -= 1
-    temp *= 24
-    
-    return hours - temp
+    return hours % 24.0
 
 
 def jd_to_mjd(jd):
-- 
2.43.0


From ebe019789db49a63aa7cbfe1b30df616a9af7222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 121/250] fix: astro.leap_secs was fractional on days that end
 in a leap second

---
 lsl/astro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 8f978e1..26b0614 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2950,7 +2950,9 @@ def leap_secs(utcJD):
     if utcJD < FIRST_LEAP_UTC:
         raise ValueError(f"utcJD must be greater than {FIRST_LEAP_UTC}")
         
-    t = AstroTime(utcJD, format='jd', scale='utc')
+    # Use the start of the day since the UTC JD is stretched over days that end
+    # in a leap second
+    t = AstroTime(math.floor(utcJD - 0.5) + 0.5, format='jd', scale='utc')
     diff_unix = t.unix
     diff_jd = (t - _UNIX_EPOCH_AT).sec
     return round(diff_jd - diff_unix, 1) + 8   # +8 for initial 10 s offset between TAI and UTC
-- 
2.43.0


From 33f40ce2e7fd28f6065ac6ef47b1d878b58132a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 122/250] fix: astro.get_day_of_week was wrong at midnight

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 26b0614..ad7f03b 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1996,7 +1996,7 @@ def get_day_of_week(date):
     """
     
     jd = date.to_jd()
-    return (int(round(jd)) + 1) % 7
+    return int(math.floor(jd + 1.5)) % 7
 
 
 def get_julian_from_sys():
-- 
2.43.0


From 56da55febc557c02991a62d9c8558992c81db68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 123/250] fix: astro.tt_to_tdb treated its argument as a TAI

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index ad7f03b..012ba6e 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -3126,7 +3126,7 @@ def tt_to_tdb(ttJD):
     Returns: The TDB JD value (float).
     """    
     
-    t = AstroTime(ttJD, format='jd', scale='tai')
+    t = AstroTime(ttJD, format='jd', scale='tt')
     return t.tdb.jd  
 
 
-- 
2.43.0


From 57f302034cee1584a18723bc7007b5f8987574f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 124/250] fix: time zone conversions were a second off when the
 seconds round up to a full one

---
 lsl/astro.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 012ba6e..e1ff357 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1669,7 +1669,7 @@ def date_to_zonedate(date, gmtoff):
     Returns object of type zonedate representing local time.
     """
     
-    t0 = time.strptime(str(date), "%Y-%m-%d %H:%M:%S.%f")
+    t0 = (date.years, date.months, date.days, date.hours, date.minutes, int(date.seconds))
     fracSec = date.seconds - int(date.seconds)
     t1 = timegm(t0) + gmtoff
     years, months, days, hours, minutes, seconds, wday, yday, dst = time.gmtime(t1)
@@ -1694,8 +1694,7 @@ def zonedate_to_date(zonedate):
     Returns object of type date representing UTC time.
     """
     
-    t0, junk = str(zonedate).rsplit(None, 1)
-    t0 = time.strptime(t0, "%Y-%m-%d %H:%M:%S.%f")
+    t0 = (zonedate.years, zonedate.months, zonedate.days, zonedate.hours, zonedate.minutes, int(zonedate.seconds))
     fracSec = zonedate.seconds - int(zonedate.seconds)
     t1 = timegm(t0) - zonedate.gmtoff
     years, months, days, hours, minutes, seconds, wday, yday, dst = time.gmtime(t1)
-- 
2.43.0


From b5e9608ddaacf21056275ccc7f00ad265137194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 125/250] fix: astro.date.load failed with a NameError for
 seconds that are out of range

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index e1ff357..541a3cf 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -481,7 +481,7 @@ class date(object):
         except ValueError:
             raise ValueError(f"seconds incorrectly formatted: {secondStr}")
         if second < 0.0 or second >= 60.0:
-            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {seconds:0.3f}")
+            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {second:0.3f}")
             
         # set attributes
         self.years = year
-- 
2.43.0


From 5461cf7d17f5758f8117b30acfd98eb46b90b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 126/250] fix: ecliptic positions could not be made from
 rectangular coordinates

---
 lsl/astro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 541a3cf..b859d65 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2120,8 +2120,8 @@ def get_ecl_from_rect(rect):
     y = rect.Y
     z = rect.Z
     
-    sc = GeocentricTrueEcliptic(CartesianRepresentation(x*astrounits.au, y*astrounits.au, z*astrounits.au),
-                                equinox='J2000')
+    sc = SkyCoord(GeocentricTrueEcliptic(CartesianRepresentation(x*astrounits.au, y*astrounits.au, z*astrounits.au),
+                                         equinox='J2000'))
 
     return ecl_posn.from_astropy(sc)
 
-- 
2.43.0


From a1143dd7cf122d23ed7e225cfdb99ec1b25b87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 127/250] fix: angular separations and position angles failed
 for positions that are not from astropy

---
 lsl/astro.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index b859d65..5313670 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2269,11 +2269,11 @@ def get_angular_separation(posn1, posn2):
     sc1 = posn1.astropy
     if sc1 is None:
         sc1 = SkyCoord(posn1.ra*astrounits.deg, posn1.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
     sc2 = posn2.astropy
     if sc2 is None:
         sc2 = SkyCoord(posn2.ra*astrounits.deg, posn2.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
         
     sep = sc1.separation(sc2)
     
@@ -2293,11 +2293,11 @@ def get_rel_posn_angle(posn1, posn2):
     sc1 = posn1.astropy
     if sc1 is None:
         sc1 = SkyCoord(posn1.ra*astrounits.deg, posn1.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
     sc2 = posn2.astropy
     if sc2 is None:
         sc2 = SkyCoord(posn2.ra*astrounits.deg, posn2.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
         
     pa = sc1.position_angle(sc2)
     
-- 
2.43.0


From d124f5a8a05b5aba47d79bcbca8a8d2e31cde9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 128/250] fix: galactic longitudes could not be given as dms
 objects

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 5313670..f3189f3 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1212,7 +1212,7 @@ class gal_posn(object):
         if self.astropy is not None:
             raise RuntimeError("Cannot set l when this.astropy is not None")
             
-        if isinstance(value, hms):
+        if isinstance(value, (hms, dms)):
             value = value.to_deg()
         if value < -360.0 or value >= 360.0:
             raise ValueError(f"l parameter range is [-360.0, 360.0), is set to {value:0.3f}")
-- 
2.43.0


From 1ed3d6b0d6b0526074db9a9c7a977c8791bffeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 129/250] fix: positions lost their astropy frame, proper
 motion and distance when they were pickled or copied

---
 lsl/astro.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index f3189f3..2cff769 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -806,7 +806,7 @@ class hrz_posn(object):
         hrz_posn object pickle reduce method.
         """
         
-        return (hrz_posn, (self.az, self.alt))
+        return (hrz_posn, (self.az, self.alt), self.__dict__)
         
     def __getitem__(self, key):
         """
@@ -1139,7 +1139,7 @@ class equ_posn(object):
         equ_posn object pickle reduce method.
         """
             
-        return (equ_posn, (self.ra,self.dec))
+        return (equ_posn, (self.ra,self.dec), self.__dict__)
 
 
 class gal_posn(object):
@@ -1284,7 +1284,7 @@ class gal_posn(object):
         gal_posn object pickle reduce method.
         """
         
-        return (gal_posn, (self.l, self.b))
+        return (gal_posn, (self.l, self.b), self.__dict__)
         
     def __getitem__(self, key):
         """
@@ -1590,7 +1590,7 @@ class ecl_posn(object):
         ecl_posn object pickle reduce method.
         """
         
-        return (ecl_posn, (self.lng, self.lat))
+        return (ecl_posn, (self.lng, self.lat), self.__dict__)
         
     def __getitem__(self, key):
         """
@@ -3297,7 +3297,7 @@ class geo_posn(object):
         geo_posn object pickle reduce method.
         """
         
-        return (geo_posn, (self.lng, self.lat, self.elv))
+        return (geo_posn, (self.lng, self.lat, self.elv), self.__dict__)
         
     def __getitem__(self, key):
         """
-- 
2.43.0


From ec90d191939d27193a13585a787ec24395aa94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 130/250] fix: apparent positions did not include the proper
 motion

---
 lsl/astro.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 2cff769..6dcf295 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2337,9 +2337,18 @@ def get_apparent_posn(mean_position, jD, proper_motion = None):
     sc = mean_position.astropy
     if sc is None:
         sc = SkyCoord(mean_position.ra*astrounits.deg, mean_position.dec*astrounits.deg,
-                      pm_ra_cosdec=proper_motion[0]*math.cos(proper_motion[1]/1000/3600*math.pi/180)*astrounits.mas/astrounits.yr,
-                      pm_dec= proper_motion[1]*astrounits.mas/astrounits.yr,
                       frame='fk5', equinox='J2000')
+    if proper_motion[0] or proper_motion[1]:
+        sc = SkyCoord(sc).transform_to(FK5(equinox='J2000'))
+        dist = mean_position.distance
+        if dist is not None:
+            dist = dist*astrounits.pc
+        sc = SkyCoord(sc.ra, sc.dec, distance=dist,
+                      pm_ra_cosdec=proper_motion[0]*math.cos(sc.dec.rad)*astrounits.mas/astrounits.yr,
+                      pm_dec=proper_motion[1]*astrounits.mas/astrounits.yr,
+                      frame='fk5', equinox='J2000', obstime='J2000')
+        sc = sc.apply_space_motion(new_obstime=t)
+        sc = SkyCoord(sc.ra, sc.dec, distance=dist, frame='fk5', equinox='J2000')
     sc = sc.transform_to(PrecessedGeocentric(equinox=t, obstime=t))
     
     return equ_posn.from_astropy(sc)
-- 
2.43.0


From 4459d8649f07c07b00735ea929423793691ff0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:43 +0000
Subject: [PATCH 131/250] fix: the distance of a resolved source was its
 parallax

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 6dcf295..acca8dd 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -3576,7 +3576,7 @@ def resolve_name(name):
                 pmRA = None
                 pmDec = None
             if plx is not None:
-                dist = float(plx.find('v').text)
+                dist = 1000.0 / float(plx.find('v').text)
             else:
                 dist = None
                 
-- 
2.43.0


From e6f64b2fe09a05081906cf6233f619682d9bf5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:39 +0000
Subject: [PATCH 132/250] fix: rise, set and transit times were missing or
 failed for many observer latitudes and were off by up to a minute

---
 lsl/astro.py | 192 ++++++++++++++-------------------------------------
 1 file changed, 52 insertions(+), 140 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index acca8dd..aa6d921 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -14,7 +14,6 @@ from datetime import datetime
 from xml.etree import ElementTree
 from functools import total_ordering
 
-from scipy.interpolate import interp1d
 
 from astropy import units as astrounits
 from astropy.time import Time as AstroTime
@@ -2407,6 +2406,47 @@ def get_equ_prec2(mean_position, fromJD, toJD):
 # Rise, Set, Transit functions
 ######################################################################
 
+def _find_rst(jD, altitude):
+    """
+    Find the next rise, set, and transit times given a function that returns the
+    altitude in degrees for an array of UTC Julian days.
+    
+    Returns: Object of type rst_time or None if the object never rises or never
+            sets.
+    """
+    
+    # Part 1 - Course search starting at jD that is long enough to also find the
+    #          next events for the Moon.
+    # Note:  We are trying to emulate ephem.Observer.next_() so we want the next
+    #        rising/setting/transit.
+    t = jD + np.arange(-10, 1590, 10)/1440
+    alt = altitude(t)
+    
+    # Part 2 - Rise and set times via interpolation to find the zero crossing
+    found = []
+    for sign in (1, -1):
+        for i in np.where((sign*alt[:-1] < 0) & (sign*alt[1:] >= 0))[0]:
+            tf = np.linspace(t[i], t[i+1], 21)
+            tf = float(np.interp(0.0, sign*altitude(tf), tf))
+            if tf >= jD:
+                found.append(tf)
+                break
+        else:
+            return None
+            
+    # Part 3 - Transit time via fitting a cubic to the altitude as a function
+    #          of time.
+    transit = None
+    for i in np.where((alt[1:-1] >= alt[:-2]) & (alt[1:-1] > alt[2:]))[0]+1:
+        tf = np.linspace(t[i-1], t[i+1], 41)
+        p = np.polyfit(tf-t[i], altitude(tf), 3)
+        transit = t[i] - p[2] / (p[1] - np.sqrt(p[1]**2 - 3*p[0]*p[2]))
+        if transit >= jD:
+            break
+            
+    return rst_time(found[0], found[1], transit)
+
+
 def get_object_rst(jD, observer, target):
     """
     Get rise, set, and transit times of a celstial object.
@@ -2424,7 +2464,6 @@ def get_object_rst(jD, observer, target):
     except AttributeError:
         elv = 0.0
         
-    _rst = rst_time()
     el = EarthLocation.from_geodetic(observer.lng*astrounits.deg, observer.lat*astrounits.deg,
                                      height=elv*astrounits.m,
                                      ellipsoid='WGS84')
@@ -2433,69 +2472,11 @@ def get_object_rst(jD, observer, target):
         sc = SkyCoord(target.ra*astrounits.deg, target.dec*astrounits.deg,
                       frame='fk5', equinox='J2000')
         
-    # Part 1 - Course +/1 day search for the anti-transits
-    t = AstroTime(jD+np.linspace(-1, 1, 192), format='jd', scale='utc')
-    aa = AltAz(location=el, obstime=t)
-    aa = sc.transform_to(aa)
-    antitransits = np.where(np.diff(aa.az[...].deg) < -180)[0]
-    if len(antitransits) == 0:
-        # No anti-transits = it never rises or never sets
-        return None
-        
-    # Part 2 - Determine the approximate rise, set, and transit times
-    #          based on when the source is up.
-    above = np.where(aa.alt[antitransits[0]:antitransits[1]] >= 0)[0]
-    rise = above[0] + antitransits[0]
-    set = above[-1] + antitransits[0]
-    transit = (rise + set) // 2
-    
-    # Part 3 - Refine the rough values found in the course search.
-    # Note:  We are trying to emulate ephem.Observer.next_() so we want the next
-    #        rising/setting/transit.
-    offset = 0
-    if aa.obstime[rise].jd < jD:
-        offset = 1
-    tr = AstroTime(aa.obstime[rise].jd+np.linspace(offset-20/1440, offset+20/1440, 41), format='jd', scale='utc')
-    offset = 0
-    if aa.obstime[set].jd < jD:
-        offset = 1
-    ts = AstroTime(aa.obstime[set].jd+np.linspace(offset-20/1440, offset+20/1440, 41), format='jd', scale='utc')
-    offset = 0
-    if aa.obstime[transit].jd < jD:
-        offset = 1
-    tt = AstroTime(aa.obstime[transit].jd+np.linspace(offset-20/1440, offset+20/1440, 41), format='jd', scale='utc')
-    
-    # Part 3a - Rise time via interpolation to find the zero crossing
-    aa = AltAz(location=el, obstime=tr)
-    aa = sc.transform_to(aa)
-    rtf = interp1d(aa.alt, aa.obstime.jd)
-    try:
-        tr = rtf(0.0)
-    except ValueError:
-        return None
-        
-    # Part 3b - Set time via interpolation to find the zero crossing
-    aa = AltAz(location=el, obstime=ts)
-    aa = sc.transform_to(aa)
-    stf = interp1d(aa.alt, aa.obstime.jd)
-    try:
-        ts = stf(0.0)
-    except ValueError:
-        return None
+    def altitude(times):
+        t = AstroTime(times, format='jd', scale='utc')
+        return sc.transform_to(AltAz(location=el, obstime=t)).alt.deg
         
-    # Part 3c - Transit time via fitting a cubic to the altitude as a function
-    #           of time.
-    aa = AltAz(location=el, obstime=tt)
-    aa = sc.transform_to(aa)
-    ttf = np.polyfit(aa.obstime.jd-aa.obstime.jd[np.argmax(aa.alt)], aa.alt, 3)
-    tt = -ttf[1] - np.sqrt(ttf[1]**2 - 4*ttf[0]*ttf[2])
-    tt /= 2*ttf[0]
-    tt += aa.obstime.jd[np.argmax(aa.alt)]
-    
-    _rst.rise = tr
-    _rst.transit = tt
-    _rst.set = ts
-    return _rst
+    return _find_rst(jD, altitude)
 
 
 SOLAR_SYSTEM_EPHEMERIS_TO_USE = 'de432s'
@@ -2517,86 +2498,17 @@ def _get_solar_system_rst(jD, observer, body):
     except AttributeError:
         elv = 0.0
         
-    _rst = rst_time()
     el = EarthLocation.from_geodetic(observer.lng*astrounits.deg, observer.lat*astrounits.deg,
                                      height=elv*astrounits.m,
                                      ellipsoid='WGS84')
         
-    # Part 1 - Course +/1 day search for the anti-transits
-    t = AstroTime(jD+np.linspace(-1, 1, 192), format='jd', scale='utc')
-    with solar_system_ephemeris.set(SOLAR_SYSTEM_EPHEMERIS_TO_USE):
-        sc = get_body(body, t, location=el)
-        aa = AltAz(location=el, obstime=t)
-        aa = sc.transform_to(aa)
-    antitransits = np.where(np.diff(aa.az[...].deg) < -180)[0]
-    if len(antitransits) == 0:
-        # No anti-transits = it never rises or never sets
-        return None
-        
-    # Part 2 - Determine the approximate rise, set, and transit times
-    #          based on when the source is up.
-    try:
-        above = np.where(aa.alt[antitransits[0]:antitransits[1]] >= 0)[0]
-    except IndexError:
-        above = np.where(aa.alt[antitransits[0]:] >= 0)[0]
-    rise = above[0] + antitransits[0]
-    set = above[-1] + antitransits[0]
-    transit = (rise + set) // 2
-    
-    # Part 3 - Refine the rough values found in the course search.
-    # Note:  We are trying to emulate ephem.Observer.next_() so we want the next
-    #        rising/setting/transit.
-    scale = 20 if body != 'moon' else 60
-    offset = 0
-    if aa.obstime[rise].jd < jD:
-        offset = 1
-    tr = AstroTime(aa.obstime[rise].jd+np.linspace(offset-scale/1440, offset+scale/1440, 2*scale+1), format='jd', scale='utc')
-    offset = 0
-    if aa.obstime[set].jd < jD:
-        offset = 1
-    ts = AstroTime(aa.obstime[set].jd+np.linspace(offset-scale/1440, offset+scale/1440, 2*scale+1), format='jd', scale='utc')
-    offset = 0
-    if aa.obstime[transit].jd < jD:
-        offset = 1
-    tt = AstroTime(aa.obstime[transit].jd+np.linspace(offset-scale/1440, offset+scale/1440, 2*scale+1), format='jd', scale='utc')
-    
-    # Part 3a - Rise time via interpolation to find the zero crossing
-    with solar_system_ephemeris.set(SOLAR_SYSTEM_EPHEMERIS_TO_USE):
-        sc = get_body(body, tr, location=el)
-        aa = AltAz(location=el, obstime=tr)
-        aa = sc.transform_to(aa)
-    rtf = interp1d(aa.alt, aa.obstime.jd)
-    try:
-        tr = rtf(0.0)
-    except ValueError:
-        return None
-        
-    # Part 3b - Set time via interpolation to find the zero crossing
-    with solar_system_ephemeris.set(SOLAR_SYSTEM_EPHEMERIS_TO_USE):
-        sc = get_body(body, ts, location=el)
-        aa = AltAz(location=el, obstime=ts)
-        aa = sc.transform_to(aa)
-    stf = interp1d(aa.alt, aa.obstime.jd)
-    try:
-        ts = stf(0.0)
-    except ValueError:
-        return None
-        
-    # Part 3c - Transit time via fitting a cubic to the altitude as a function
-    #           of time.
-    with solar_system_ephemeris.set(SOLAR_SYSTEM_EPHEMERIS_TO_USE):
-        sc = get_body(body, tt, location=el)
-        aa = AltAz(location=el, obstime=tt)
-        aa = sc.transform_to(aa)
-    ttf = np.polyfit(aa.obstime.jd-aa.obstime.jd[np.argmax(aa.alt)], aa.alt, 3)
-    tt = -ttf[1] - np.sqrt(ttf[1]**2 - 4*ttf[0]*ttf[2])
-    tt /= 2*ttf[0]
-    tt += aa.obstime.jd[np.argmax(aa.alt)]
-    
-    _rst.rise = tr
-    _rst.transit = tt
-    _rst.set = ts
-    return _rst
+    def altitude(times):
+        t = AstroTime(times, format='jd', scale='utc')
+        with solar_system_ephemeris.set(SOLAR_SYSTEM_EPHEMERIS_TO_USE):
+            sc = get_body(body, t, location=el)
+            return sc.transform_to(AltAz(location=el, obstime=t)).alt.deg
+            
+    return _find_rst(jD, altitude)
 
 
 ######################################################################
-- 
2.43.0


From de36120b26e042c20ecc84e851a385756003d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:05 +0000
Subject: [PATCH 133/250] fix: equatorial positions computed from horizontal or
 ecliptic ones could not be converted further

---
 lsl/astro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index aa6d921..f9de758 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -919,7 +919,9 @@ class equ_posn(object):
         if not isinstance(value, (SkyCoord, ICRS, FK4, FK5)):
             raise TypeError("Expected an object of type SkyCoord, ICRS, FK4, or FK5")
             
-        if isinstance(value, SkyCoord):
+        if not isinstance(value, SkyCoord):
+            value = SkyCoord(value)
+        else:
             if not isinstance(value.frame, (ICRS, FK4, FK5, PrecessedGeocentric)):
                 raise TypeError("Expected a SkyCoord in the frame of ICRS, FK4, FK5, or PrecessedGeocentric")
                 
-- 
2.43.0


From 52830aa418d57deea1e23d11e4ac3ab55d6192a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:35 +0000
Subject: [PATCH 134/250] fix: transform.Time misplaced DP samples that are not
 at a full second

---
 lsl/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/transform.py b/lsl/transform.py
index 4e390c2..6de132e 100644
--- a/lsl/transform.py
+++ b/lsl/transform.py
@@ -223,14 +223,14 @@ class Time(object):
         
     @property
     def utc_dp(self):
-        return int(self._time.utc.unix * fS)
+        return int(round(self._time.utc.to_value('unix', subfmt='decimal') * int(fS)))
         
     @utc_dp.setter
     def utc_dp(self, value):
         if not isinstance(value, int):
             raise TypeError("value must be type int")
             
-        self._time = AstroTime(value // fS, value % fS, format='unix', scale='utc')
+        self._time = AstroTime(value // int(fS), (value % int(fS)) / fS, format='unix', scale='utc')
         
     @property
     def utc_mcs(self):
-- 
2.43.0


From 09cf738130c44de7cdef333136d6dbe16626e0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:35 +0000
Subject: [PATCH 135/250] fix: transform.Time could give a MPM past the end of
 the day

---
 lsl/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/transform.py b/lsl/transform.py
index 6de132e..097d209 100644
--- a/lsl/transform.py
+++ b/lsl/transform.py
@@ -236,6 +236,8 @@ class Time(object):
     def utc_mcs(self):
         mjd = int(self.utc_mjd)
         mpm = int(round((self.utc_mjd - mjd) * 86400 * 1000))
+        if mpm >= 86400 * 1000:
+            mjd, mpm = mjd + 1, mpm - 86400 * 1000
         return (mjd, mpm)
         
     @utc_mcs.setter
-- 
2.43.0


From 5153395c21a37df36f62d8c51275b6487b7f48dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:35 +0000
Subject: [PATCH 136/250] fix: PointingDirection.rst ignored that solar system
 bodies move

---
 lsl/transform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lsl/transform.py b/lsl/transform.py
index 097d209..23ffb4c 100644
--- a/lsl/transform.py
+++ b/lsl/transform.py
@@ -629,16 +629,22 @@ class PlanetaryPosition(SkyPosition):
         # cache the appropriate ephemeris function
         if name == self.NAME_SUN:
             self._posn_func = astro.get_solar_equ_coords
+            self._rst_func = astro.get_solar_rst
         elif name == self.NAME_MOON:
             self._posn_func = astro.get_lunar_equ_coords
+            self._rst_func = astro.get_lunar_rst
         elif name == self.NAME_VENUS:
             self._posn_func = astro.get_venus_equ_coords
+            self._rst_func = astro.get_venus_rst
         elif name == self.NAME_MARS:
             self._posn_func = astro.get_mars_equ_coords
+            self._rst_func = astro.get_mars_rst
         elif name == self.NAME_JUPITER:
             self._posn_func = astro.get_jupiter_equ_coords
+            self._rst_func = astro.get_jupiter_rst
         elif name == self.NAME_SATURN:
             self._posn_func = astro.get_saturn_equ_coords
+            self._rst_func = astro.get_saturn_rst
             
     def __repr__(self):
         return "%s.%s(%s)" % (type(self).__module__, type(self).__name__, repr(self.name))
@@ -851,4 +857,6 @@ class PointingDirection(object):
         if not isinstance(time_, Time):
             raise TypeError("time_ must be type transform.Time")
             
+        if isinstance(self.source, PlanetaryPosition):
+            return self.source._rst_func(time_.utc_jd, self.site.geo)
         return astro.get_object_rst(time_.utc_jd, self.site.geo, self.source.apparent_equ(time_))
-- 
2.43.0


From 9a72c1b01d5fa9052bfa3c60517b0eab6d45459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:59 +0000
Subject: [PATCH 137/250] fix: empty lists of hours or degrees on the command
 line ended in an IndexError

---
 lsl/misc/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/parser.py b/lsl/misc/parser.py
index 9cabf38..ec61d15 100644
--- a/lsl/misc/parser.py
+++ b/lsl/misc/parser.py
@@ -410,7 +410,7 @@ def csv_hours_list(string):
     """
     
     string = string.rstrip()
-    if string[-1] == ',':
+    if string[-1:] == ',':
         string = string[:-1]
         
     value = []
@@ -439,7 +439,7 @@ def csv_degrees_list(string):
     """
     
     string = string.rstrip()
-    if string[-1] == ',':
+    if string[-1:] == ',':
         string = string[:-1]
         
     value = []
-- 
2.43.0


From 941c91680a4e93a91a1d74f5209381b788b36892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:59 +0000
Subject: [PATCH 138/250] fix: dates that are not a valid MJD on the command
 line ended in an OverflowError

---
 lsl/misc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/parser.py b/lsl/misc/parser.py
index ec61d15..c5a0b64 100644
--- a/lsl/misc/parser.py
+++ b/lsl/misc/parser.py
@@ -306,7 +306,7 @@ def date(string):
     try:
         mjd = int(string, 10)
         dt = mjdmpm_to_datetime(mjd, 0)
-    except ValueError:
+    except (ValueError, OverflowError, OSError):
         cstring = string.replace('-', '/')
         try:
             dt = datetime.strptime("%s 00:00:00" % cstring, "%Y/%m/%d %H:%M:%S")
-- 
2.43.0


From b434578f25dfed3e862218e4269555aa91b70a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:59 +0000
Subject: [PATCH 139/250] fix: NaN was taken as a positive number

---
 lsl/misc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/parser.py b/lsl/misc/parser.py
index c5a0b64..30c0f1d 100644
--- a/lsl/misc/parser.py
+++ b/lsl/misc/parser.py
@@ -64,7 +64,7 @@ def positive_or_zero_float(string):
     except ValueError:
         msg = f"{string} is a non-float value"
         raise ArgumentTypeError(msg)
-    if value < 0.0:
+    if not value >= 0.0:
         msg = f"{string} < 0.0"
         raise ArgumentTypeError(msg)
     return value
-- 
2.43.0


From f2e9f7806fb463103953b3a92d34001b0faf10cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:21 +0000
Subject: [PATCH 140/250] fix: sphval() gave wrong values for real-only
 coefficients with a complex or odd-mode part

---
 lsl/misc/mathutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/mathutils.py b/lsl/misc/mathutils.py
index 6cbb940..6d9ef95 100644
--- a/lsl/misc/mathutils.py
+++ b/lsl/misc/mathutils.py
@@ -465,8 +465,8 @@ def sphval(terms, az, alt, degrees=False, real_only=False):
             t += 1
             for m in range(1, l+1):
                 Ylm = sph_harm_y(l, m, rAz, rAlt)
-                out += np.real(terms[t]*Ylm)
-                out += np.real(terms[t]*Ylm.conj()/(-1)**m)
+                # A real function has a_{l,-m} Y_{l,-m} = (a_{l,m} Y_{l,m})^*
+                out += 2*np.real(terms[t]*Ylm)
                 t += 1
                 
     else:
-- 
2.43.0


From 889ac4d52494e01893e0c00f36dba99ae2d9a7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:21 +0000
Subject: [PATCH 141/250] fix: sphfit() of complex data left out the grid
 spacing so sphval() did not give the data back

---
 lsl/misc/mathutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/mathutils.py b/lsl/misc/mathutils.py
index 6d9ef95..cfdb3c9 100644
--- a/lsl/misc/mathutils.py
+++ b/lsl/misc/mathutils.py
@@ -410,7 +410,7 @@ def sphfit(az, alt, data, lmax=5, degrees=False, real_only=False):
         for l in range(lmax+1):
             for m in range(-l, l+1):
                 Ylm = sph_harm_y(l, m, rAz, rAlt)
-                terms[t] = (data*sinAlt*Ylm.conj()).sum()
+                terms[t] = (data*sinAlt*Ylm.conj()).sum() * (rAz[1,0]-rAz[0,0])*(rAlt[0,1]-rAlt[0,0])
                 t += 1
                 
     return terms
-- 
2.43.0


From 5b4f731faf79877c5c78d422f391adfa9ddba5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:57 +0000
Subject: [PATCH 142/250] fix: robust.mode() never looked at the upper half of
 data sets with an even size, swapped the halves of three points and failed
 for equal values

---
 lsl/statistics/robust.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 61677c3..e46bd9c 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -173,14 +173,15 @@ def mode(inputData, axis=None, dtype=None):
                 i2 = data[2] - data[1]
                 if i1 < i2:
                     return data[:2].mean()
-                elif i2 > i1:
+                elif i1 > i2:
                     return data[1:].mean()
                 else:
                     return data[1]
             else:
                 wMin = data[-1] - data[0]
                 N = data.size // 2 + data.size % 2 
-                for i in range(0, N):
+                j = 0
+                for i in range(0, data.size-N+1):
                     w = data[i+N-1] - data[i] 
                     if w < wMin:
                         wMin = w
-- 
2.43.0


From 6b0ce655f0fca5c61a730e57dd009e2a2adfb0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:57 +0000
Subject: [PATCH 143/250] fix: robust.polyfit() of order zero returned the fit
 without the mean of the data

---
 lsl/statistics/robust.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index e46bd9c..d0029ab 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -488,7 +488,9 @@ def linefit(inputX, inputY, max_iter=25, bisector=False, bisquare_limit=6.0, clo
 def __polyfit_rescale(coeffs, x0, y0):
     order = len(coeffs)-1
     
-    if order == 1:
+    if order == 0:
+        coeffs[0] = coeffs[0] + y0
+    elif order == 1:
         coeffs[0] = coeffs[0]-coeffs[1]*x0 + y0
     elif order == 2:
         coeffs[0] = coeffs[0]-coeffs[1]*x0+coeffs[2]*x0**2 + y0
-- 
2.43.0


From 7cb773d9138fc8c43b3a6596878cfcadf2f8348c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:57 +0000
Subject: [PATCH 144/250] fix: a poor first fit in robust.polyfit() of 10000 or
 more points raised NameError

---
 lsl/statistics/robust.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index d0029ab..4a33b14 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -549,7 +549,7 @@ def polyfit(inputX, inputY, order, max_iter=25):
         cc = npp_polyfit(u, v, order)
         yFit = npp_polyval(u, cc)
     else:
-        lsqfit = 0
+        lsqFit = 0
         q = np.argsort(u)
         u = u[q]
         v = v[q]
-- 
2.43.0


From 770cbe171a47524e913668fe045c17895f430679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:57 +0000
Subject: [PATCH 145/250] fix: robust.biweight_mean() of one value raised
 ZeroDivisionError

---
 lsl/statistics/robust.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/statistics/robust.py b/lsl/statistics/robust.py
index 4a33b14..3fd9184 100644
--- a/lsl/statistics/robust.py
+++ b/lsl/statistics/robust.py
@@ -60,6 +60,8 @@ def biweight_mean(inputData, axis=None, dtype=None):
             y = y.astype(dtype)
             
         n = len(y)
+        if n == 1:
+            return y[0]
         closeEnough = 0.03*np.sqrt(0.5/(n-1))
         
         diff = 1.0e30
-- 
2.43.0


From 27c1689de31b40aab64d8d69929071f8084f2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:57 +0000
Subject: [PATCH 146/250] fix: the number of spectra for the spectral kurtosis
 was always the length of the first axis

---
 lsl/statistics/kurtosis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/statistics/kurtosis.py b/lsl/statistics/kurtosis.py
index f1f76c4..a34a5c8 100644
--- a/lsl/statistics/kurtosis.py
+++ b/lsl/statistics/kurtosis.py
@@ -160,7 +160,7 @@ def spectral_power(x, N=1, axis=None):
     should be ~1.
     """
     
-    M = len(x)
+    M = x.size if axis is None else x.shape[axis]
     
     k = M*(x**2).sum(axis=axis)/(x.sum(axis=axis))**2 - 1.0
     k *= (M*N+1)/(M-1)
-- 
2.43.0


From 1de51375ec7e9e84f1f2ba2bf8f9b5897e089ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:57 +0000
Subject: [PATCH 147/250] fix: kurtosis.get_limits() left numpy raising
 floating point errors after a failure

---
 lsl/statistics/kurtosis.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/lsl/statistics/kurtosis.py b/lsl/statistics/kurtosis.py
index a34a5c8..7bd6f40 100644
--- a/lsl/statistics/kurtosis.py
+++ b/lsl/statistics/kurtosis.py
@@ -109,10 +109,6 @@ def get_limits(sigma, M, N=1):
         This corresponds to Section 3.1 in Nita & Gary (2010, MNRAS 406, L60)
     """
     
-    # Adjust the NumPy error levels so that we know when ppf() may be suspect
-    errLevels = np.geterr()
-    np.seterr(all='raise')
-    
     # Convert the sigma to a fraction for the high and low clip levels
     percentClip = ( 1.0 - erf(sigma/np.sqrt(2)) ) / 2.0
     
@@ -123,21 +119,21 @@ def get_limits(sigma, M, N=1):
     
     rv = betaprime(a, b, loc=d)
     
-    # Try to get a realistic lower limit, giving up if we hit an overflow error
+    # Try to get a realistic lower limit, giving up if we hit an overflow error.
+    # The NumPy error levels are adjusted so that we know when ppf() may be suspect.
     try:
-        lower = rv.ppf(percentClip)
+        with np.errstate(all='raise'):
+            lower = rv.ppf(percentClip)
     except FloatingPointError:
         lower = mean(M, N) - sigma*std(M, N)
         
     # Try to get a realistic upper limit, giving up if we hit an overflow error
     try:
-        upper = rv.ppf(1.0-percentClip)
+        with np.errstate(all='raise'):
+            upper = rv.ppf(1.0-percentClip)
     except FloatingPointError:
         upper = mean(M, N) + sigma*std(M, N)
         
-    # Restore the NumPy error levels
-    np.seterr(**errLevels)
-    
     return lower, upper
 
 
-- 
2.43.0


From bc654264865a010e443064c705ea2839e0e954de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:57 +0000
Subject: [PATCH 148/250] fix: smooth() returned one value less for a window as
 long as the data and reflected the data around the wrong points

---
 lsl/misc/mathutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/mathutils.py b/lsl/misc/mathutils.py
index cfdb3c9..03ed47b 100644
--- a/lsl/misc/mathutils.py
+++ b/lsl/misc/mathutils.py
@@ -144,7 +144,7 @@ def smooth(x, window_len=10, window='hanning'):
     if not window in ['flat', 'hanning', 'hamming', 'bartlett', 'blackman']:
         raise ValueError("Window is on of 'flat', 'hanning', 'hamming', 'bartlett', 'blackman'")
         
-    s = np.r_[2*x[0]-x[window_len:1:-1],x,2*x[-1]-x[-1:-window_len:-1]]
+    s = np.r_[2*x[0]-x[window_len-1:0:-1],x,2*x[-1]-x[-2:-window_len-1:-1]]
     #print(len(s))
     if window == 'flat': #moving average
         w = np.ones(window_len, dtype=s.dtype)
-- 
2.43.0


From 67f2525ca9f3b7fe56007601732706519ffcbdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:57 +0000
Subject: [PATCH 149/250] fix: cpolar() failed for lists and tuples

---
 lsl/misc/mathutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/misc/mathutils.py b/lsl/misc/mathutils.py
index 03ed47b..c297d5a 100644
--- a/lsl/misc/mathutils.py
+++ b/lsl/misc/mathutils.py
@@ -179,6 +179,7 @@ def cpolar(cmplx):
     """
     
     if isinstance(cmplx, (np.ndarray, list, tuple)):
+        cmplx = np.asarray(cmplx)
         return np.array(list(zip(cmagnitude(cmplx), cphase(cmplx))))
     else:
         return (cmagnitude(cmplx), cphase(cmplx))
-- 
2.43.0


From 1c44538ccd7259845c219638e84336998ed37d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:58 +0000
Subject: [PATCH 150/250] fix: crect() failed for arrays of more than one
 dimension of values

---
 lsl/misc/mathutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/mathutils.py b/lsl/misc/mathutils.py
index c297d5a..360ceb4 100644
--- a/lsl/misc/mathutils.py
+++ b/lsl/misc/mathutils.py
@@ -216,7 +216,7 @@ def crect(cmplx):
     """
     
     if isinstance(cmplx, np.ndarray):
-        ret = np.empty((len(cmplx),), np.complex64 if cmplx.dtype == np.float32 else np.complex128)
+        ret = np.empty(cmplx.shape[:-1], np.complex64 if cmplx.dtype == np.float32 else np.complex128)
         ret.real = creal(cmplx)
         ret.imag = cimag(cmplx)
         return ret         
-- 
2.43.0


From e29d8e44622c450910d90c0c81ed107fc9019a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:58 +0000
Subject: [PATCH 151/250] fix: ndft() truncated the frequencies of data with
 integer times

---
 lsl/misc/mathutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/mathutils.py b/lsl/misc/mathutils.py
index 360ceb4..f23ba10 100644
--- a/lsl/misc/mathutils.py
+++ b/lsl/misc/mathutils.py
@@ -263,7 +263,7 @@ def ndft(t, x):
         out[m] = s
         
     # Create the output frequency array and fill it
-    f = np.zeros_like(t)
+    f = np.zeros(t.shape, dtype=np.float64)
     for m in range(out.size):
         mPrime = out.size//2 - m
         f[m] = mPrime / (t.max() - t.min())
-- 
2.43.0


From 0c8227d2f95ef25342983772f8e02d476cf27a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:58 +0000
Subject: [PATCH 152/250] fix: gaussparams() failed for 2-D integer data

---
 lsl/misc/mathutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/mathutils.py b/lsl/misc/mathutils.py
index f23ba10..3513cca 100644
--- a/lsl/misc/mathutils.py
+++ b/lsl/misc/mathutils.py
@@ -336,9 +336,9 @@ def gaussparams(data, x=None, y=None):
             
         # Break the problem down into two 1-D filts
         profileX = data.sum(axis=1)
-        profileX *= height/profileX.max()
+        profileX = profileX*(height/profileX.max())
         profileY = data.sum(axis=0)
-        profileY *= height/profileY.max()
+        profileY = profileY*(height/profileY.max())
         
         hx, centerX, widthX = gaussparams(profileX, x[:,0])
         hy, centerY, widthY = gaussparams(profileY, y[0,:])
-- 
2.43.0


From a8dadabb20fe959ac34ccd4d2862f8a765ab3c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:58 +0000
Subject: [PATCH 153/250] fix: dBi_to_dBd() was not exported

---
 lsl/misc/rfutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/rfutils.py b/lsl/misc/rfutils.py
index a853b7e..aa367d0 100644
--- a/lsl/misc/rfutils.py
+++ b/lsl/misc/rfutils.py
@@ -16,7 +16,7 @@ telemetry.track_module()
 
 
 __version__ = '0.1'
-__all__ = ['dBd_to_dBi', 'dBd_to_dBi', 'dBi_to_gain', 'dBd_to_gain', 'gain_to_dBi', 'gain_to_dBd', 'calculate_sefd', 
+__all__ = ['dBd_to_dBi', 'dBi_to_dBd', 'dBi_to_gain', 'dBd_to_gain', 'gain_to_dBi', 'gain_to_dBd', 'calculate_sefd', 
         'calculate_effective_area', 'Jy_to_dBm', 'dBm_to_Jy']
 
 
-- 
2.43.0


From 00baeab3590713c88cad002cc911402e762240c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:45 +0000
Subject: [PATCH 154/250] fix: unscatter() returned the profile shifted by half
 of the window

---
 lsl/misc/scattering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/scattering.py b/lsl/misc/scattering.py
index 13b08bd..a0d1e5f 100644
--- a/lsl/misc/scattering.py
+++ b/lsl/misc/scattering.py
@@ -232,7 +232,8 @@ def unscatter(t, raw, tScatMin, tScatMax, tScatStep, gain=0.05, max_iter=10000,
     
     # Restore the profile using a Gaussian with a sigma value of 5 time steps
     sigmaRestore = 5*(t[1]-t[0])
-    restoreFunction = np.exp(-t**2 / (2*sigmaRestore**2))
+    tRestore = t - t[(t.size-1)//2]     # The center for convolve(..., 'same')
+    restoreFunction = np.exp(-tRestore**2 / (2*sigmaRestore**2))
     restoreFunction /= restoreFunction.sum()
     out = np.convolve(cc, restoreFunction, 'same')
     
-- 
2.43.0


From e1b27d59e3a1d9c70fd690dacbad63e5b5b5540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:45 +0000
Subject: [PATCH 155/250] fix: unscatter() raised KeyError instead of
 RuntimeError if there is no good solution

---
 lsl/misc/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/scattering.py b/lsl/misc/scattering.py
index a0d1e5f..b88b56a 100644
--- a/lsl/misc/scattering.py
+++ b/lsl/misc/scattering.py
@@ -214,7 +214,7 @@ def unscatter(t, raw, tScatMin, tScatMax, tScatStep, gain=0.05, max_iter=10000,
             bestTau = tScat
             
     # Make sure we have something to report
-    if tScat is None:
+    if bestTau is None:
         raise RuntimeError("No good solution found, consider changing the search range.")
         
     # Select out what we need, i.e., the best
-- 
2.43.0


From c29e3330c28129ebc32316d1f4bbe5df4389ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:45 +0000
Subject: [PATCH 156/250] fix: unscatter() failed for thick and uniform screens
 when the last point is the peak

---
 lsl/misc/scattering.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/scattering.py b/lsl/misc/scattering.py
index b88b56a..577cb87 100644
--- a/lsl/misc/scattering.py
+++ b/lsl/misc/scattering.py
@@ -51,7 +51,8 @@ def thick(t, tau):
     g  = np.sqrt(np.pi*tau/4/tPrime**3)
     g *= np.exp(-np.pi**2*tau/16/tPrime)
     g  = np.where(t > 0, g, 0)
-    g /= g.sum()
+    if g.sum() > 0:
+        g /= g.sum()
     
     return g
 
@@ -70,7 +71,8 @@ def uniform(t, tau):
     g  = np.sqrt(np.pi**5*tau**3/8/tPrime**5)
     g *= np.exp(-np.pi**2*tau/4/tPrime)
     g  = np.where(t > 0, g, 0)
-    g /= g.sum()
+    if g.sum() > 0:
+        g /= g.sum()
     
     return g
 
@@ -194,6 +196,9 @@ def unscatter(t, raw, tScatMin, tScatMax, tScatStep, gain=0.05, max_iter=10000,
             tPeak = t[peak]
             tRel = t - tPeak
             toRemove  = screen(tRel, tScat)
+            if not toRemove.sum() > 0:
+                #### All of the screen is after the end of the profile
+                break
             toRemove /= toRemove.sum()
             toRemove *= gain*working.max()
             
-- 
2.43.0


From b0654acf7a265a60ad562db2d7a9ab15f63bf308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:45 +0000
Subject: [PATCH 157/250] fix: coherent dedispersion with a small or zero DM
 returned zeros or raised ZeroDivisionError

---
 lsl/misc/dedispersion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index 654acd6..9263f08 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -106,6 +106,7 @@ def get_coherent_sample_size(central_freq, sample_rate, dm):
 
     delayBand = dm*_D *((1e6/(F0-BW/2.0))**2 - (1e6/(F0+BW/2.0))**2)	# Dispersion delay across the band
     samples = delayBand*BW									# Conversion to samples
+    samples = max([abs(samples), 2])								# Always leave room for the 'wings'
     samples = 2**(np.ceil(np.log(samples)/np.log(2)))		# Conversion to next largest power of 2
     samples *= 2											# Correction for the 'wings' of the convolution
     
-- 
2.43.0


From 7b9ac35658d04d92260085805e0438351c7930b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:45 +0000
Subject: [PATCH 158/250] fix: coherent dedispersion left the end of the data
 at zero even if the data after it were provided

---
 lsl/misc/dedispersion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index 9263f08..26cb57a 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -199,7 +199,10 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
         raise RuntimeWarning("Too few data samples for proper dedispersion")
         
     # Go!
-    for i in range(2*nSets+1):
+    nBlocks = 2*nSets + 1
+    if next_data is not None:
+        nBlocks = max([nBlocks, -(-timeseries.size // (N//2))])
+    for i in range(nBlocks):
         start = N//2*i - N//4
         stop = start + N
         
@@ -255,7 +258,7 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
             
         if i == 0 and previous_data is None:
             continue
-        if i == (2*nSets) and next_data is None:
+        if i >= (2*nSets) and next_data is None:
             continue
             
         outT[outStart:outStop] = timeOut[dataStart:dataStop]
-- 
2.43.0


From 3ef9c2b2cd13089d3d7845e28174f18cef4f15a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:45 +0000
Subject: [PATCH 159/250] fix: a single sample of previous or next data was
 repeated instead of refused in coherent dedispersion

---
 lsl/misc/dedispersion.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index 26cb57a..650c5e3 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -212,6 +212,8 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
             
             if previous_data is not None:
                 try:
+                    if len(previous_data) < -start:
+                        raise ValueError
                     timeIn[:-start] = previous_time[start:]
                     dataIn[:-start] = previous_data[start:]
                 except ValueError:
@@ -226,6 +228,8 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
             
             if next_data is not None:
                 try:
+                    if len(next_data) < stop - timeseries.size:
+                        raise ValueError
                     timeIn[timeseries.size-start:] = next_time[:(dataIn.size-(timeseries.size-start))]
                     dataIn[timeseries.size-start:] = next_data[:(dataIn.size-(timeseries.size-start))]
                 except ValueError:
-- 
2.43.0


From 8883928a35dca781f53077cca75a096af9c4ba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:45 +0000
Subject: [PATCH 160/250] fix: incoherent dedispersion with a negative DM
 wrapped the data that should be filled

---
 lsl/misc/dedispersion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index 650c5e3..25675cc 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -87,6 +87,8 @@ def incoherent(freq, waterfall, tInt, dm, boundary='wrap', fill_value=np.nan):
         ddWaterfall[:,i] = np.roll(waterfall[:,i], -d)
         if boundary == 'fill' and d > 0:
             ddWaterfall[-d:,i] = fill_value
+        elif boundary == 'fill' and d < 0:
+            ddWaterfall[:-d,i] = fill_value
             
     # Return
     return ddWaterfall
-- 
2.43.0


From 3a4d3191b999038e8725235af3cdce9ed21d3ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:45 +0000
Subject: [PATCH 161/250] fix: incoherent dedispersion failed for one channel
 and for delays of more than 2^31 integrations

---
 lsl/misc/dedispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index 25675cc..55bb7ec 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -79,7 +79,7 @@ def incoherent(freq, waterfall, tInt, dm, boundary='wrap', fill_value=np.nan):
     
     # Convert the delays to integration periods
     tDelay = np.round(tDelay / tInt)
-    tDelay = tDelay.astype(np.int32)
+    tDelay = np.atleast_1d(tDelay).astype(np.int64)
     
     # Roll the various frequency bins by the right amount
     ddWaterfall = waterfall*0.0
-- 
2.43.0


From 68f631e96c7ca7946e989cd3d17d999d84fb841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:21 +0000
Subject: [PATCH 162/250] fix: coherently dedispersed data were up to a quarter
 of a sample off because the chirp was not centered on the band

---
 lsl/misc/dedispersion.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index 55bb7ec..f92326d 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -131,15 +131,20 @@ def _taper(freq):
     return taper
 
 
-def _chirp(freq, dm, taper=False):
+def _chirp(freq, dm, taper=False, central_freq=None):
     """
     Chip function for coherent dedispersion for a given set of frequencies (in Hz).  
     Based on Equation (6) of "Pulsar Observations II -- Coherent Dedispersion, 
     Polarimetry, and Timing" By Stairs, I. H.
+    
+    If no central frequency (in Hz) is provided the mean of the frequencies is
+    used.
     """
     
     freqMHz = freq / 1e6
     fMHz0 = freqMHz.mean()
+    if central_freq is not None:
+        fMHz0 = central_freq / 1e6
     fMHz1 = freqMHz - fMHz0
     
     chirp = np.exp(-2j*np.pi*_D*1e6 / (fMHz0**2*(fMHz0 + fMHz1)) * dm*fMHz1**2)
@@ -185,7 +190,7 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
         
         # Compute the chirp function 
         freq = np.fft.fftfreq(N, d=1.0/sample_rate) + central_freq 
-        chirp = _chirp(freq, dm, taper=taper) 
+        chirp = _chirp(freq, dm, taper=taper, central_freq=central_freq) 
         chirp = chirp.astype(timeseries.dtype)
         
         # Update the cache
-- 
2.43.0


From 165ba19796973bcf962f28e36fde5f1b562af6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:45 +0000
Subject: [PATCH 163/250] fix: the timespec of header timestamps was ignored

---
 lsl/common/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/header.py b/lsl/common/header.py
index 5304921..0f19940 100644
--- a/lsl/common/header.py
+++ b/lsl/common/header.py
@@ -194,7 +194,7 @@ class _BaseHeader:
         if tz is None:
             tz = timezone.utc
         t = datetime.now(tz=tz)
-        ts= t.isoformat(timespec='seconds')
+        ts = t.isoformat(timespec=timespec)
         self.key_value(prefix, ts)
         
     def lsl_version(self):
-- 
2.43.0


From 2666c7395f86941e9723795c9b1b62bd7b06aa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:45 +0000
Subject: [PATCH 164/250] fix: parse_header() lost sections after keys,
 free-form lines and values with comment characters

---
 lsl/common/header.py | 199 +++++++++++--------------------------------
 1 file changed, 49 insertions(+), 150 deletions(-)

diff --git a/lsl/common/header.py b/lsl/common/header.py
index 0f19940..c5cc2a2 100644
--- a/lsl/common/header.py
+++ b/lsl/common/header.py
@@ -18,7 +18,7 @@ from datetime import datetime, timezone
 from lsl.version import version as LSL_VERSION
 from lsl.logger import LSL_LOGGER
 
-from typing import Any, Optional, TextIO, List, Union, Dict
+from typing import Any, Optional, TextIO, List, Tuple, Union, Dict
 
 __all__ = ['CommentHeader', 'BoxHeader', 'TextHeader', 'parse_header']
 __version__ = '0.1'
@@ -357,166 +357,65 @@ def parse_header(contents: Union[str,List[str]], comment: str='#') -> Dict[str,A
     if isinstance(contents, str):
         contents = contents.split('\n')
         
-    curr_indent = -1
-    base_indent = -1
-    
-    header = {}
-    active = [header,]
-    for i,line in enumerate(contents):
+    # Strip off the comments, drop the blank lines and the rules, and put the
+    # lines that have been wrapped by `textwrap.fill()` back together.
+    rule = comment if comment else '#'
+    rule_width = -1
+    entries: List[List[Any]] = []
+    for line in contents:
+        line = line.rstrip('\r\n')
         if not line.startswith(comment):
             continue
+        if line == (rule*len(line))[:len(line)]:
+            rule_width = len(line)
+            continue
             
-        line = line.replace(comment, '').rstrip()
-        if not line:
+        is_box = (comment != '' and len(line) == rule_width and line.endswith(comment))
+        line = line[len(comment):]
+        if is_box:
+            line = line[:-len(comment)]
+        text = line.strip()
+        if not text:
             continue
             
-        # Parse the current (non-empty) line.  If there's a colon then we
-        # assume we are either in a section or a key/value pair.  Otherwise
-        # this must be a comment-style line.
-        LSL_LOGGER.debug(f"Working on '{line}'")
-        next_indent = len(line) - len(line.lstrip())
-        if line.find(':') != -1:
-            next_key, next_value = line.split(':', 1)
-            next_key = next_key.strip()
-            next_value = next_value.strip()
+        indent = len(line) - len(line.lstrip())
+        if entries and text.startswith('... ') and indent == entries[-1][0]:
+            entries[-1][1] += text[4:]
         else:
-            next_key = ''
-            next_value = line.strip()
+            entries.append([indent, text])
             
-        if next_indent > curr_indent:
-            ## The indent level is higher than the current value.  We have either
-            ## entered a section or we are on a line that's been wrapped by
-            ## `textwrap.fill()`.
-            if curr_indent == -1:
-                if comment == '':
-                    if next_indent >= 1 and base_indent == -1:
-                        LSL_LOGGER.debug(f"  Setting base indent to {next_indent}")
-                        base_indent = next_indent
-                else:
-                    LSL_LOGGER.debug(f"  Setting base indent to {next_indent}")
-                    base_indent = next_indent
-            else:
-                if comment == '':
-                    if next_indent >= 1 and base_indent == -1:
-                        LSL_LOGGER.debug(f"  Setting base indent to {next_indent}")
-                        base_indent = next_indent
-            curr_indent = next_indent
+    header: Dict[str,Any] = {}
+    active: List[Tuple[int,Dict]] = [(-1, header),]
+    for indent,text in entries:
+        LSL_LOGGER.debug(f"Working on '{text}'")
+        
+        # Leave the sections that we are not inside of any more
+        while len(active) > 1 and indent <= active[-1][0]:
+            active.pop()
+        section = active[-1][1]
+        
+        # Parse the current line.  If there's a colon then we assume we are
+        # either in a section or a key/value pair.  Otherwise this must be a
+        # comment-style line.
+        key, colon, value = [part.strip() for part in text.partition(':')]
+        if not colon:
+            LSL_LOGGER.debug("  Processing as a free-form line")
+            if '_freeform' in section:
+                text = section['_freeform'] + '\n' + text
+            section['_freeform'] = text
             
-            if next_value == '':
-                ### It's a section
-                LSL_LOGGER.debug(f"  Starting new section '{next_key}'")
-                active[-1][next_key] = {}
-                active.append(active[-1][next_key])
-            else:
-                will_continue = False
-                try:
-                    next_line = contents[i+1]
-                    if next_line.startswith(comment + ' '*curr_indent + '... '):
-                        will_continue = True
-                except IndexError:
-                    pass
-                    
-                if next_key == '':
-                    ### It's a continued line
-                    LSL_LOGGER.debug(f"  Processing as continuation of last key/value pair")
-                    
-                    try:
-                        last_item = list(active[-1].keys())[-1]
-                    except IndexError:
-                        last_item = '_freeform'
-                        active[-1][last_item] = ''
-                    active[-1][last_item] += next_value.replace('... ', '')
-                    if not will_continue:
-                        try:
-                            value = json.loads(active[-1][last_item])
-                            active[-1][last_item] = value
-                        except json.decoder.JSONDecodeError:
-                            pass
-                else:
-                    ### It's a key/value pair
-                    LSL_LOGGER.debug(f"  Processing as key/value pair")
-                    
-                    if not will_continue:
-                        try:
-                            next_value = json.loads(next_value)
-                        except json.decoder.JSONDecodeError:
-                            pass
-                    active[-1][next_key] = next_value
-                    
-        elif next_indent < curr_indent:
-            ## The indent level is lower than the current value.  We have
-            ## either left a section or have finished a continued line
-            ## that's been wrapped by `textwrap.fill()`.
-            for _ in range((curr_indent - next_indent) // base_indent):
-                ### Leave the section if the indent level has decreased enough
-                ### .. note:: This can't distiguish between a section ending
-                ###           and a continued line ending!
-                LSL_LOGGER.debug(f"  Active is now {active[-1]}")
-                if len(active) > 1:
-                    active.pop()
-            curr_indent = next_indent
+        elif value == '':
+            LSL_LOGGER.debug(f"  Starting new section '{key}'")
+            section[key] = {}
+            active.append((indent, section[key]))
             
-            if next_value == '':
-                ## It's a section
-                LSL_LOGGER.debug(f"  Starting new section '{next_key}'")
-                active[-1][next_key] = {}
-                active.append(active[-1][next_key])
-            else:
-                will_continue = False
-                try:
-                    next_line = contents[i+1]
-                    if next_line.startswith(comment + ' '*curr_indent + '... '):
-                        will_continue = True
-                except IndexError:
-                    pass
-                    
-                ## It's a key/value pair
-                LSL_LOGGER.debug(f"  Processing as key/value pair")
-                
-                if not will_continue:
-                    try:
-                        next_value = json.loads(next_value)
-                    except json.decoder.JSONDecodeError:
-                        pass
-                active[-1][next_key] = next_value
-                
         else:
-            ## No change in the indent level, continued line or a key/value
-            ## pair.
-            will_continue = False
+            LSL_LOGGER.debug("  Processing as key/value pair")
             try:
-                next_line = contents[i+1]
-                if next_line.startswith(comment + ' '*curr_indent + '... '):
-                    will_continue = True
-            except IndexError:
+                value = json.loads(value)
+            except json.decoder.JSONDecodeError:
                 pass
-                
-            if next_key == '':
-                ### It's a continued line
-                LSL_LOGGER.debug(f"  Processing as continuation of last key/value pair")
-                
-                try:
-                    last_item = list(active[-1].keys())[-1]
-                except IndexError:
-                    last_item = '_freeform'
-                    active[-1][last_item] = ''
-                active[-1][last_item] += next_value.replace('... ', '')
-                if not will_continue:
-                    try:
-                        value = json.loads(active[-1][last_item])
-                        active[-1][last_item] = value
-                    except json.decoder.JSONDecodeError:
-                        pass
-            else:
-                ## It's a key/value pair
-                LSL_LOGGER.debug(f"  Processing as key/value pair")
-                
-                if not will_continue:
-                    try:
-                        next_value = json.loads(next_value)
-                    except json.decoder.JSONDecodeError:
-                        pass
-                active[-1][next_key] = next_value
-                
+            section[key] = value
+            
     return header
                 
-- 
2.43.0


From 256571f8dd274692538002dcd30dbac866c1eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:36 +0000
Subject: [PATCH 165/250] fix: file locks were not exclusive between threads
 sharing a lock and lost when acquired twice

---
 lsl/misc/file_lock.py | 53 ++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index 394372e..9f9bc4d 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -26,12 +26,13 @@ class FileLock(object):
     
     def __init__(self, filename):
         self._lockname = filename+'.lock'
-        self._locked = False
+        self._thread_lock = RLock()
+        self._depth = 0
         self._our_lock = None
         
     def __del__(self):
-        if self._locked:
-            self.release()
+        if self._our_lock is not None:
+            self._our_lock.close()
             
     def __enter__(self):
         self.acquire()
@@ -41,23 +42,30 @@ class FileLock(object):
         self.release()
         
     def locked(self):
-        return self._locked
+        return self._depth > 0
         
     def acquire(self, blocking=True, timeout=120):
         t0 = time.time()
         emit_waiting_warning = 0
         
-        ident = current_thread().ident
-        while not self._locked:
+        # First, make sure that we are the only thread that is using this lock
+        if not self._thread_lock.acquire(blocking, timeout if blocking else -1):
+            return False
+        if self._depth > 0:
+            ## We already have it
+            self._depth += 1
+            return True
+            
+        ident = f"{os.getpid()}:{current_thread().ident}"
+        fh = None
+        while self._depth == 0:
             try:
                 # Open the lock file and try to read the thread ID of who owns
                 # it
                 fh = open(self._lockname, 'a+')
-                try:
-                    owner_ident = int(fh.read(), 10)
-                except ValueError:
-                    owner_ident = 0
-                    
+                fh.seek(0)
+                owner_ident = fh.read()
+                
                 if ident != owner_ident:
                     ## If we don't own it, try to claim an exclusive lock on it.
                     fcntl.flock(fh, fcntl.LOCK_EX|fcntl.LOCK_NB)
@@ -75,18 +83,20 @@ class FileLock(object):
                     ## to _our_lock so that we know that we need to clean things
                     ## up when we are done.
                     fh.truncate(0)
-                    fh.write("%i" % ident)
+                    fh.write(ident)
                     fh.flush()
                     self._our_lock = fh
                 else:
                     ## If we do already own it then there is nothing else to do.
                     fh.close()
                     self._our_lock = None
-                self._locked = True
+                self._depth = 1
                 
             except IOError as e:
-                fh.close()
+                if fh is not None:
+                    fh.close()
                 if e.errno != errno.EAGAIN:
+                    self._thread_lock.release()
                     raise
                 if blocking:
                     tElapsed = time.time() - t0
@@ -99,18 +109,25 @@ class FileLock(object):
                 else:
                     break
                 time.sleep(0.01)
-               
-        return self._locked
+                
+        if self._depth == 0:
+            self._thread_lock.release()
+            return False
+        return True
         
     def release(self):
-        if self._our_lock is not None:
+        if self._depth == 0:
+            return True
+            
+        if self._depth == 1 and self._our_lock is not None:
             # To cleanup we truncate the file and then release the lock.
             self._our_lock.truncate(0)
             self._our_lock.flush()
             fcntl.flock(self._our_lock, fcntl.LOCK_UN)
             self._our_lock.close()
             self._our_lock = None
-        self._locked = False
+        self._depth -= 1
+        self._thread_lock.release()
         return True
 
 
-- 
2.43.0


From 310ed2b08ab63801345aa8e9c81ad25a53cea315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:36 +0000
Subject: [PATCH 166/250] fix: memory locks acquired twice appeared to be
 unlocked after the first release

---
 lsl/misc/file_lock.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index 9f9bc4d..cc1a537 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -134,7 +134,7 @@ class FileLock(object):
 class MemoryLock(object):
     def __init__(self, filename):
         self._lock = RLock()
-        self._locked = False
+        self._depth = 0
         
     def __enter__(self):
         self.acquire()
@@ -144,15 +144,15 @@ class MemoryLock(object):
         self.release()
         
     def locked(self):
-        return self._locked
+        return self._depth > 0
         
     def acquire(self, blocking=True, timeout=120):
-        try:
-            self._locked = self._lock.acquire(blocking, timeout)
-        except TypeError:
-            self._locked = self._lock.acquire(blocking)
-        return self._locked
+        if not self._lock.acquire(blocking, timeout if blocking else -1):
+            return False
+        self._depth += 1
+        return True
         
     def release(self):
+        if self._depth > 0:
+            self._depth -= 1
         self._lock.release()
-        self._locked = False
-- 
2.43.0


From bc6f3d459e7e3b96656515a7413c14bc08bc812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 167/250] fix: file locks in read-only directories raised
 UnboundLocalError instead of being allowed with a warning

---
 lsl/misc/file_lock.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index cc1a537..77e3423 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -28,10 +28,13 @@ class FileLock(object):
         self._lockname = filename+'.lock'
         self._thread_lock = RLock()
         self._depth = 0
+        self._owner = None
         self._our_lock = None
+        self._readonly = False
         
     def __del__(self):
         if self._our_lock is not None:
+            self._our_lock.truncate(0)
             self._our_lock.close()
             
     def __enter__(self):
@@ -95,6 +98,12 @@ class FileLock(object):
             except IOError as e:
                 if fh is not None:
                     fh.close()
+                if e.errno in (errno.EACCES, errno.EPERM, errno.EROFS):
+                    if not self._readonly:
+                        warnings.warn(f"Cannot write to '{self._lockname}', locking is disabled", RuntimeWarning)
+                        self._readonly = True
+                    self._depth = 1
+                    break
                 if e.errno != errno.EAGAIN:
                     self._thread_lock.release()
                     raise
@@ -113,10 +122,12 @@ class FileLock(object):
         if self._depth == 0:
             self._thread_lock.release()
             return False
+        self._owner = current_thread().ident
         return True
         
     def release(self):
-        if self._depth == 0:
+        if self._depth == 0 or self._owner != current_thread().ident:
+            # There is nothing of ours to release
             return True
             
         if self._depth == 1 and self._our_lock is not None:
-- 
2.43.0


From 3f230206b6e5f4c5159f52206c31275462d70ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 168/250] fix: cached files in memory could only be iterated
 over for one line

---
 lsl/misc/file_cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 0f8714d..54d5dc5 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -214,8 +214,9 @@ class MemoryFile(object):
         
     def __iter__(self):
         contents = self.readline()
-        if len(contents) > 0:
+        while len(contents) > 0:
             yield contents
+            contents = self.readline()
             
     @property
     def closed(self):
-- 
2.43.0


From c08d6349e6d2dd2da23f8fb6a12b16f9401597b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 169/250] fix: cached files in memory opened for appending were
 overwritten from the start

---
 lsl/misc/file_cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 54d5dc5..0cc62e9 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -263,7 +263,9 @@ class MemoryFile(object):
             self._ctime = time.time()
         self._closed = False
         self._is_binary = (mode.find('b') != -1)
-        
+        if mode.startswith('a'):
+            self._buffer.seek(0, 2)
+            
         return self
             
     def seek(self, pos, whence=0):
-- 
2.43.0


From d5b5950f7fa8af12d19ca478b6928d52ac21e0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 170/250] fix: the modification time of cached files in memory
 was never set and could not be read

---
 lsl/misc/file_cache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 0cc62e9..6c8ba8d 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -261,6 +261,7 @@ class MemoryFile(object):
         self._atime = time.time()
         if mode.startswith('w'):
             self._ctime = time.time()
+            self._mtime = self._ctime
         self._closed = False
         self._is_binary = (mode.find('b') != -1)
         if mode.startswith('a'):
@@ -346,6 +347,7 @@ class MemoryFile(object):
             except AttributeError:
                 # Already encoded as binary
                 pass
+        self._mtime = time.time()
         return self._buffer.write(s)
         
     def flush(self):
@@ -357,9 +359,7 @@ class MemoryFile(object):
             raise IOError(f"MemoryFile:{self.name} is closed")
             
         self._buffer.flush()
-        if self.mode.startswith('w') or self.mode.startswith('a'):
-            self._mtime = time.time()
-            
+        
     def close(self):
         """
         Close the buffer and release the access lock.
@@ -488,7 +488,7 @@ class MemoryCache(object):
         assert(self._lock.locked())
         
         try:
-            mtime = self._cache[filename].stat['st_mtime']
+            mtime = self._cache[filename]._mtime
         except KeyError:
             raise OSError()
         finally:
-- 
2.43.0


From 4d4213d7d74d177624adcf48f444e8e4c1cf21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 171/250] fix: reading a missing file from a cache in memory
 created it

---
 lsl/misc/file_cache.py | 51 ++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 6c8ba8d..4f1942d 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -7,6 +7,7 @@ Module that provides classes for file cache management.
 import os
 import glob
 import time
+import errno
 import contextlib
 from threading import Lock
 from io import StringIO, BytesIO
@@ -395,7 +396,7 @@ class MemoryCache(object):
     def __contains__(self, filename):
         return filename in self._cache
             
-    def _cache_management(self):
+    def _cache_management(self, keep=None):
         try:
             max_size = self.max_size()
         except TypeError:
@@ -407,17 +408,14 @@ class MemoryCache(object):
             mtimes = [self._cache[filename]._mtime for filename in filenames]
             
             # Delete until we mee the cache size limit or until there is only one
-            # file left (the most recent one)
-            while sum(sizes) > max_size and len(filenames) > 1:
-                oldest = min(mtimes)
-                idx = mtimes.index(oldest)
-                
-                filename = filenames[idx]
-                del self._cache[filename]
-                
-                del filenames[idx]
-                del sizes[idx]
-                del mtimes[idx]
+            # file left (the one that is being written)
+            order = sorted(range(len(filenames)), key=lambda x: (filenames[x] == keep, mtimes[x]))
+            total = sum(sizes)
+            for idx in order[:-1]:
+                if total <= max_size:
+                    break
+                del self._cache[filenames[idx]]
+                total -= sizes[idx]
                 
     @contextlib.contextmanager
     def open(self, filename, mode='r'):
@@ -432,19 +430,24 @@ class MemoryCache(object):
         assert(self._lock.locked())
         
         try:
-            fh = self._cache[filename]
-        except KeyError:
-            self._cache[filename] = MemoryFile(filename)
-            fh = self._cache[filename]
-        if mode.startswith('w'):
-            fh.truncate(0)
-        if mode.startswith('w') or mode.startswith('a'):
-            self._cache_management()
-            
-        try:
-            yield fh.open(mode=mode)
+            is_write = mode.startswith('w') or mode.startswith('a')
+            try:
+                fh = self._cache[filename]
+            except KeyError:
+                if not is_write:
+                    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), filename)
+                self._cache[filename] = MemoryFile(filename)
+                fh = self._cache[filename]
+            fh.open(mode=mode)
+            try:
+                if mode.startswith('w'):
+                    fh.truncate(0)
+                if is_write:
+                    self._cache_management(keep=filename)
+                yield fh
+            finally:
+                fh.close()
         finally:
-            fh.close()
             self._lock.release()
             
     def remove(self, filename):
-- 
2.43.0


From 9037212956d90b9190eda766545e39e63f87468e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 172/250] fix: a file cache stayed locked after a file could
 not be opened

---
 lsl/misc/file_cache.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 4f1942d..be2df09 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -96,21 +96,19 @@ class FileCache(object):
         self._lock.acquire()
         assert(self._lock.locked())
         
-        if mode.startswith('w') or mode.startswith('a'):
-            parent_dirs = os.path.dirname(filename)
-            if parent_dirs != '':
-                parent_dirs = os.path.join(self.cache_dir, parent_dirs)
-                if not os.path.exists(parent_dirs):
-                    os.makedirs(parent_dirs, exist_ok=True)
-                    
-        fh = open(os.path.join(self.cache_dir, filename), mode)
-        if mode.startswith('w') or mode.startswith('a'):
-            self._cache_management()
-            
         try:
-            yield fh
+            if mode.startswith('w') or mode.startswith('a'):
+                parent_dirs = os.path.dirname(filename)
+                if parent_dirs != '':
+                    parent_dirs = os.path.join(self.cache_dir, parent_dirs)
+                    if not os.path.exists(parent_dirs):
+                        os.makedirs(parent_dirs, exist_ok=True)
+                        
+            with open(os.path.join(self.cache_dir, filename), mode) as fh:
+                if mode.startswith('w') or mode.startswith('a'):
+                    self._cache_management()
+                yield fh
         finally:
-            fh.close()
             self._lock.release()
             
     def remove(self, filename):
-- 
2.43.0


From f8d047231308952075b3f115cd51b81f0489881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 173/250] fix: the size limit of a file cache ignored
 subdirectories, deleted the file to append to and hung if a file could not be
 deleted

---
 lsl/misc/file_cache.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index be2df09..c4768f6 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -59,28 +59,34 @@ class FileCache(object):
     def __contains__(self, filename):
         return os.path.exists(os.path.join(self.cache_dir, filename))
         
-    def _cache_management(self):
+    def _cache_management(self, keep=None):
         try:
             max_size = self.max_size()
         except TypeError:
             max_size = self.max_size
             
         if max_size > 0:
-            filenames = glob.glob(os.path.join(self.cache_dir, '*'))
+            filenames = glob.glob(os.path.join(glob.escape(self.cache_dir), '**'), recursive=True)
+            filenames = list(filter(os.path.isfile, filenames))
             filenames = list(filter(lambda x:os.path.basename(x) != 'cache_access.lock', filenames))
             sizes = [os.path.getsize(f)/1024.**2 for f in filenames]
             mtimes = [os.path.getmtime(f) for f in filenames]
             
             # Delete until we mee the cache size limit or until there is only one
-            # file left (the most recent one)
-            while sum(sizes) > max_size and len(filenames) > 1:
-                oldest = min(mtimes)
-                idx = mtimes.index(oldest)
+            # file left (the one that is being written)
+            if keep is not None:
+                keep = os.path.join(self.cache_dir, keep)
+                keep = [os.path.samefile(f, keep) for f in filenames]
+            else:
+                keep = [False for f in filenames]
+            order = sorted(range(len(filenames)), key=lambda x: (keep[x], mtimes[x]))
+            total = sum(sizes)
+            for idx in order[:-1]:
+                if total <= max_size:
+                    break
                 try:
                     os.unlink(filenames[idx])
-                    del filenames[idx]
-                    del sizes[idx]
-                    del mtimes[idx]
+                    total -= sizes[idx]
                 except OSError:
                     pass
                     
@@ -106,7 +112,7 @@ class FileCache(object):
                         
             with open(os.path.join(self.cache_dir, filename), mode) as fh:
                 if mode.startswith('w') or mode.startswith('a'):
-                    self._cache_management()
+                    self._cache_management(keep=filename)
                 yield fh
         finally:
             self._lock.release()
-- 
2.43.0


From eb738bb3a153a10e549faffce522c52ffe630841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:25 +0000
Subject: [PATCH 174/250] fix: seek() of cached files in memory did not return
 the new position

---
 lsl/misc/file_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index c4768f6..a3465f4 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -287,7 +287,7 @@ class MemoryFile(object):
         if self._closed:
             raise IOError(f"MemoryFile:{self.name} is closed")
             
-        self._buffer.seek(pos, whence)
+        return self._buffer.seek(pos, whence)
         
     def tell(self):
         """
-- 
2.43.0


From c3b28bb6ecf78e95f5b85809e384bb6d280efe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:28 +0000
Subject: [PATCH 175/250] fix: incomplete downloads were taken as complete and
 other download problems were not caught

---
 lsl/common/data_access.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 3069976..4b7feca 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -4,14 +4,13 @@ import sys
 import time
 import zlib
 import shutil
-import socket
 import logging
 import calendar
 import warnings
 import contextlib
 from datetime import datetime
 from urllib.request import Request, urlopen
-from urllib.error import HTTPError
+from http.client import HTTPException
 
 from lsl.common.paths import DATA as DATA_PATH
 from lsl.common.progress import DownloadBar
@@ -108,7 +107,10 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
         mtime = 0.0
         remote_size = 0
         with urlopen(req, timeout=DOWN_CONFIG.get('timeout')) as uh:
-            remote_size = int(uh.headers["Content-Length"])
+            if uh.headers["Content-Length"] is not None:
+                remote_size = int(uh.headers["Content-Length"])
+            else:
+                remote_size = None
             mtime = uh.headers['Last-Modified']
             is_gzip = (uh.headers['Content-Encoding'] == 'gzip')
             if is_gzip:
@@ -122,7 +124,7 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
                     warnings.warn(f"Cannot find a 'Last-Modified' time for {url}, modification time will be set to zero")
                 mtime = 0.0
                 
-            pbar = DownloadBar(max=remote_size)
+            pbar = DownloadBar(max=(remote_size or 1))
             received = 0
             while True:
                 data = uh.read(DOWN_CONFIG.get('block_size'))
@@ -142,18 +144,19 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
             if is_interactive:
                 sys.stdout.write(pbar.show()+'\n')
                 sys.stdout.flush()
-    except IOError as e:
+                
+            if remote_size is None:
+                remote_size = received
+            if received < remote_size or (is_gzip and received > 0 and not decomp.eof):
+                raise IOError(f"Only received {received} of {remote_size} bytes")
+    except (IOError, HTTPException, ValueError, zlib.error) as e:
         if verbose:
             warnings.warn(colorfy("{{%%yellow Error downloading file from %s: %s}}" % (url, str(e))), RuntimeWarning)
-        received = 0
-    except (socket.timeout, TimeoutError):
-        received = 0
-    except HTTPError:
-        received = 0
-        
-    if do_close:
-        filename_or_fh.close()
-        
+        remote_size, received, mtime = 0, 0, 0.0
+    finally:
+        if do_close:
+            filename_or_fh.close()
+            
     return (remote_size, received, mtime)
 
 
-- 
2.43.0


From c9a547a9bb6b5e0336963a71cd8ea075c1887f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:28 +0000
Subject: [PATCH 176/250] fix: check_url() did not return zeros for a bad
 modification time

---
 lsl/common/data_access.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 4b7feca..d9c3e4e 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -63,7 +63,8 @@ def check_url(url, byte_range=None, verbose=True):
     except Exception as e:
         if verbose:
             warnings.warn(colorfy("{{%%yellow Error polling metadata from %s: %s}}" % (url, str(e))), RuntimeWarning)
-            
+        remote_size, mtime = 0, 0.0
+        
     return remote_size, mtime
 
 
-- 
2.43.0


From 4f4bc473462c96fd7256adebf2242109016e440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:28 +0000
Subject: [PATCH 177/250] fix: interrupted downloads left incomplete files in
 the data cache and failed updates deleted the file

---
 lsl/common/data_access.py | 94 +++++++++++++++++++++------------------
 lsl/misc/file_cache.py    | 32 +++++++++++++
 2 files changed, 83 insertions(+), 43 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index d9c3e4e..615eb85 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -197,37 +197,39 @@ class _DataAccess(object):
         """
         
         metaname = filename+'_meta'
+        partname = filename+'_part'
         
         local_path = os.path.join(DATA_PATH, relative_url)
         
-        received = 0
-        if os.path.exists(local_path):
-            with open(local_path, 'rb') as uh:
-                with self._data_cache.open(filename, 'wb') as fh:
-                    while True:
-                        data = uh.read(DOWN_CONFIG.get('block_size'))
-                        if len(data) == 0:
-                            break
-                        received += len(data)
-                        
-                        fh.write(data)
-                        
+        with self._data_cache._lock:
+            received = 0
+            if os.path.exists(local_path):
+                with open(local_path, 'rb') as uh:
+                    with self._data_cache.open(partname, 'wb') as fh:
+                        while True:
+                            data = uh.read(DOWN_CONFIG.get('block_size'))
+                            if len(data) == 0:
+                                break
+                            received += len(data)
+                            
+                            fh.write(data)
+                            
+            # Did we get anything or, at least, enough of something like it looks like 
+            # a real file?
+            if received < 3:
+                ## Fail
+                self._data_cache.remove(partname)
+                return False
+                
+            self._data_cache.rename(partname, filename)
             with self._data_cache.open(metaname, 'w') as fh:
                 fh.write(f"created: {time.time():.0f}\n")
                 fh.write(f"source: {local_path}\n")
                 fh.write(f"source size: {os.path.getsize(local_path)} B\n")
                 fh.write(f"source last modified: {os.path.getmtime(local_path):.0f}\n")
                 
-        # Did we get anything or, at least, enough of something like it looks like 
-        # a real file?
-        if received < 3:
-            ## Fail
-            self._data_cache.remove(filename)
-            self._data_cache.remove(metaname)
-            return False
+            return True
             
-        return True
-        
     def _download_mtime(self, relative_url, use_backup=False, verbose=True):
         url = self._BASE_URL+'/'+relative_url
         if use_backup:
@@ -246,6 +248,7 @@ class _DataAccess(object):
         is_interactive = sys.__stdin__.isatty()
         
         metaname = filename+'_meta'
+        partname = filename+'_part'
         
         # Attempt to download the data
         url = self._BASE_URL+'/'+relative_url
@@ -253,25 +256,26 @@ class _DataAccess(object):
             url = self._BACKUP_URL+'/'+relative_url
             
         mtime = 0
-        with self._data_cache.open(filename, 'wb') as fh:
-            remote_size, received, mtime = download_file(url, fh, verbose=verbose)
-            
-        with self._data_cache.open(metaname, 'w') as fh:
-            fh.write(f"created: {time.time():.0f}\n")
-            fh.write(f"source: {url}\n")
-            fh.write(f"source size: {remote_size} B\n")
-            fh.write(f"source last modified: {mtime:.0f}\n")
-            
-        # Did we get anything or, at least, enough of something like it looks like 
-        # a real file?
-        if received < 3:
-            ## Fail
-            self._data_cache.remove(filename)
-            self._data_cache.remove(metaname)
-            return False
+        with self._data_cache._lock:
+            with self._data_cache.open(partname, 'wb') as fh:
+                remote_size, received, mtime = download_file(url, fh, verbose=verbose)
+                
+            # Did we get anything or, at least, enough of something like it looks like 
+            # a real file?
+            if received < 3:
+                ## Fail
+                self._data_cache.remove(partname)
+                return False
+                
+            self._data_cache.rename(partname, filename)
+            with self._data_cache.open(metaname, 'w') as fh:
+                fh.write(f"created: {time.time():.0f}\n")
+                fh.write(f"source: {url}\n")
+                fh.write(f"source size: {remote_size} B\n")
+                fh.write(f"source last modified: {mtime:.0f}\n")
+                
+            return True
             
-        return True
-        
     def fetch_data_file(self, filename):
         """
         Make sure that a LSL data file exists.  If it does not copy the file
@@ -303,10 +307,13 @@ class _DataAccess(object):
                     remote_mtime = self._download_mtime(filename, use_backup=True, verbose=verbose)
                     
                 if max([local_mtime, remote_mtime]) > cache_mtime:
-                    ## Found something newer.  Delete the current version and
-                    ## copy/download again.
-                    self._data_cache.remove(filename)
-                    self.fetch_data_file(filename)
+                    ## Found something newer.  Copy/download again from where
+                    ## the newest version is.  If that does not work then we
+                    ## still have the current version.
+                    if local_mtime >= remote_mtime:
+                        self._local_copy_worker(filename, filename, verbose=verbose)
+                    elif not self._download_worker(filename, filename, use_backup=False, verbose=verbose):
+                        self._download_worker(filename, filename, use_backup=True, verbose=verbose)
                     
     @contextlib.contextmanager
     def open(self, filename, mode='r'):
@@ -327,6 +334,7 @@ class _DataAccess(object):
         """
         
         self._data_cache.remove(filename)
+        self._data_cache.remove(filename+'_meta')
         
     def getsize(self, filename):
         """
diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index a3465f4..d33f9f8 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -132,6 +132,21 @@ class FileCache(object):
         finally:
             self._lock.release()
             
+    def rename(self, filename, new_filename):
+        """
+        Rename a file in the cache.  If there is already a file with the new
+        name then it is replaced.
+        """
+        
+        self._lock.acquire()
+        assert(self._lock.locked())
+        
+        try:
+            os.replace(os.path.join(self.cache_dir, filename),
+                       os.path.join(self.cache_dir, new_filename))
+        finally:
+            self._lock.release()
+            
     def getsize(self, filename):
         """
         Return the size of a file in the cache.
@@ -469,6 +484,23 @@ class MemoryCache(object):
         finally:
             self._lock.release()
             
+    def rename(self, filename, new_filename):
+        """
+        Rename a file in the cache.  If there is already a file with the new
+        name then it is replaced.
+        """
+        
+        self._lock.acquire()
+        assert(self._lock.locked())
+        
+        try:
+            self._cache[new_filename] = self._cache.pop(filename)
+            self._cache[new_filename].name = new_filename
+        except KeyError:
+            raise OSError()
+        finally:
+            self._lock.release()
+            
     def getsize(self, filename):
         """
         Return the size of a file in the cache.
-- 
2.43.0


From a99e2cc19502ccce1a982a36590d14be4db601bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:28 +0000
Subject: [PATCH 178/250] fix: configuration views did not fall back to the
 full name when setting a parameter

---
 lsl/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 9a38c92..65a4e7d 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -453,7 +453,7 @@ class LSLConfigSubContainer(object):
         
         try:
             self.container.set(self.section+'.'+name, value)
-        except KeyError:
+        except ValueError:
             self.container.set(name, value)
         
     def set_temp(self, name, value):
@@ -463,9 +463,10 @@ class LSLConfigSubContainer(object):
         """
         
         try:
-            return self.container.set_temp(self.section+'.'+name, value)
-        except KeyError:
+            self.container.get(self.section+'.'+name)
+        except ValueError:
             return self.container.set_temp(name, value)
+        return self.container.set_temp(self.section+'.'+name, value)
 
 
 #: The LSLConfigContainer that users should use
-- 
2.43.0


From 380760e4411e419687ed61be98b996be929d3ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:28 +0000
Subject: [PATCH 179/250] fix: a KeyError raised while a configuration
 parameter was set temporarily became an unknown parameter error

---
 lsl/config.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 65a4e7d..5a0a14d 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -408,21 +408,20 @@ class LSLConfigContainer(object):
         try:
             old_value = self._parameters[name].value
             is_optional = self._parameters[name].is_optional
-            
-            # Allow type changes only for optional parameters (those with None defaults)
-            # For non-optional parameters, enforce strict type checking
-            if type(value) != type(old_value) and not is_optional:
-                raise TypeError("Expected %s but found %s for '%s'" % (type(old_value).__name__,
-                                                                       type(value).__name__,
-                                                                       name))
-            self._parameters[name].value = value
-            try:
-                yield
-            finally:
-                self._parameters[name].value = old_value
-                
         except KeyError:
             raise ValueError(f"Unknown parameter '{name}'")
+            
+        # Allow type changes only for optional parameters (those with None defaults)
+        # For non-optional parameters, enforce strict type checking
+        if type(value) != type(old_value) and not is_optional:
+            raise TypeError("Expected %s but found %s for '%s'" % (type(old_value).__name__,
+                                                                   type(value).__name__,
+                                                                   name))
+        self._parameters[name].value = value
+        try:
+            yield
+        finally:
+            self._parameters[name].value = old_value
 
 
 class LSLConfigSubContainer(object):
-- 
2.43.0


From 5c8a486e0ea504e3b19ce62ff5fcfa2e4c9a5cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:28 +0000
Subject: [PATCH 180/250] fix: optional configuration parameters set to None
 came back with their default value

---
 lsl/config.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lsl/config.py b/lsl/config.py
index 5a0a14d..57d8bc2 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -192,7 +192,11 @@ class LSLConfigParameter(object):
             
         section, item = self.name.rsplit('.', 1)
         if self.value is None:
-            output += f"#{item} = \n"
+            try:
+                default = DEFAULTS_ALL[section][item]['value']
+            except KeyError:
+                default = None
+            output += f"{'#' if default is None else ''}{item} = \n"
         else:
             output += f"{item} = {self.value}\n"
         return output
-- 
2.43.0


From eec73dfad467fc7c6f3b2c5ba896bde7003d0d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:28 +0000
Subject: [PATCH 181/250] fix: changes to the configuration were abandoned
 after the first save of a session

---
 lsl/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/config.py b/lsl/config.py
index 57d8bc2..9d6cf92 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -337,6 +337,7 @@ class LSLConfigContainer(object):
                     
                     with open(self.filename, 'w') as fh:
                         fh.write(str(self))
+                    self._loaded = os.path.getmtime(self.filename)
                     self._version_changed = False
                     self._param_changed = False
                     self._param_changed_list.clear()
-- 
2.43.0


From 20567873abd9c9007ebcd1a235d437f23030a3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:28 +0000
Subject: [PATCH 182/250] fix: an interrupted save left an incomplete
 configuration file that could not be loaded any more

---
 lsl/config.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 9d6cf92..f8487b7 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -282,11 +282,13 @@ class LSLConfigContainer(object):
                         section = line.replace('[', '').replace(']', '')
                         section = section.strip().rstrip()
                         continue
+                    elif '=' not in line or section is None:
+                        warnings.warn(f"\u001b[33mIgnoring '{line}' in the configuration file\u001b[0m", RuntimeWarning)
+                        continue
                     else:
                         name, value = line.split('=', 1)
                         name = name.strip().rstrip()
-                        if section is not None:
-                            name = section+'.'+name
+                        name = section+'.'+name
                         value = value.strip().rstrip()
                         if value in ('True', 'False'):
                             value = True if value == 'True' else False
@@ -335,8 +337,10 @@ class LSLConfigContainer(object):
                 with FileLock(self.filename) as lock:
                     assert(lock.locked())
                     
-                    with open(self.filename, 'w') as fh:
+                    tempname = self.filename+'.tmp'
+                    with open(tempname, 'w') as fh:
                         fh.write(str(self))
+                    os.replace(tempname, self.filename)
                     self._loaded = os.path.getmtime(self.filename)
                     self._version_changed = False
                     self._param_changed = False
-- 
2.43.0


From 2bb143514fee1b6f2e6ba092c45a386033421e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:04 +0000
Subject: [PATCH 183/250] fix: DP timetags of timestamps on days with a leap
 second were up to 2268 ticks off

---
 lsl/reader/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/base.py b/lsl/reader/base.py
index 5e5ce15..01ab9a9 100644
--- a/lsl/reader/base.py
+++ b/lsl/reader/base.py
@@ -574,11 +574,15 @@ class FrameTimestamp(object):
         on January 1, 1970).
         """
         
+        # Work with fractions of the UTC day, rather than the elapsed time, to
+        # match what UNIX time means on days with a leap second
         sec = int(self._time.unix)
-        sec_frac = self._time - AstroTime(sec, format='unix', scale='utc')
+        sec_time = AstroTime(sec, format='unix', scale='utc')
+        sec_frac = (self._time.utc.jd1 - sec_time.jd1) + (self._time.utc.jd2 - sec_time.jd2)
+        sec_frac *= 86400
         
         tt = sec * int(ndp_common.fS)
-        tt = tt + int(round(sec_frac.sec*ndp_common.fS, 2))
+        tt = tt + int(round(sec_frac*ndp_common.fS, 2))
         return tt
         
     @property
-- 
2.43.0


From 7ab29d5f3d9b01a4b18e407fa29ab8a17a9f2026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:03 +0000
Subject: [PATCH 184/250] fix: an empty cached file in memory had no
 modification time

---
 lsl/misc/file_cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index d33f9f8..033a2d6 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -228,9 +228,9 @@ class MemoryFile(object):
         self._closed = True
         self._is_binary = False
         
-        self._ctime = 0.0
-        self._atime = 0.0
-        self._mtime = 0.0
+        self._ctime = time.time()
+        self._atime = self._ctime
+        self._mtime = self._ctime
         
     def __iter__(self):
         contents = self.readline()
-- 
2.43.0


From d80076641647ea3a7f1a3486dfeef429884aed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 185/250] fix: configuration changes between equal values of
 different types were not saved

---
 lsl/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index f8487b7..aa7312c 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -384,7 +384,7 @@ class LSLConfigContainer(object):
                                                                        type(value).__name__,
                                                                        name))
             self._parameters[name].value = value
-            if value != old_value:
+            if value != old_value or type(value) != type(old_value):
                 if name in self._param_changed_list:
                     # Get the original value from when we first changed this parameter
                     original_value = self._param_changed_list[name][0]
@@ -393,7 +393,7 @@ class LSLConfigContainer(object):
                     original_value = old_value
                     
                 # Check if we're setting back to the original value
-                if value == original_value:
+                if value == original_value and type(value) == type(original_value):
                     # Remove from changed list since we're back to the original value
                     if name in self._param_changed_list:
                         del self._param_changed_list[name]
-- 
2.43.0


From e6e8a3c24bdc2633fc5fa49cc6be10f014ecf65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 186/250] fix: self-calibration with amplitudes lost the phases
 and delays found before, and the gains in the result

---
 lsl/imaging/selfcal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/imaging/selfcal.py b/lsl/imaging/selfcal.py
index af2ee0c..5c4bc70 100644
--- a/lsl/imaging/selfcal.py
+++ b/lsl/imaging/selfcal.py
@@ -347,7 +347,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
                 amplitude = False
                 converged = True
                 
-            dataSet = _scale_data(origSet, tempGains, np.zeros_like(tempGains), np.zeros_like(tempGains))
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
         #
         # Delay and/or phase
@@ -384,7 +384,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
                 phase_only = False
                 converged = True
                 
-            dataSet = _scale_data(origSet, np.ones_like(tempPhaseOffsets), np.zeros_like(tempPhaseOffsets), tempPhaseOffsets)
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
         elif delay_only:
             LSL_LOGGER.debug(f'  {i+1}D')
@@ -418,7 +418,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
                 delay_only = False
                 converged = True
                 
-            dataSet = _scale_data(origSet, np.ones_like(tempDelays), tempDelays, np.zeros_like(tempDelays))
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
         elif delay_and_phase:
             LSL_LOGGER.debug(f'  {i+1}D+P')
@@ -446,7 +446,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             bestDelays = np.array(bestDelays)
             tempDelays += loop_gain*bestDelays
             
-            dataSet = _scale_data(origSet, np.ones_like(tempDelays), tempDelays, tempPhaseOffsets)
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
             ## Then phase
             A = _build_phase_a(aa, dataSet, simSet, chan, pol, ref_ant=ref_ant)
@@ -479,7 +479,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
                 delay_and_phase = False
                 converged = True
                 
-            dataSet = _scale_data(origSet, np.ones_like(tempDelays), tempDelays, tempPhaseOffsets)
+            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
         else:
             pass
-- 
2.43.0


From d95fec4c19941bcd7c417bd7cc078573654557cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 187/250] fix: self-calibration stopped when the amplitudes had
 converged, whatever the phases and delays

---
 lsl/imaging/selfcal.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/lsl/imaging/selfcal.py b/lsl/imaging/selfcal.py
index 5c4bc70..e298fc2 100644
--- a/lsl/imaging/selfcal.py
+++ b/lsl/imaging/selfcal.py
@@ -308,6 +308,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
     origSet = dataSet
     
     converged = False
+    ampConverged = not amplitude
     tempGains = np.ones(N)
     tempDelays = np.zeros(N)
     tempPhaseOffsets = np.zeros(N)
@@ -341,11 +342,9 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             tempGains *= bestGains
             
             valid = np.where( np.abs(bestGains) < 1e6 )[0]
-            metric = (np.abs(bestGains[valid])).max()
+            metric = np.exp(np.abs(np.log(bestGains[valid]))).max()
             LSL_LOGGER.debug(f'    {metric}')
-            if metric < amplitude_cutoff:
-                amplitude = False
-                converged = True
+            ampConverged = (metric < amplitude_cutoff)
                 
             dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
@@ -381,8 +380,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             metric = (np.abs(bestPhaseOffsets[valid])).max()
             LSL_LOGGER.debug(f'    {metric}')
             if metric < phase_cutoff:
-                phase_only = False
-                converged = True
+                converged = ampConverged
                 
             dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
@@ -415,8 +413,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             metric = (np.abs(bestDelays[valid])).max()
             LSL_LOGGER.debug(f'    {metric}')
             if metric < delay_cutoff:
-                delay_only = False
-                converged = True
+                converged = ampConverged
                 
             dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
@@ -476,8 +473,7 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             metric2 = (np.abs(bestPhaseOffsets[valid])).max()
             LSL_LOGGER.debug(f'    {metric1} {metric2}')
             if metric1 < delay_cutoff and metric2 < phase_cutoff:
-                delay_and_phase = False
-                converged = True
+                converged = ampConverged
                 
             dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
             
-- 
2.43.0


From 8cc3460e9d343fb527634b7c3353cc3ae4d6b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:42 +0000
Subject: [PATCH 188/250] fix: self-calibration for delays and phases drifted
 away, since the two were fit in turn

---
 lsl/imaging/selfcal.py | 43 ++++++++++--------------------------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/lsl/imaging/selfcal.py b/lsl/imaging/selfcal.py
index e298fc2..fdceb56 100644
--- a/lsl/imaging/selfcal.py
+++ b/lsl/imaging/selfcal.py
@@ -420,34 +420,10 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
         elif delay_and_phase:
             LSL_LOGGER.debug(f'  {i+1}D+P')
             
-            ## Delay first
-            A = _build_delay_a(aa, dataSet, simSet, chan, pol, ref_ant=ref_ant)
-            C = _build_delay_c(aa, dataSet, simSet, chan, pol, ref_ant=ref_ant)
-            
-            good = np.where( np.isfinite(C) == 1 )[0]
-            A = A[good,:]
-            C = C[good]
-            
-            if inv_epsilon > 0:
-                R = 1/inv_epsilon * np.eye(*A.shape)
-                trc, rank = pinv(np.dot(A.T,A) + np.dot(R.T,R), return_rank=True)
-                bestDelays = np.dot(trc, np.dot(A.T,C))
-                
-            else:
-                bestDelays, resid, rank, s = np.linalg.lstsq(A, C, rcond=None)
-            resid = np.array(C - np.dot(A, bestDelays)).ravel()
-            resid = (C**2).sum(), (resid**2).sum()
-            
-            bestDelays = list(bestDelays)
-            bestDelays.insert(ref_ant, 0.0)
-            bestDelays = np.array(bestDelays)
-            tempDelays += loop_gain*bestDelays
-            
-            dataSet = _scale_data(origSet, tempGains, tempDelays, tempPhaseOffsets)
-            
-            ## Then phase
+            ## Delay and phase together
             A = _build_phase_a(aa, dataSet, simSet, chan, pol, ref_ant=ref_ant)
             C = _build_phase_c(aa, dataSet, simSet, chan, pol, ref_ant=ref_ant)
+            A = np.hstack([A * 2*np.pi*np.repeat(fq, dataSet.nbaseline)[:,None], A])
             
             good = np.where( np.isfinite(C) == 1 )[0]
             A = A[good,:]
@@ -456,17 +432,18 @@ def _self_cal(aa, dataSet, simSet, chan, pol, ref_ant=0, loop_gain=0.75, max_ite
             if inv_epsilon > 0:
                 R = 1/inv_epsilon * np.eye(*A.shape)
                 trc, rank = pinv(np.dot(A.T,A) + np.dot(R.T,R), return_rank=True)
-                bestPhaseOffsets = np.dot(trc, np.dot(A.T,C))
+                best = np.dot(trc, np.dot(A.T,C))
                 
             else:
-                bestPhaseOffsets, resid, rank, s = np.linalg.lstsq(A, C, rcond=None)
-            resid = np.array(C - np.dot(A, bestPhaseOffsets)).ravel()
+                best, resid, rank, s = np.linalg.lstsq(A, C, rcond=None)
+            resid = np.array(C - np.dot(A, best)).ravel()
             resid = (C**2).sum(), (resid**2).sum()
             
-            bestPhaseOffsets = list(bestPhaseOffsets)
-            bestPhaseOffsets.insert(ref_ant, 0.0)
-            bestPhaseOffsets = np.array(bestPhaseOffsets)
-            tempPhaseOffsets += 0.5*bestPhaseOffsets
+            bestDelays, bestPhaseOffsets = np.split(best, 2)
+            bestDelays = np.insert(bestDelays, ref_ant, 0.0)
+            bestPhaseOffsets = np.insert(bestPhaseOffsets, ref_ant, 0.0)
+            tempDelays += loop_gain*bestDelays
+            tempPhaseOffsets += loop_gain*bestPhaseOffsets
             
             valid = np.where( (np.abs(bestDelays) < 1e6) & (np.abs(bestPhaseOffsets) < 1e6) )[0]
             metric1 = (np.abs(bestDelays[valid])).max()
-- 
2.43.0


From 3460d273e0eca2a70dfab78c969330ab1a802914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:57 +0000
Subject: [PATCH 189/250] fix: catalog entries were not found by a name that
 the file has with a blank before it

---
 lsl/catalog.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/catalog.py b/lsl/catalog.py
index e424a42..b2e09c9 100644
--- a/lsl/catalog.py
+++ b/lsl/catalog.py
@@ -389,7 +389,7 @@ class PKS_Catalog(Catalog):
                 self.source_map[name] = entry
                 
                 if len(alias.strip()):
-                    alias = alias.rstrip()
+                    alias = alias.strip()
                     self.alias_map[alias] = entry
                     entry.alias_list.append(alias)
                     
@@ -453,11 +453,11 @@ class PKS90_Catalog(Catalog):
                 self.source_map[name] = entry
                 
                 if len(alias0.strip()): 
-                    alias = alias0.rstrip()
+                    alias = alias0.strip()
                     entry.alias_list.append(alias)
                     self.alias_map[alias] = entry
                 if len(alias1.strip()):
-                    alias = alias1.rstrip()
+                    alias = alias1.strip()
                     entry.alias_list.append(alias)
                     self.alias_map[alias] = entry
                     
-- 
2.43.0


From 455cfdafb195a90a16d4807c09519932ab940ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:58 +0000
Subject: [PATCH 190/250] fix: a pulsar with a malformed right ascension ended
 the reading of the catalog

---
 lsl/catalog.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lsl/catalog.py b/lsl/catalog.py
index b2e09c9..f473038 100644
--- a/lsl/catalog.py
+++ b/lsl/catalog.py
@@ -261,6 +261,7 @@ class PSR_Catalog(Catalog):
                     else:
                         LSL_LOGGER.debug(f"Bad format for RAJ line: {line}")
                         bad = True
+                        continue
                     raHours = int(raHours)
                     raMinutes = int(raMinutes)
                     raSeconds = float(raSeconds)
-- 
2.43.0


From 3d766105d1715975a3a383ac9a9ec38732bbf7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:58 +0000
Subject: [PATCH 191/250] fix: the power of a projected sky map was not that of
 the part of the sky of its pixels

---
 lsl/skymap.py | 558 +++++++++++++++++++++++++-------------------------
 1 file changed, 279 insertions(+), 279 deletions(-)

diff --git a/lsl/skymap.py b/lsl/skymap.py
index adbb664..9102a5c 100644
--- a/lsl/skymap.py
+++ b/lsl/skymap.py
@@ -1,279 +1,279 @@
-"""
-Classes and methods to model sky brightness and visibility.
-
-.. versionchanged:: 1.2.0
-    Removed the original SkyMap class that uses LFmap at 73.9 MHz
-    Updated SkyMapGSM to use the actual GSM rather than a fit to the GSM
-    Added a new SkyMapLFSM that uses the 5.1 degree resolution LFSM
-"""
-
-### This module handles the skymaps from the 74 MHz skymap.
-### David Munton, ARL:UT Jan 2007
-
-import os
-import abc
-import numpy as np
-
-from scipy.interpolate import interp1d
-
-from astropy.coordinates import FK5, EarthLocation, AltAz
-from astropy import units as astrounits
-from astropy.time import Time as AstroTime
-
-from lsl import astro
-from lsl.common.data_access import DataAccess
-
-
-
-__version__   = '0.5'
-__all__ = ['SkyMapBase', 'SkyMapBase', 'SkyMapGSM', 'SkyMapLFSM', 'ProjectedSkyMap']
-__author__    = 'J. York'
-__maintainer__ = 'Jayce Dowell'
-
-
-class SkyMapBase(object):
-    """
-    This code is the base class for the sky map. It takes as input a skymap file
-    name and frequency to which the skymap corresponds.  It has the following
-    methods:
-     * __init__ - takes the array coordinate filename as an input argument.
-     * normalize_power - Converts the skymap powers (in Kelvin radiated into 4 pi
-                         ster) into a power seen at the antenna.
-     * compute_total_power - Sums the power for all sources in the sky
-     * ScaleSourcePowerstoFrequency - Scales the skymap from the base 73.8 MHz to
-                                      the desired frequency.
-    """
-    
-    __metaclass__ = abc.ABCMeta
-    
-    # Class data 
-    degToRad = (np.pi/180.)             # Usual conversion factor
-    
-    def __init__(self, filename=None, freq_MHz=73.9):
-        self.filename = filename
-        self.freq_MHz = freq_MHz
-        self._power = None
-        
-        # Load in the coordinates and data
-        self._load()
-        
-    @abc.abstractmethod
-    def _load(self):
-        """
-        Load in the specified filename and populate the ra, dec, and _power
-        attributes.  This will be over-ridden in the skymap-specific subclasses.
-        """
-        
-        raise NotImplementedError
-        
-    def normalize_power(self):
-        """
-        Compute the skymap power (total power radiated into 4 pi steradians) into 
-        a power at antenna, based on pixel count.
-        """
-        
-        return self._power
-        
-    def compute_total_power(self):
-        """
-        Compute and return the total power from the sky.
-        """
-        
-        if len(self._power) == 0:
-            raise RuntimeError(f"{type(self).__name__} contains no data")
-        return self.normalize_power().sum()
-
-
-class SkyMapGSM(SkyMapBase):
-    """
-    Extension of the SkyMapBase class to use the Global Sky Model.
-    
-    For more information on the Global Sky Model, see: http://space.mit.edu/~angelica/gsm/index.html
-    
-    .. note:: This class uses a slightly different interpolation method than
-              the original GSM and introduces a few percent difference at 
-              74 MHz.
-    
-    .. versionchanged:: 1.2.0
-        Reworked the GSM model to use the actual GSM that has been 
-        downsampled to 64 sides rather than the fit.
-    """
-    
-    _input = os.path.join('skymap', 'gsm-408locked.npz')
-    
-    def __init__(self, filename=None, freq_MHz=73.9):
-        """
-        Initialize the SkyMapGSM object with an optional full file path to 
-        the skymap file.
-        """
-        
-        if filename is None:
-            filename = self._input
-        SkyMapBase.__init__(self, filename=filename, freq_MHz=freq_MHz)
-        
-    def _load(self):
-        # Since we are using a pre-computed GSM which is a NPZ file, read it
-        # in with numpy.load.
-        with DataAccess.open(self.filename, 'rb') as fh:
-            dataDict = np.load(fh)
-            
-            # RA and dec. are stored in the dictionary as radians
-            self.ra = dataDict['ra'].ravel() / self.degToRad
-            self.dec = dataDict['dec'].ravel() / self.degToRad
-            
-            # Compute the temperature for the current frequency
-            ## Load in the data
-            freqs = dataDict['freqs']
-            sigmas = dataDict['sigmas']
-            comps = dataDict['comps']
-            maps = dataDict['maps']
-            ## Build the scale and spectral component interpolation functions so that we can
-            ## move from the surveys to an arbitrary frequency.  This is done using cubic 
-            ## interpolation across log(freq)
-            scaleFunc = interp1d(np.log(freqs), np.log(sigmas), kind='cubic')
-            compFuncs = []
-            for i in range(comps.shape[1]):
-                compFuncs.append( interp1d(np.log(freqs), comps[:,i], kind='cubic') )
-            ## Actually create the realization by running the interplation and adding up the
-            ## compnent maps
-            output = maps[:,0]*0.0
-            for i,compFunc in enumerate(compFuncs):
-                output += compFunc(np.log(self.freq_MHz))*maps[:,i]
-            output *= np.exp(scaleFunc(np.log(self.freq_MHz)))
-            ## Save
-            self._power = output
-
-
-class SkyMapLFSM(SkyMapGSM):
-    """
-    Extension of the SkyMapBase class to use the Low Frequency Sky Model with 5.1
-    degree resolution.
-    
-    For more information on the Low Frequency Sky Model, see: https://lda10g.alliance.unm.edu/LWA1LowFrequencySkySurvey/
-    
-    .. versionadded:: 1.2.0
-    """
-    
-    _input = os.path.join('skymap', 'lfsm-5.1deg.npz')
-    
-    def __init__(self, filename=None, freq_MHz=73.9):
-        """
-        Initialize the SkyMapLFSM object with an optional full file path to 
-        the skymap file.
-        """
-        
-        if filename is None:
-            filename = self._input
-        SkyMapBase.__init__(self, filename=filename, freq_MHz=freq_MHz)
-        
-    def _load(self):
-        # Since we are using a pre-computed GSM which is a NPZ file, read it
-        # in with numpy.load.
-        with DataAccess.open(self.filename, 'rb') as fh:
-            dataDict = np.load(fh)
-            
-            # RA and dec. are stored in the dictionary as radians
-            self.ra = dataDict['ra'].ravel() / self.degToRad
-            self.dec = dataDict['dec'].ravel() / self.degToRad
-            
-            # Compute the temperature for the current frequency
-            ## Load in the data
-            freqs = dataDict['freqs']
-            sigmas = dataDict['sigmas']
-            comps = dataDict['comps']
-            maps = dataDict['maps']
-            ## Build the scale and spectral component interpolation functions so that we can
-            ## move from the surveys to an arbitrary frequency.  This is done using spline
-            ## interpolation for the scale factor and cubic for the 2-D structure.
-            ## interpolation across log(freq)
-            scaleFunc = interp1d(np.log(freqs), np.log(sigmas), kind='slinear')
-            compFuncs = []
-            for i in range(comps.shape[1]):
-                compFuncs.append( interp1d(np.log(freqs), comps[:,i], kind='cubic') )
-            ## Actually create the realization by running the interplation and adding up the
-            ## compnent maps
-            output = maps[:,0]*0.0
-            for i,compFunc in enumerate(compFuncs):
-                output += compFunc(np.log(self.freq_MHz))*maps[:,i]
-            output *= np.exp(scaleFunc(np.log(self.freq_MHz)))
-            ## Save
-            self._power = output
-
-
-class ProjectedSkyMap(object):
-    """
-    The class for handling the model sky brightness maps over a particular site.
-    This code is the base class for the sky map visible at a specific location. It
-    takes as input a skymap file name and frequency to which the skymap corresponds.
-    It inherits from class SkyMap. It has the following methods:
-     1. __init__ - takes the array coordinate filename as an input argument.
-     2. get_direction_cosines - Computes the direction cosines
-     3. compute_visibile_power - Sums the power for all visible sources in
-        the sky.
-    """
-    
-    def __init__(self, skymap_object, lat, lon, utc_jd):
-        """
-        Initialize the skymap at input lat,lon (decimal degrees) and time (in 
-        UTC julian day).
-        """
-        
-        self.skymap_object = skymap_object
-        
-        assert  -90 <= lat <=  90, ValueError(f"lat = {lat:g} not in [-90,90]")
-        assert -360 <= lon <= 360, ValueError(f"lon = {lon:g} not in [-360,360]")
-        self.lat  = lat
-        self.lon  = lon
-        self.time = utc_jd
-        
-        # Compute the ra and dec locations to a altitude and azimuth. This requires a lat/lon and a time (UTC).
-        # Alt and Az are compressed to show only the visible source.
-        sc = FK5(ra=self.skymap_object.ra*astrounits.deg, dec=self.skymap_object.dec*astrounits.deg, equinox='J2000')
-        el = EarthLocation.from_geodetic(lon*astrounits.deg, lat*astrounits.deg, height=0*astrounits.m)
-        aa = AltAz(location=el, obstime=AstroTime(utc_jd, format='jd', scale='utc'))
-        tc = sc.transform_to(aa)
-        self.alt = tc.alt.to('deg').value
-        self.az = tc.az.to('deg').value
-        
-        # Compress the az/alt so that only the visible sources are available. "
-        visibleMask = self.alt > 0.0
-        
-        #Compress arrays to hide non-visible sources
-        self.visibleAlt = np.compress(visibleMask, self.alt)
-        self.visibleAz = np.compress(visibleMask, self.az)
-        self.visiblePower = np.compress(visibleMask, self.skymap_object._power)
-        try:
-            pixelSolidAngle = (2.0 * np.pi)**2/(self.skymap_object.numPixelsX*self.skymap_object.numPixelsY)
-        except AttributeError:
-            pixelSolidAngle = 2.5566346e-4
-        fractionSolidAngle = (1.0/4.0*np.pi) * pixelSolidAngle
-        
-        # The cosine term is the projection of the receiving area onto the direction 
-        # of the source
-        normalizedPower = self.skymap_object.normalize_power() * fractionSolidAngle  
-        self.visibleNormalizedPower = np.compress(visibleMask, normalizedPower)
-        #self.visibleNormalizedPower = self.visiblePower*np.cos(self.visibleAlt * self.skymap_object.degToRad)
-        self.visibleRa = np.compress(visibleMask, self.skymap_object.ra)
-        self.visibleDec = np.compress(visibleMask, self.skymap_object.dec)
-        
-    def get_direction_cosines(self):
-        """
-        Compute the direction cosines and return the tuple of arrays (l,m,n).
-        """
-        
-        altRad = self.visibleAlt*self.skymap_object.degToRad
-        azRad = self.visibleAz*self.skymap_object.degToRad
-        l = np.cos(altRad)*np.sin(azRad)
-        m = np.cos(altRad)*np.cos(azRad)
-        n = np.sin(altRad)
-        return (l, m, n)
-        
-    def compute_visible_power(self):
-        """
-        Compute and return the total power from visible portion of the sky.
-        """
-        
-        if len(self.visibleNormalizedPower) == 0:
-            raise RuntimeError("%s contains no data" % type(self).__name__)
-        totalVisiblePower = sum(self.visibleNormalizedPower)
-        return totalVisiblePower
+"""
+Classes and methods to model sky brightness and visibility.
+
+.. versionchanged:: 1.2.0
+    Removed the original SkyMap class that uses LFmap at 73.9 MHz
+    Updated SkyMapGSM to use the actual GSM rather than a fit to the GSM
+    Added a new SkyMapLFSM that uses the 5.1 degree resolution LFSM
+"""
+
+### This module handles the skymaps from the 74 MHz skymap.
+### David Munton, ARL:UT Jan 2007
+
+import os
+import abc
+import numpy as np
+
+from scipy.interpolate import interp1d
+
+from astropy.coordinates import FK5, EarthLocation, AltAz
+from astropy import units as astrounits
+from astropy.time import Time as AstroTime
+
+from lsl import astro
+from lsl.common.data_access import DataAccess
+
+
+
+__version__   = '0.5'
+__all__ = ['SkyMapBase', 'SkyMapBase', 'SkyMapGSM', 'SkyMapLFSM', 'ProjectedSkyMap']
+__author__    = 'J. York'
+__maintainer__ = 'Jayce Dowell'
+
+
+class SkyMapBase(object):
+    """
+    This code is the base class for the sky map. It takes as input a skymap file
+    name and frequency to which the skymap corresponds.  It has the following
+    methods:
+     * __init__ - takes the array coordinate filename as an input argument.
+     * normalize_power - Converts the skymap powers (in Kelvin radiated into 4 pi
+                         ster) into a power seen at the antenna.
+     * compute_total_power - Sums the power for all sources in the sky
+     * ScaleSourcePowerstoFrequency - Scales the skymap from the base 73.8 MHz to
+                                      the desired frequency.
+    """
+    
+    __metaclass__ = abc.ABCMeta
+    
+    # Class data 
+    degToRad = (np.pi/180.)             # Usual conversion factor
+    
+    def __init__(self, filename=None, freq_MHz=73.9):
+        self.filename = filename
+        self.freq_MHz = freq_MHz
+        self._power = None
+        
+        # Load in the coordinates and data
+        self._load()
+        
+    @abc.abstractmethod
+    def _load(self):
+        """
+        Load in the specified filename and populate the ra, dec, and _power
+        attributes.  This will be over-ridden in the skymap-specific subclasses.
+        """
+        
+        raise NotImplementedError
+        
+    def normalize_power(self):
+        """
+        Compute the skymap power (total power radiated into 4 pi steradians) into 
+        a power at antenna, based on pixel count.
+        """
+        
+        return self._power
+        
+    def compute_total_power(self):
+        """
+        Compute and return the total power from the sky.
+        """
+        
+        if len(self._power) == 0:
+            raise RuntimeError(f"{type(self).__name__} contains no data")
+        return self.normalize_power().sum()
+
+
+class SkyMapGSM(SkyMapBase):
+    """
+    Extension of the SkyMapBase class to use the Global Sky Model.
+    
+    For more information on the Global Sky Model, see: http://space.mit.edu/~angelica/gsm/index.html
+    
+    .. note:: This class uses a slightly different interpolation method than
+              the original GSM and introduces a few percent difference at 
+              74 MHz.
+    
+    .. versionchanged:: 1.2.0
+        Reworked the GSM model to use the actual GSM that has been 
+        downsampled to 64 sides rather than the fit.
+    """
+    
+    _input = os.path.join('skymap', 'gsm-408locked.npz')
+    
+    def __init__(self, filename=None, freq_MHz=73.9):
+        """
+        Initialize the SkyMapGSM object with an optional full file path to 
+        the skymap file.
+        """
+        
+        if filename is None:
+            filename = self._input
+        SkyMapBase.__init__(self, filename=filename, freq_MHz=freq_MHz)
+        
+    def _load(self):
+        # Since we are using a pre-computed GSM which is a NPZ file, read it
+        # in with numpy.load.
+        with DataAccess.open(self.filename, 'rb') as fh:
+            dataDict = np.load(fh)
+            
+            # RA and dec. are stored in the dictionary as radians
+            self.ra = dataDict['ra'].ravel() / self.degToRad
+            self.dec = dataDict['dec'].ravel() / self.degToRad
+            
+            # Compute the temperature for the current frequency
+            ## Load in the data
+            freqs = dataDict['freqs']
+            sigmas = dataDict['sigmas']
+            comps = dataDict['comps']
+            maps = dataDict['maps']
+            ## Build the scale and spectral component interpolation functions so that we can
+            ## move from the surveys to an arbitrary frequency.  This is done using cubic 
+            ## interpolation across log(freq)
+            scaleFunc = interp1d(np.log(freqs), np.log(sigmas), kind='cubic')
+            compFuncs = []
+            for i in range(comps.shape[1]):
+                compFuncs.append( interp1d(np.log(freqs), comps[:,i], kind='cubic') )
+            ## Actually create the realization by running the interplation and adding up the
+            ## compnent maps
+            output = maps[:,0]*0.0
+            for i,compFunc in enumerate(compFuncs):
+                output += compFunc(np.log(self.freq_MHz))*maps[:,i]
+            output *= np.exp(scaleFunc(np.log(self.freq_MHz)))
+            ## Save
+            self._power = output
+
+
+class SkyMapLFSM(SkyMapGSM):
+    """
+    Extension of the SkyMapBase class to use the Low Frequency Sky Model with 5.1
+    degree resolution.
+    
+    For more information on the Low Frequency Sky Model, see: https://lda10g.alliance.unm.edu/LWA1LowFrequencySkySurvey/
+    
+    .. versionadded:: 1.2.0
+    """
+    
+    _input = os.path.join('skymap', 'lfsm-5.1deg.npz')
+    
+    def __init__(self, filename=None, freq_MHz=73.9):
+        """
+        Initialize the SkyMapLFSM object with an optional full file path to 
+        the skymap file.
+        """
+        
+        if filename is None:
+            filename = self._input
+        SkyMapBase.__init__(self, filename=filename, freq_MHz=freq_MHz)
+        
+    def _load(self):
+        # Since we are using a pre-computed GSM which is a NPZ file, read it
+        # in with numpy.load.
+        with DataAccess.open(self.filename, 'rb') as fh:
+            dataDict = np.load(fh)
+            
+            # RA and dec. are stored in the dictionary as radians
+            self.ra = dataDict['ra'].ravel() / self.degToRad
+            self.dec = dataDict['dec'].ravel() / self.degToRad
+            
+            # Compute the temperature for the current frequency
+            ## Load in the data
+            freqs = dataDict['freqs']
+            sigmas = dataDict['sigmas']
+            comps = dataDict['comps']
+            maps = dataDict['maps']
+            ## Build the scale and spectral component interpolation functions so that we can
+            ## move from the surveys to an arbitrary frequency.  This is done using spline
+            ## interpolation for the scale factor and cubic for the 2-D structure.
+            ## interpolation across log(freq)
+            scaleFunc = interp1d(np.log(freqs), np.log(sigmas), kind='slinear')
+            compFuncs = []
+            for i in range(comps.shape[1]):
+                compFuncs.append( interp1d(np.log(freqs), comps[:,i], kind='cubic') )
+            ## Actually create the realization by running the interplation and adding up the
+            ## compnent maps
+            output = maps[:,0]*0.0
+            for i,compFunc in enumerate(compFuncs):
+                output += compFunc(np.log(self.freq_MHz))*maps[:,i]
+            output *= np.exp(scaleFunc(np.log(self.freq_MHz)))
+            ## Save
+            self._power = output
+
+
+class ProjectedSkyMap(object):
+    """
+    The class for handling the model sky brightness maps over a particular site.
+    This code is the base class for the sky map visible at a specific location. It
+    takes as input a skymap file name and frequency to which the skymap corresponds.
+    It inherits from class SkyMap. It has the following methods:
+     1. __init__ - takes the array coordinate filename as an input argument.
+     2. get_direction_cosines - Computes the direction cosines
+     3. compute_visibile_power - Sums the power for all visible sources in
+        the sky.
+    """
+    
+    def __init__(self, skymap_object, lat, lon, utc_jd):
+        """
+        Initialize the skymap at input lat,lon (decimal degrees) and time (in 
+        UTC julian day).
+        """
+        
+        self.skymap_object = skymap_object
+        
+        assert  -90 <= lat <=  90, ValueError(f"lat = {lat:g} not in [-90,90]")
+        assert -360 <= lon <= 360, ValueError(f"lon = {lon:g} not in [-360,360]")
+        self.lat  = lat
+        self.lon  = lon
+        self.time = utc_jd
+        
+        # Compute the ra and dec locations to a altitude and azimuth. This requires a lat/lon and a time (UTC).
+        # Alt and Az are compressed to show only the visible source.
+        sc = FK5(ra=self.skymap_object.ra*astrounits.deg, dec=self.skymap_object.dec*astrounits.deg, equinox='J2000')
+        el = EarthLocation.from_geodetic(lon*astrounits.deg, lat*astrounits.deg, height=0*astrounits.m)
+        aa = AltAz(location=el, obstime=AstroTime(utc_jd, format='jd', scale='utc'))
+        tc = sc.transform_to(aa)
+        self.alt = tc.alt.to('deg').value
+        self.az = tc.az.to('deg').value
+        
+        # Compress the az/alt so that only the visible sources are available. "
+        visibleMask = self.alt > 0.0
+        
+        #Compress arrays to hide non-visible sources
+        self.visibleAlt = np.compress(visibleMask, self.alt)
+        self.visibleAz = np.compress(visibleMask, self.az)
+        self.visiblePower = np.compress(visibleMask, self.skymap_object._power)
+        try:
+            pixelSolidAngle = (2.0 * np.pi)**2/(self.skymap_object.numPixelsX*self.skymap_object.numPixelsY)
+        except AttributeError:
+            pixelSolidAngle = 4.0 * np.pi / len(self.skymap_object.ra)
+        fractionSolidAngle = 1.0/(4.0*np.pi) * pixelSolidAngle
+        
+        # The cosine term is the projection of the receiving area onto the direction 
+        # of the source
+        normalizedPower = self.skymap_object.normalize_power() * fractionSolidAngle  
+        self.visibleNormalizedPower = np.compress(visibleMask, normalizedPower)
+        #self.visibleNormalizedPower = self.visiblePower*np.cos(self.visibleAlt * self.skymap_object.degToRad)
+        self.visibleRa = np.compress(visibleMask, self.skymap_object.ra)
+        self.visibleDec = np.compress(visibleMask, self.skymap_object.dec)
+        
+    def get_direction_cosines(self):
+        """
+        Compute the direction cosines and return the tuple of arrays (l,m,n).
+        """
+        
+        altRad = self.visibleAlt*self.skymap_object.degToRad
+        azRad = self.visibleAz*self.skymap_object.degToRad
+        l = np.cos(altRad)*np.sin(azRad)
+        m = np.cos(altRad)*np.cos(azRad)
+        n = np.sin(altRad)
+        return (l, m, n)
+        
+    def compute_visible_power(self):
+        """
+        Compute and return the total power from visible portion of the sky.
+        """
+        
+        if len(self.visibleNormalizedPower) == 0:
+            raise RuntimeError("%s contains no data" % type(self).__name__)
+        totalVisiblePower = sum(self.visibleNormalizedPower)
+        return totalVisiblePower
-- 
2.43.0


From 33842c3e5d1332d06965a2d4abe4dbbd860ec6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:49 +0000
Subject: [PATCH 192/250] fix: the last digits of the positions in the PKS90
 catalog were cut off

---
 lsl/catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/catalog.py b/lsl/catalog.py
index f473038..05e98c3 100644
--- a/lsl/catalog.py
+++ b/lsl/catalog.py
@@ -434,11 +434,11 @@ class PKS90_Catalog(Catalog):
                     alias1 = line[168:175]
                     raHours = int(line[10:12])
                     raMinutes = int(line[13:15])
-                    raSeconds = float(line[16:20])
+                    raSeconds = float(line[16:23])
                     decSign = line[23]
                     decDegrees = int(line[24:26])
                     decMinutes = int(line[27:29])
-                    decSeconds = float(line[30:34])
+                    decSeconds = float(line[30:35])
                 except ValueError:
                     raise RuntimeError(f"file {fileName}, line {lineNum} incorrectly formated [{line}]")
                     
-- 
2.43.0


From 3c71e74865769c010198f1109cca6284ad65b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:05 +0000
Subject: [PATCH 193/250] fix: the altitude of a beam response given as an
 ephem.Angle was taken for degrees

---
 lsl/sim/beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/sim/beam.py b/lsl/sim/beam.py
index 18ac994..f55af94 100644
--- a/lsl/sim/beam.py
+++ b/lsl/sim/beam.py
@@ -248,7 +248,7 @@ def mueller_matrix(model, az, alt, frequency=74e6, degrees=True):
     
     if isinstance(alt, AstroAngle):
         alt = alt.deg
-    elif isinstance(az, ephem.Angle) or not degrees:
+    elif isinstance(alt, ephem.Angle) or not degrees:
         alt = alt * 180/np.pi
         
     is_1d = False
@@ -352,7 +352,7 @@ def beam_response(model, pol, az, alt, frequency=74e6, degrees=True):
     
     if isinstance(alt, AstroAngle):
         alt = alt.deg
-    elif isinstance(az, ephem.Angle) or not degrees:
+    elif isinstance(alt, ephem.Angle) or not degrees:
         alt = alt * 180/np.pi
         
     is_1d = False
-- 
2.43.0


From 9a845ee9ef09c42ff2f79ddfc8117abf71da0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:05 +0000
Subject: [PATCH 194/250] fix: the Stokes V response of the dipole models was
 always zero

---
 lsl/sim/beam.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/sim/beam.py b/lsl/sim/beam.py
index f55af94..d3c9e10 100644
--- a/lsl/sim/beam.py
+++ b/lsl/sim/beam.py
@@ -301,8 +301,8 @@ def _compute_from_feeds(pol, XE, XH, YE, YH):
         return _compute_from_feeds('XY', XE, XH, YE, YH) \
                + _compute_from_feeds('YX', XE, XH, YE, YH)
     elif pol == 'V':
-        return _compute_from_feeds('XY', XE, XH, YE, YH) \
-               - _compute_from_feeds('YX', XE, XH, YE, YH)
+        return 1j*(_compute_from_feeds('XY', XE, XH, YE, YH) \
+                   - _compute_from_feeds('YX', XE, XH, YE, YH))
     else:
         raise ValueError(f"Unknown polarization produce '{pol}'")
 
-- 
2.43.0


From 7f2aef7d1da75ea59e5b313bfde8223d5a4ad802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:05 +0000
Subject: [PATCH 195/250] fix: the dipole models were normalized by the field
 of the largest real part, phase included

---
 lsl/sim/beam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/beam.py b/lsl/sim/beam.py
index d3c9e10..ee1d838 100644
--- a/lsl/sim/beam.py
+++ b/lsl/sim/beam.py
@@ -145,7 +145,7 @@ def _load_response_full(frequency, model='nec_004'):
             mflds = h[f"{pol.upper()}-pol_Efields"]
             E = mflds['Etheta(Mag)'][best,:,:maz.size]*np.exp(1j*mflds['Etheta(Phase)'][best,:,:maz.size])
             H = mflds['Ephi(Mag)'][best,:,:maz.size]*np.exp(1j*mflds['Ephi(Phase)'][best,:,:maz.size])
-            s = max([E.max(), H.max()])
+            s = max([np.abs(E).max(), np.abs(H).max()])
             E /= s
             H /= s
             
-- 
2.43.0


From 312576d2795a58925207d303939613fbed8e6c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:05 +0000
Subject: [PATCH 196/250] fix: the phase of complex NEC radiation patterns was
 converted the wrong way

---
 lsl/sim/necutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/necutils.py b/lsl/sim/necutils.py
index 94577cb..93c8270 100644
--- a/lsl/sim/necutils.py
+++ b/lsl/sim/necutils.py
@@ -322,7 +322,7 @@ class NECPattern:
             powgain = float(cols[4])
             phsgain = float(cols[6])
             self.antenna_pat_dB[phi,theta] = powgain
-            self.antenna_pat_complex[phi,theta] = 10**(powgain/10.0)*np.exp(1j*phsgain*180/np.pi)
+            self.antenna_pat_complex[phi,theta] = 10**(powgain/10.0)*np.exp(1j*phsgain*np.pi/180)
             n += 1
             
     def _read_excitation(self, fh):
-- 
2.43.0


From fd5cd6da329cf4956813983a237e68123c434cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:05 +0000
Subject: [PATCH 197/250] fix: the frequency of a NEC card with blanks after
 its commas was put in the wrong field

---
 lsl/sim/necutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/necutils.py b/lsl/sim/necutils.py
index 93c8270..f9fd849 100644
--- a/lsl/sim/necutils.py
+++ b/lsl/sim/necutils.py
@@ -95,7 +95,7 @@ def change_nec_freq(necname, freq):
         for i in range(len(lines)):
             if lines[i][:2] == 'FR':
                 LSL_LOGGER.debug(f"Found line: {lines[i]}")
-                vals = re.split(',| +', lines[i])
+                vals = re.split(' *, *| +', lines[i])
                 LSL_LOGGER.debug(f"Vals = {vals}")
                 vals[5] = "%.2f" % freq
                 lines[i] = " ".join(vals)
-- 
2.43.0


From f64a4db2f93715b785125643902886890a587146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:05 +0000
Subject: [PATCH 198/250] fix: a NEC pattern without an output file and without
 a run raised UnboundLocalError

---
 lsl/sim/necutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/sim/necutils.py b/lsl/sim/necutils.py
index f9fd849..c0cddaf 100644
--- a/lsl/sim/necutils.py
+++ b/lsl/sim/necutils.py
@@ -270,8 +270,9 @@ class NECPattern:
                     raise ValueError("NEC failed to generate a file with the correct frequency.")
                     
             else:
-                if fh is not None:
-                    fh.close()
+                if fh is None:
+                    raise ValueError(f"NEC output file '{outname}' cannot be read")
+                fh.close()
                 raise ValueError(f"NEC output file is at a different frequency ({filefreq}) than the requested frequency ({freq}).")
                     
         #  Now look for RADIATION PATTERN or EXCITATION and read it
-- 
2.43.0


From 88ebf4522d41db1bcba6501e7d7447b6209c0003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:58 +0000
Subject: [PATCH 199/250] fix: the time of day was lost from the epoch of the
 magnetic field

---
 lsl/misc/ionosphere/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/ionosphere/__init__.py b/lsl/misc/ionosphere/__init__.py
index 6c060de..397d261 100644
--- a/lsl/misc/ionosphere/__init__.py
+++ b/lsl/misc/ionosphere/__init__.py
@@ -237,7 +237,7 @@ def get_magnetic_field(lat, lng, elev, mjd=None, ecef=False):
     mpm = int((mjd - int(mjd))*24.0*3600.0*1000.0)
     mjd0 = mjdmpm_to_datetime(int(mjd), mpm)
     ## Convert the datetime instance to January 1
-    mjd0 = mjd0.replace(month=1, day=1, hour=0, second=0, microsecond=0)
+    mjd0 = mjd0.replace(month=1, day=1, hour=0, minute=0, second=0, microsecond=0)
     ## Figure out January 1 for the following year
     mjd1 = mjd0.replace(year=mjd0.year+1)
     ## Figure out how long the year is in days
@@ -245,7 +245,7 @@ def get_magnetic_field(lat, lng, elev, mjd=None, ecef=False):
     diffDays = diffDays.days + diffDays.seconds/86400.0 + diffDays.microseconds/1e6/86400.0
     ## Convert the January 1 date back to an MJD
     mjd0, mpm0 = datetime_to_mjdmpm(mjd0)
-    mjd0 = mjd0 + mpm/1000.0/3600.0/24.0
+    mjd0 = mjd0 + mpm0/1000.0/3600.0/24.0
     year = (mjd1.year - 1) + (mjd - mjd0) / diffDays
     
     # Convert the geodetic position provided to a geocentric one for calculation
-- 
2.43.0


From 3dabf18795f8baabeaab150636e43c32600853bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:58 +0000
Subject: [PATCH 200/250] fix: the magnetic field more than five years after
 the last model raised IndexError

---
 lsl/misc/ionosphere/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/ionosphere/__init__.py b/lsl/misc/ionosphere/__init__.py
index 397d261..497c952 100644
--- a/lsl/misc/ionosphere/__init__.py
+++ b/lsl/misc/ionosphere/__init__.py
@@ -119,7 +119,9 @@ def _compute_igrf_coefficents(year, coeffs):
     # Figure out the closest model point(s) to the requested year taking into
     # account that a new model comes out every five years
     best = np.where( np.abs(year - np.array(coeffs['years'])) < 5 )[0]
-    
+    if year > max(coeffs['years']):
+        best = [np.argmax(coeffs['years']),]
+        
     if year < min(coeffs['years']):
         # If the requested year is before 1900 we can't do anything
         raise RuntimeError(f"Invalid year {year}")
-- 
2.43.0


From ba0107d4180419c5aa487221fbbf5895462ddb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:58 +0000
Subject: [PATCH 201/250] fix: ionospheric pierce points for azimuths outside
 of 0 to 360 degrees and near the poles were wrong

---
 lsl/misc/ionosphere/__init__.py | 56 +++++++++++----------------------
 1 file changed, 19 insertions(+), 37 deletions(-)

diff --git a/lsl/misc/ionosphere/__init__.py b/lsl/misc/ionosphere/__init__.py
index 497c952..e015e17 100644
--- a/lsl/misc/ionosphere/__init__.py
+++ b/lsl/misc/ionosphere/__init__.py
@@ -16,12 +16,12 @@ try:
     from scipy.misc import factorial
 except ImportError:
     from scipy.special import factorial
-from scipy.optimize import fmin
+from scipy.optimize import brentq
 from scipy.interpolate import RectBivariateSpline
 
 from astropy.coordinates import Angle as AstroAngle
 
-from lsl.common.stations import geo_to_ecef
+from lsl.common.stations import geo_to_ecef, ecef_to_geo
 from lsl.common.data_access import DataAccess
 from lsl.common.mcs import mjdmpm_to_datetime, datetime_to_mjdmpm
 from lsl.common.color import colorfy
@@ -507,39 +507,6 @@ def get_ionospheric_pierce_point(site, az, el, height=450e3):
     positive), and elevation (meters).
     """
     
-    # Create the various functions we need to figure out this optimization 
-    # problem.  Maybe there is a better way to do this.
-    
-    ## Function that takes in a two-element tuple of latitude and longitude
-    ## and returns the azimuth and elevation relative to the observer assuming
-    ## a particular height.
-    def func(params, xdata, site=site, elev=height):
-        lat,lon = params
-        
-        az,el,d = site.get_pointing_and_distance((lat, lon, elev))
-        az %= (2*np.pi)
-        
-        az *= 180/np.pi
-        el *= 180/np.pi
-        
-        return np.array([az, el])
-        
-    ## Error function that computes the difference between the input and the 
-    ## model used in func().
-    def err(params, ydata, xdata):
-        return ydata - func(params, xdata)
-        
-    ## Secondary error function that computes a sum(err**2) that can be used
-    ## with scipy.optimize.fmin()
-    def err2(params, ydata, xdata):
-        return (err(params, ydata, xdata)**2).sum()
-        
-    # Initial conditions for the optimization - we start directly overhead
-    lat = site.lat * 180/np.pi
-    lon = site.lon * 180/np.pi
-    elev = site.elev + height
-    x0 = (lat, lon)
-    
     # Convert
     if isinstance(az, AstroAngle):
         az = az.deg
@@ -551,8 +518,23 @@ def get_ionospheric_pierce_point(site, az, el, height=450e3):
     elif isinstance(el, ephem.Angle):
         el = el * 180/np.pi
         
-    # Optimize
-    output = fmin(err2, x0, args=(np.array([az, el]), []), disp=False)
+    # Find the direction to look in from the site in ECEF
+    az = az * np.pi/180
+    el = el * np.pi/180
+    lat, lon = float(site.lat), float(site.lon)
+    xyz = np.array(geo_to_ecef(lat, lon, site.elev))
+    east = np.array([-np.sin(lon), np.cos(lon), 0.0])
+    north = np.array([-np.sin(lat)*np.cos(lon), -np.sin(lat)*np.sin(lon), np.cos(lat)])
+    up = np.array([np.cos(lat)*np.cos(lon), np.cos(lat)*np.sin(lon), np.sin(lat)])
+    look = np.cos(el)*(np.sin(az)*east + np.cos(az)*north) + np.sin(el)*up
+    
+    # Find where along that direction we reach the specified height
+    def err(d):
+        return ecef_to_geo(*(xyz + d*look))[2] - height
+        
+    d = brentq(err, 0.0, 3.0*np.sqrt((xyz**2).sum()) + 2.0*height, xtol=1e-3)
+    output = ecef_to_geo(*(xyz + d*look))
+    output = (output[0]*180/np.pi, output[1]*180/np.pi)
     LSL_LOGGER.debug(f"Ionospheric pierce point: lat={output[0]:.4f} deg, lon={output[1]:.4f} deg, height={height:.0f} m")
 
     # Done
-- 
2.43.0


From 392b51f964fda7dbb504a0735a469ef97dd148a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:59 +0000
Subject: [PATCH 202/250] fix: TEC values between maps closer than the nominal
 cadence were interpolated over more than the neighboring maps

---
 lsl/misc/ionosphere/__init__.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lsl/misc/ionosphere/__init__.py b/lsl/misc/ionosphere/__init__.py
index e015e17..2483980 100644
--- a/lsl/misc/ionosphere/__init__.py
+++ b/lsl/misc/ionosphere/__init__.py
@@ -461,6 +461,17 @@ def get_tec_value(mjd, lat=None, lng=None, include_rms=False, type='IGS'):
         # account that a new model is generated every two hours
         best = np.where( np.abs((tecMap['dates']-mjd)) < 2/24.0 )[0]
         
+    # Narrow that down to the last map before and the first map after
+    best = np.array(sorted(best, key=lambda x: tecMap['dates'][x]))
+    before = best[np.where( tecMap['dates'][best] <= mjd )[0]]
+    after = best[np.where( tecMap['dates'][best] >= mjd )[0]]
+    if len(before) > 0 and len(after) > 0:
+        best = [before[-1], after[0]]
+    elif len(before) > 0:
+        best = [before[-1],]
+    else:
+        best = [after[0],]
+        
     # Interpolate in time
     ## TEC
     slope = tecMap['tec'][best[-1],:,:] - tecMap['tec'][best[0],:,:]
-- 
2.43.0


From 329f041f56bf42319b31e386f6ca5a8e1d81ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:59 +0000
Subject: [PATCH 203/250] fix: TEC values at longitudes outside of the range of
 the map were those of its edge

---
 lsl/misc/ionosphere/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsl/misc/ionosphere/__init__.py b/lsl/misc/ionosphere/__init__.py
index 2483980..3d56a8c 100644
--- a/lsl/misc/ionosphere/__init__.py
+++ b/lsl/misc/ionosphere/__init__.py
@@ -492,6 +492,10 @@ def get_tec_value(mjd, lat=None, lng=None, include_rms=False, type='IGS'):
         
     # Interpolate in location, if desired
     if lat is not None and lng is not None:
+        ## Move to the longitude range that is used by the map
+        center = (float(tecMap['lngs'][0,0]) + float(tecMap['lngs'][0,-1])) / 2.0
+        lng = (np.asarray(lng) - center + 180.0) % 360.0 - 180.0 + center
+        
         ## TEC
         interpFunction = RectBivariateSpline(tecMap['lats'][::-1,0], tecMap['lngs'][0,:], tec[::-1,:], kx=1, ky=1)
         tec = interpFunction(lat, lng)
-- 
2.43.0


From cd7eb375dee7020d249bf0d9c5989689c9e06ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:59 +0000
Subject: [PATCH 204/250] fix: the exponent of the values in IONEX files was
 ignored

---
 lsl/misc/ionosphere/_utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lsl/misc/ionosphere/_utils.py b/lsl/misc/ionosphere/_utils.py
index 4a4aecc..6a77a59 100644
--- a/lsl/misc/ionosphere/_utils.py
+++ b/lsl/misc/ionosphere/_utils.py
@@ -194,6 +194,9 @@ def _parse_tec_map(filename_or_fh):
     tecMaps = []
     rmsMaps = []
     
+    # Exponent of the values, -1 by default
+    exponent = -1
+    
     # State control variables to help keep up with where we are
     inMap = False
     inBlock = False
@@ -210,8 +213,13 @@ def _parse_tec_map(filename_or_fh):
             except AttributeError:
                 pass
                 
-            ## Are we beginning a map?
+            ## Is this the exponent that the following values use?
             line = line.replace('\n', '')
+            if line[60:].strip() == 'EXPONENT':
+                exponent = int(line[:6])
+                continue
+                
+            ## Are we beginning a map?
             if line.find('START OF TEC MAP') != -1 or line.find('START OF RMS MAP') != -1:
                 inMap = True
                 continue
@@ -278,8 +286,9 @@ def _parse_tec_map(filename_or_fh):
                 ## Process the data block keeping in mind that missing values are stored 
                 ## as 9999
                 if inBlock:
-                    fields = np.array([float(v)/10.0 for v in line.split(None)])
-                    fields[np.where( fields == 999.9 )] = np.nan
+                    fields = np.array([float(v) for v in line.split(None)])
+                    fields[np.where( fields == 9999 )] = np.nan
+                    fields *= 10.0**exponent
                     
                     cmap[-1].extend( fields )
                     continue
-- 
2.43.0


From 55262e48f61a7838e7c0ab412643e35f6783786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:59 +0000
Subject: [PATCH 205/250] fix: IONEX longitude grids could get a point too many
 from rounding

---
 lsl/misc/ionosphere/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/ionosphere/_utils.py b/lsl/misc/ionosphere/_utils.py
index 6a77a59..0b21436 100644
--- a/lsl/misc/ionosphere/_utils.py
+++ b/lsl/misc/ionosphere/_utils.py
@@ -278,7 +278,7 @@ def _parse_tec_map(filename_or_fh):
                     
                     cmap.append( [] )
                     lats.append( lat )
-                    lngs = list(np.arange(lng1, lng2+dlng, dlng))
+                    lngs = list(lng1 + dlng*np.arange(int(round((lng2-lng1)/dlng))+1))
                     
                     inBlock = True
                     continue
-- 
2.43.0


From d9d22682afbfe63b6d84da5b123501580d5133fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:59 +0000
Subject: [PATCH 206/250] fix: TEC files that could not be uncompressed stayed
 in the cache

---
 lsl/misc/ionosphere/_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lsl/misc/ionosphere/_utils.py b/lsl/misc/ionosphere/_utils.py
index 0b21436..cedad99 100644
--- a/lsl/misc/ionosphere/_utils.py
+++ b/lsl/misc/ionosphere/_utils.py
@@ -55,8 +55,7 @@ def _convert_to_gzip(filename):
     
     # Load in the file
     with _CACHE_DIR.open(filename, 'rb') as fh:
-        cached_filename = fh.name
-        uncompressed = subprocess.check_output(['gzip', '-d', '-c', cached_filename])
+        uncompressed = subprocess.check_output(['gzip', '-d', '-c'], input=fh.read())
         
     # Write it back out
     with _CACHE_DIR.open(filename, 'wb') as fh:
@@ -152,8 +151,8 @@ def _download_worker_standard(url, filename):
             
         status = True
         
-    except RuntimeError:
-        # Failed to download, remove the empty file
+    except (RuntimeError, subprocess.CalledProcessError):
+        # Failed to download, remove the empty or unusable file
         _CACHE_DIR.remove(filename)
         
     return status
-- 
2.43.0


From d1e615a66d5c96e2cc725ff780dfc4295b6c838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:59 +0000
Subject: [PATCH 207/250] fix: the USTEC uncertainties were only interpolated
 for square maps

---
 lsl/misc/ionosphere/_ustec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/ionosphere/_ustec.py b/lsl/misc/ionosphere/_ustec.py
index 8d17923..cd18b20 100644
--- a/lsl/misc/ionosphere/_ustec.py
+++ b/lsl/misc/ionosphere/_ustec.py
@@ -178,7 +178,7 @@ def _parse_ustec_individual(filename_or_fh, rmsname_or_fh=None):
         interpFunction = RectBivariateSpline(rlats, rlngs, rdata, kx=1, ky=1)
         rms = data*0.0
         for i in range(lats.shape[0]):
-            for j in range(lats.shape[0]):
+            for j in range(lats.shape[1]):
                 rms[i,j] = interpFunction(lats[i,j], lngs[i,j])[0,0]
     else:
         ## Sadness, no RMS file found...
-- 
2.43.0


From 7f7ca9c1ed09a71543484809f24d9d1d7abadafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:59 +0000
Subject: [PATCH 208/250] fix: the GloTEC file of the next day was downloaded
 within half a second of midnight

---
 lsl/misc/ionosphere/_glotec.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lsl/misc/ionosphere/_glotec.py b/lsl/misc/ionosphere/_glotec.py
index dbe07a1..36c9520 100644
--- a/lsl/misc/ionosphere/_glotec.py
+++ b/lsl/misc/ionosphere/_glotec.py
@@ -33,10 +33,7 @@ def _download(mjd, type='final'):
     # and the day-of-year
     mpm = int((mjd - int(mjd))*24.0*3600.0*1000)
     dt = mjdmpm_to_datetime(int(mjd), mpm)
-    if dt.microsecond > 500000:
-        dt = dt.replace(microsecond=0)
-        dt += timedelta(seconds=1)
-        
+    
     year = dt.year
     month = dt.month
     dateStr = dt.strftime("%Y_%m_%d")
-- 
2.43.0


From 36b8b66875bc54c646081471f9844f80e87e1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:16 +0000
Subject: [PATCH 209/250] fix: missing values of a TEC map spoiled the TEC
 values of places away from them

---
 lsl/misc/ionosphere/__init__.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lsl/misc/ionosphere/__init__.py b/lsl/misc/ionosphere/__init__.py
index 3d56a8c..daf4a24 100644
--- a/lsl/misc/ionosphere/__init__.py
+++ b/lsl/misc/ionosphere/__init__.py
@@ -17,7 +17,7 @@ try:
 except ImportError:
     from scipy.special import factorial
 from scipy.optimize import brentq
-from scipy.interpolate import RectBivariateSpline
+from scipy.interpolate import RegularGridInterpolator
 
 from astropy.coordinates import Angle as AstroAngle
 
@@ -436,6 +436,19 @@ def _load_map(mjd, type='IGS'):
     return tecMap
 
 
+def _interpolate_map(lats, lngs, values, lat, lng):
+    """
+    Interpolate a 2-D map defined over the strictly ascending 'lats' and 'lngs'
+    to a grid of latitudes and longitudes.  Positions outside of the map are
+    moved to its edge.
+    """
+    
+    lat = np.clip(np.atleast_1d(lat), lats[0], lats[-1])
+    lng = np.clip(np.atleast_1d(lng), lngs[0], lngs[-1])
+    interpFunction = RegularGridInterpolator((lats, lngs), values, method='linear')
+    return interpFunction(tuple(np.meshgrid(lat, lng, indexing='ij')))
+
+
 def get_tec_value(mjd, lat=None, lng=None, include_rms=False, type='IGS'):
     """
     Given an MJD value and, optionally, a latitude and longitude in degrees, 
@@ -497,13 +510,11 @@ def get_tec_value(mjd, lat=None, lng=None, include_rms=False, type='IGS'):
         lng = (np.asarray(lng) - center + 180.0) % 360.0 - 180.0 + center
         
         ## TEC
-        interpFunction = RectBivariateSpline(tecMap['lats'][::-1,0], tecMap['lngs'][0,:], tec[::-1,:], kx=1, ky=1)
-        tec = interpFunction(lat, lng)
+        tec = _interpolate_map(tecMap['lats'][::-1,0], tecMap['lngs'][0,:], tec[::-1,:], lat, lng)
         
         ## RMS
         if include_rms:
-            interpFunction = RectBivariateSpline(tecMap['lats'][::-1,0], tecMap['lngs'][0,:], rms[::-1,:], kx=1, ky=1)
-            rms = interpFunction(lat, lng)
+            rms = _interpolate_map(tecMap['lats'][::-1,0], tecMap['lngs'][0,:], rms[::-1,:], lat, lng)
             
     # Done
     if include_rms:
-- 
2.43.0


From 2a61f818a1f38d0eec7b7f2a9c44e82593519689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:06 +0000
Subject: [PATCH 210/250] fix: the declination of a magnetic field that points
 due south was zero

---
 lsl/misc/ionosphere/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/misc/ionosphere/__init__.py b/lsl/misc/ionosphere/__init__.py
index daf4a24..e3b0572 100644
--- a/lsl/misc/ionosphere/__init__.py
+++ b/lsl/misc/ionosphere/__init__.py
@@ -341,7 +341,7 @@ def compute_magnetic_declination(Bn, Be, Bz):
     Bh = np.sqrt(Bn**2+Be**2)
     
     # Compute the declination
-    decl = 2.0*np.arctan2(Be, Bh+Bn)
+    decl = np.arctan2(Be, Bn)
     
     # Check for bounds
     if Bh < 100.0:
-- 
2.43.0


From a54c375c48b1eba94f5fda6c0b294bf4a79fad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:23 +0000
Subject: [PATCH 211/250] fix: the background of an image whose tiles have no
 spread was NaN

---
 lsl/imaging/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/analysis.py b/lsl/imaging/analysis.py
index fea6cfc..44a9575 100644
--- a/lsl/imaging/analysis.py
+++ b/lsl/imaging/analysis.py
@@ -64,13 +64,13 @@ def estimate_background(image, window=32):
             ## Compute the mean and standard deviation - both with and
             ## without progressive clipping
             m0, s0 = np.mean(tile), np.std(tile)
-            valid = np.where( np.abs(tile-m0) < 3*s0 )
+            valid = np.where( np.abs(tile-m0) <= 3*s0 )
             m1, s1 = np.mean(tile[valid]), np.std(tile[valid])
             
             ## If the standard deviation hasn't changed by more than 20% use
             ## it's an uncrowded field and we can use the clipped mean.  Other-
             ## wise estimate the mode.
-            if abs(s1-s0)/s0 <= 0.2:
+            if abs(s1-s0) <= 0.2*s0:
                 backgroundBasis[i,j] = m1
             else:
                 ### This is SExtractor specific and is a correction for the 
-- 
2.43.0


From 6130ccbef4421115f251cbf5f499e1205f6d5e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:23 +0000
Subject: [PATCH 212/250] fix: the background of integer images was truncated
 to integers

---
 lsl/imaging/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/analysis.py b/lsl/imaging/analysis.py
index 44a9575..c7940cb 100644
--- a/lsl/imaging/analysis.py
+++ b/lsl/imaging/analysis.py
@@ -55,7 +55,7 @@ def estimate_background(image, window=32):
     # Process the background grid
     backgroundX = np.zeros((nX,nY), dtype=np.float64)
     backgroundY = np.zeros((nX,nY), dtype=np.float64)
-    backgroundBasis = np.zeros((nX,nY), dtype=image.dtype)
+    backgroundBasis = np.zeros((nX,nY), dtype=np.float64)
     for i in range(nX):
         for j in range(nY):
             ## Extract the tile area
-- 
2.43.0


From 226ecce49a54a09a1bc8617f4ae4c03beab8c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:23 +0000
Subject: [PATCH 213/250] fix: the background around the edges of an image was
 pulled towards zero

---
 lsl/imaging/analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/analysis.py b/lsl/imaging/analysis.py
index c7940cb..10a2352 100644
--- a/lsl/imaging/analysis.py
+++ b/lsl/imaging/analysis.py
@@ -9,7 +9,8 @@ Module for analyzing images.  Currently, this module supports:
 import math
 import logging
 import numpy as np
-from scipy.signal import convolve, medfilt
+from scipy.ndimage import median_filter
+from scipy.signal import convolve
 from scipy.interpolate import bisplrep, bisplev
 
 from lsl.logger import LSL_LOGGER
@@ -87,7 +88,7 @@ def estimate_background(image, window=32):
     backgroundBasis[bad] = np.median(backgroundBasis[good])
     
     # Use a median filter to get rid of unusually high regions
-    backgroundBasis = medfilt(backgroundBasis, 3)
+    backgroundBasis = median_filter(backgroundBasis, size=3, mode='nearest')
     
     # Build up the interpolation function
     backgroundX, backgroundY = backgroundX.ravel(), backgroundY.ravel()
-- 
2.43.0


From dba56ec906ff330df7240c9de7e5a37a58184617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:23 +0000
Subject: [PATCH 214/250] fix: the background of an image depended on its units
 and failed for small images

---
 lsl/imaging/analysis.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lsl/imaging/analysis.py b/lsl/imaging/analysis.py
index 10a2352..7d2cd9d 100644
--- a/lsl/imaging/analysis.py
+++ b/lsl/imaging/analysis.py
@@ -11,7 +11,7 @@ import logging
 import numpy as np
 from scipy.ndimage import median_filter
 from scipy.signal import convolve
-from scipy.interpolate import bisplrep, bisplev
+from scipy.interpolate import make_interp_spline
 
 from lsl.logger import LSL_LOGGER
 
@@ -50,8 +50,8 @@ def estimate_background(image, window=32):
     
     # Figure out how large the background grid should be assuming a half-
     # tile overlap
-    nX = 2 * image.shape[0] // window
-    nY = 2 * image.shape[1] // window
+    nX = max([1, 2 * image.shape[0] // window])
+    nY = max([1, 2 * image.shape[1] // window])
     
     # Process the background grid
     backgroundX = np.zeros((nX,nY), dtype=np.float64)
@@ -90,15 +90,16 @@ def estimate_background(image, window=32):
     # Use a median filter to get rid of unusually high regions
     backgroundBasis = median_filter(backgroundBasis, size=3, mode='nearest')
     
-    # Build up the interpolation function
-    backgroundX, backgroundY = backgroundX.ravel(), backgroundY.ravel()
-    backgroundBasis = backgroundBasis.ravel()
-    backgroundInterp = bisplrep(backgroundX, backgroundY, backgroundBasis, 
-                                xb=0, xe=image.shape[0], yb=0, ye=image.shape[1], kx=3, ky=3)
-        
-    # Evaluate
-    x, y = np.arange(image.shape[0]), np.arange(image.shape[1])
-    background = bisplev(x, y, backgroundInterp)
+    # Evaluate the interpolation function, with the values of the outermost tile
+    # centers beyond them
+    background = backgroundBasis
+    for axis,centers in enumerate((backgroundX[:,0], backgroundY[0,:])):
+        position = np.clip(np.arange(image.shape[axis]), centers[0], centers[-1])
+        if centers.size > 1:
+            interp = make_interp_spline(centers, background, k=min([3, centers.size-1]), axis=axis)
+            background = interp(position)
+        else:
+            background = np.repeat(background, position.size, axis=axis)
     
     # Done
     return background
-- 
2.43.0


From a1ec905bd14c61d9201fd2f569c7555d3b233794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:23 +0000
Subject: [PATCH 215/250] fix: the background of an image was displaced by half
 a pixel

---
 lsl/imaging/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/analysis.py b/lsl/imaging/analysis.py
index 7d2cd9d..f2cd0b7 100644
--- a/lsl/imaging/analysis.py
+++ b/lsl/imaging/analysis.py
@@ -79,8 +79,8 @@ def estimate_background(image, window=32):
                 backgroundBasis[i,j] = 2.5*np.median(tile[valid]) - 1.5*m1
                 
             ## Save the center of this tile for interpolation
-            backgroundX[i,j] = i*window//2 + window/4.0
-            backgroundY[i,j] = j*window//2 + window/4.0
+            backgroundX[i,j] = ((i*window//2) + min([(i+1)*window//2, image.shape[0]]) - 1) / 2
+            backgroundY[i,j] = ((j*window//2) + min([(j+1)*window//2, image.shape[1]]) - 1) / 2
             
     # Deal with NaNs in the image
     good = np.where( np.isfinite(backgroundBasis) )
-- 
2.43.0


From 018a87ea531a146100b902e2acbd3eab754a1c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:23 +0000
Subject: [PATCH 216/250] fix: the x and y offsets of the centers of point
 sources from their peaks were swapped

---
 lsl/imaging/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/analysis.py b/lsl/imaging/analysis.py
index f2cd0b7..9ae1422 100644
--- a/lsl/imaging/analysis.py
+++ b/lsl/imaging/analysis.py
@@ -166,7 +166,7 @@ def find_point_sources(image, threshold=4.0, fwhm=1.0, sharp=[0.2,1.0], round=[-
     # the detection radius
     ## Coordinate setup
     row = np.arange(nBox, dtype=np.float64) - nHalf
-    rx, ry = np.meshgrid(row, row)
+    rx, ry = np.meshgrid(row, row, indexing='ij')
     ## Build the mask
     mask = (rx**2 + ry**2) <= radius**2
     valid = np.where( mask )
-- 
2.43.0


From cbfd1d3470ee151000211673192354255a566cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:23 +0000
Subject: [PATCH 217/250] fix: the shapes and centers of point sources included
 the background

---
 lsl/imaging/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/analysis.py b/lsl/imaging/analysis.py
index 9ae1422..e430dbb 100644
--- a/lsl/imaging/analysis.py
+++ b/lsl/imaging/analysis.py
@@ -228,11 +228,11 @@ def find_point_sources(image, threshold=4.0, fwhm=1.0, sharp=[0.2,1.0], round=[-
         validRoundness = True
     
         ## Extract a "postage" stamp of the source and get it's peak
-        temp = image[ix[i]-nHalf:ix[i]+nHalf+1,iy[i]-nHalf:iy[i]+nHalf+1]
+        temp = cleanImage[ix[i]-nHalf:ix[i]+nHalf+1,iy[i]-nHalf:iy[i]+nHalf+1]
         cPeak = image[ix[i],iy[i]]			# "d" is actual pixel intensity        
         
         ## Compute the sharpness statistic
-        cSharpness = (temp[nHalf,nHalf] - ((mask*temp).sum())/pixels)/cPeak
+        cSharpness = (temp[nHalf,nHalf] - ((mask*temp).sum())/pixels)/temp[nHalf,nHalf]
         if cSharpness < sharp[0] or cSharpness > sharp[1]:
             validSharpness = False
             bad['sharp'] += 1
-- 
2.43.0


From da45b079921a83befd799835cd0ff0fe5b93d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 218/250] fix: the restored sources of deconvolved images were
 one pixel off

---
 lsl/imaging/deconv.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lsl/imaging/deconv.py b/lsl/imaging/deconv.py
index 85a5be3..722feae 100644
--- a/lsl/imaging/deconv.py
+++ b/lsl/imaging/deconv.py
@@ -25,6 +25,17 @@ __version__ = '0.6'
 __all__ = ['clean', 'clean_sources', 'lsq']
 
 
+def _restore(components, beam):
+    """
+    Convolve a map of components with a beam that is centered on the central
+    pixel, i.e., (shape[0]//2, shape[1]//2), of its image.
+    """
+    
+    x0, y0 = beam.shape[0]//2, beam.shape[1]//2
+    conv = convolve(components, beam, mode='full')
+    return conv[x0:x0+components.shape[0], y0:y0+components.shape[1]]
+
+
 def _interpolate(data, peak_x, peak_y):
     x1 = int(peak_x)
     x2 = x1 + 1
@@ -305,7 +316,7 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
             pylab.title('CLEAN Comps.')
             
             pylab.subplot(2, 2, 4)
-            pylab.imshow(convolve(cleaned, beamClean, mode='same'), origin='lower')
+            pylab.imshow(_restore(cleaned, beamClean), origin='lower')
             
             pylab.draw()
             
@@ -318,7 +329,7 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
     LSL_LOGGER.info(f"Exited after {i+1} iterations with status '{exitStatus}'")
 
     # Restore
-    conv = convolve(cleaned, beamClean, mode='same')
+    conv = _restore(cleaned, beamClean)
     conv = np.ma.masked_array(conv, mask=convMask, dtype=conv.dtype)
     conv *= ((img-working).max() / conv.max())
 
@@ -589,7 +600,7 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
                     pylab.title('Removed')
                     
                     pylab.subplot(2, 2, 4)
-                    pylab.imshow(convolve(cleaned, beamClean, mode='same')[px0:px1,py0:py1], origin='lower', interpolation='nearest')
+                    pylab.imshow(_restore(cleaned, beamClean)[px0:px1,py0:py1], origin='lower', interpolation='nearest')
                     pylab.title('CLEAN Comps.')
                 except:
                     pass
@@ -609,7 +620,7 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
         LSL_LOGGER.info(f"Exited after {i+1} iterations with status '{exitStatus}'")
         
     # Restore
-    conv = convolve(cleaned, beamClean, mode='same')
+    conv = _restore(cleaned, beamClean)
     conv = np.ma.masked_array(conv, mask=convMask, dtype=conv.dtype)
     conv *= ((img-working).max() / conv.max())
     
@@ -863,7 +874,7 @@ def lsq(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='XX'
     # Summary
     LSL_LOGGER.info(f"Exited after {k+1} iterations with status '{exitStatus}'")
     # Restore
-    conv = convolve(mdl2, beamClean, mode='same')
+    conv = _restore(mdl2, beamClean)
     conv = np.ma.masked_array(conv, mask=convMask, dtype=conv.dtype)
     
     if plot:
-- 
2.43.0


From 4f00eb76e36ec882f48a09e647ec9c3589b5f070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 219/250] fix: deconvolution failed for images with a uv
 resolution other than 0.5

---
 lsl/imaging/deconv.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lsl/imaging/deconv.py b/lsl/imaging/deconv.py
index 722feae..bf5d6ee 100644
--- a/lsl/imaging/deconv.py
+++ b/lsl/imaging/deconv.py
@@ -194,10 +194,10 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
     psf /= psf.max()
     
     # Fit a Guassian to the zenith beam response and use that for the restore beam
-    beamCutout = psf[size//2:3*size//2, size//2:3*size//2]
+    beamCutout = psf[imgSize//4:3*imgSize//4, imgSize//4:3*imgSize//4]
     beamCutout = np.where( beamCutout > 0.0, beamCutout, 0.0 )
     h, cx, cy, sx, sy = _fit_gaussian( beamCutout )
-    gauGen = gaussian2d(1.0, size/2+cx, size/2+cy, sx, sy)
+    gauGen = gaussian2d(1.0, imgSize//4+cx, imgSize//4+cy, sx, sy)
     FWHM = int( round( (sx+sy)/2.0 * 2.0*np.sqrt(2.0*np.log(2.0)) ) )
     beamClean = psf * 0.0
     for i in range(beamClean.shape[0]):
@@ -437,10 +437,10 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
     psf /= psf.max()
     
     # Fit a Guassian to the zenith beam response and use that for the restore beam
-    beamCutout = psf[size//2:3*size//2, size//2:3*size//2]
+    beamCutout = psf[imgSize//4:3*imgSize//4, imgSize//4:3*imgSize//4]
     beamCutout = np.where( beamCutout > 0.0, beamCutout, 0.0 )
     h, cx, cy, sx, sy = _fit_gaussian( beamCutout )
-    gauGen = gaussian2d(1.0, size/2+cx, size/2+cy, sx, sy)
+    gauGen = gaussian2d(1.0, imgSize//4+cx, imgSize//4+cy, sx, sy)
     FWHM = int( round( (sx+sy)/2.0 * 2.0*np.sqrt(2.0*np.log(2.0)) ) )
     beamClean = psf * 0.0
     for i in range(beamClean.shape[0]):
@@ -739,10 +739,10 @@ def lsq(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='XX'
     psf /= psf.max()
     
     # Fit a Guassian to the zenith beam response and use that for the restore beam
-    beamCutout = psf[size//2:3*size//2, size//2:3*size//2]
+    beamCutout = psf[imgSize//4:3*imgSize//4, imgSize//4:3*imgSize//4]
     beamCutout = np.where( beamCutout > 0.0, beamCutout, 0.0 )
     h, cx, cy, sx, sy = _fit_gaussian( beamCutout )
-    gauGen = gaussian2d(1.0, size/2+cx, size/2+cy, sx, sy)
+    gauGen = gaussian2d(1.0, imgSize//4+cx, imgSize//4+cy, sx, sy)
     FWHM = int( round( (sx+sy)/2.0 * 2.0*np.sqrt(2.0*np.log(2.0)) ) )
     beamClean = psf * 0.0
     for i in range(beamClean.shape[0]):
-- 
2.43.0


From 6b45d3fc18cb5f4af39f3c40d16266f1d1f600da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 220/250] fix: CLEAN failed for peaks near the edge of the
 image and for beams of a single pixel

---
 lsl/imaging/deconv.py | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/lsl/imaging/deconv.py b/lsl/imaging/deconv.py
index bf5d6ee..85dcedf 100644
--- a/lsl/imaging/deconv.py
+++ b/lsl/imaging/deconv.py
@@ -36,6 +36,25 @@ def _restore(components, beam):
     return conv[x0:x0+components.shape[0], y0:y0+components.shape[1]]
 
 
+def _locate_peak(data, peak_x, peak_y, half_width):
+    """
+    Return the sub-pixel location of the peak of an image given the pixel that
+    it is in.  If the peak cannot be fit this is the center of the pixel.
+    """
+    
+    x0 = max([0, peak_x - half_width])
+    y0 = max([0, peak_y - half_width])
+    cutout = data[x0:peak_x+half_width+1, y0:peak_y+half_width+1]
+    if min(cutout.shape) < 3:
+        return float(peak_x), float(peak_y)
+        
+    params = _fit_gaussian(cutout)
+    x, y = x0 + params[1], y0 + params[2]
+    if not (abs(x - peak_x) <= 1 and abs(y - peak_y) <= 1):
+        return float(peak_x), float(peak_y)
+    return min([max([0.0, x]), data.shape[0]-1.0]), min([max([0.0, y]), data.shape[1]-1.0])
+
+
 def _interpolate(data, peak_x, peak_y):
     x1 = int(peak_x)
     x2 = x1 + 1
@@ -222,10 +241,7 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
         peakV = working[peak_x,peak_y]
         
         # Optimize the location
-        peakParams = _fit_gaussian(working[peak_x-FWHM//2:peak_x+FWHM//2+1, peak_y-FWHM//2:peak_y+FWHM//2+1])
-        peakVO = peakParams[0]
-        peak_xO = peak_x - FWHM//2 + peakParams[1]
-        peak_yO = peak_y - FWHM//2 + peakParams[2]
+        peak_xO, peak_yO = _locate_peak(working, peak_x, peak_y, FWHM//2)
         
         # Quantize to try and keep the computation down without over-simplifiying things
         subpixelationLevel = 5
@@ -286,13 +302,13 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
         toRemove = gain*peakV*beam
         working -= toRemove
         asum = 0.0
-        for l in range(int(peak_xO), int(peak_xO)+2):
+        for l in range(int(peak_xO), min([int(peak_xO)+2, imgSize])):
             if l > peak_xO:
                 side1 = (peak_xO+0.5) - (l-0.5)
             else:
                 side1 = (l+0.5) - (peak_xO-0.5)
                 
-            for m in range(int(peak_yO), int(peak_yO)+2):
+            for m in range(int(peak_yO), min([int(peak_yO)+2, imgSize])):
                 if m > peak_yO:
                     side2 = (peak_yO+0.5) - (m-0.5)
                 else:
@@ -497,13 +513,7 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
             peakV = working[peak_x,peak_y]
             
             # Optimize the location
-            try:
-                peakParams = _fit_gaussian(working[peak_x-FWHM//2:peak_x+FWHM//2+1, peak_y-FWHM//2:peak_y+FWHM//2+1])
-            except IndexError:
-                peakParams = [peakV, FWHM//2, FWHM//2]
-            peakVO = peakParams[0]
-            peak_xO = peak_x - FWHM//2 + peakParams[1]
-            peak_yO = peak_y - FWHM//2 + peakParams[2]
+            peak_xO, peak_yO = _locate_peak(working, peak_x, peak_y, FWHM//2)
             
             # Quantize to try and keep the computation down without over-simplifiying things
             subpixelationLevel = 5
@@ -569,13 +579,13 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
             toRemove = gain*peakV*beam
             working -= toRemove
             asum = 0.0
-            for l in range(int(peak_xO), int(peak_xO)+2):
+            for l in range(int(peak_xO), min([int(peak_xO)+2, imgSize])):
                 if l > peak_xO:
                     side1 = (peak_xO+0.5) - (l-0.5)
                 else:
                     side1 = (l+0.5) - (peak_xO-0.5)
                     
-                for m in range(int(peak_yO), int(peak_yO)+2):
+                for m in range(int(peak_yO), min([int(peak_yO)+2, imgSize])):
                     if m > peak_yO:
                         side2 = (peak_yO+0.5) - (m-0.5)
                     else:
-- 
2.43.0


From a408d04140759bf6205a8ea3b9fa037c7089f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 221/250] fix: CLEAN removed the beam of another part of the
 sky near RA 0h, the poles, and the horizon

---
 lsl/imaging/deconv.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/lsl/imaging/deconv.py b/lsl/imaging/deconv.py
index 85dcedf..462654e 100644
--- a/lsl/imaging/deconv.py
+++ b/lsl/imaging/deconv.py
@@ -36,6 +36,17 @@ def _restore(components, beam):
     return conv[x0:x0+components.shape[0], y0:y0+components.shape[1]]
 
 
+def _interpolate_radec(ra, dec, peak_x, peak_y):
+    """
+    Interpolate the right ascension and declination of a position in the image.
+    """
+    
+    x = _interpolate(np.cos(dec)*np.cos(ra), peak_x, peak_y)
+    y = _interpolate(np.cos(dec)*np.sin(ra), peak_x, peak_y)
+    z = _interpolate(np.sin(dec), peak_x, peak_y)
+    return np.arctan2(y, x) % (2*np.pi), np.arctan2(z, np.hypot(x, y))
+
+
 def _locate_peak(data, peak_x, peak_y, half_width):
     """
     Return the sub-pixel location of the peak of an image given the pixel that
@@ -73,6 +84,8 @@ def _interpolate(data, peak_x, peak_y):
     dataPrime += data[x1,y2]*(x2-x)*(y-y1)
     dataPrime += data[x2,y2]*(x-x1)*(y-y1)
     dataPrime /= (x2-x1)*(y2-y1)
+    if not np.isfinite(dataPrime):
+        raise IndexError("Position is outside of the sky")
     return dataPrime
 
 
@@ -235,7 +248,8 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
     exitStatus = 'iteration limit'
     for i in range(max_iter):
         # Find the location of the peak in the flux density
-        peak = np.where( working == working.max() )
+        sky = np.where( convMask, -np.inf, working )
+        peak = np.where( sky == sky.max() )
         peak_x = peak[0][0]
         peak_y = peak[1][0]
         peakV = working[peak_x,peak_y]
@@ -250,13 +264,10 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
         
         # Pixel coordinates to right ascension, dec.
         try:
-            peakRA = _interpolate(ra, peak_xO, peak_yO)
+            peakRA, peakDec = _interpolate_radec(ra, dec, peak_xO, peak_yO)
         except IndexError:
-            peakRA = ra[peak_x, peak_y]
-        try:
-            peakDec = _interpolate(dec, peak_xO, peak_yO)
-        except IndexError:
-            peakDec = dec[peak_x, peak_y]
+            peak_xO, peak_yO = peak_x, peak_y
+            peakRA, peakDec = ra[peak_x, peak_y], dec[peak_x, peak_y]
             
         # Pixel coordinates to az, el
         try:
@@ -480,7 +491,7 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
             continue
             
         # Locate the approximate position of the source
-        srcDist = (src.ra-ra)**2 + (src.dec-dec)**2
+        srcDist = -np.sin(src.dec)*np.sin(dec) - np.cos(src.dec)*np.cos(dec)*np.cos(src.ra-ra)
         srcPeak = np.where( srcDist == np.nanmin(srcDist) )
         
         # Define the clean box - this is fixed at 2*FWHM in width on each side
@@ -507,7 +518,8 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
         exitStatus = 'iteration'
         for i in range(max_iter):
             # Find the location of the peak in the flux density
-            peak = np.where( working[rx0:rx1,ry0:ry1] == working[rx0:rx1,ry0:ry1].max() )
+            sky = np.where( convMask, -np.inf, working )[rx0:rx1,ry0:ry1]
+            peak = np.where( sky == sky.max() )
             peak_x = peak[0][0] + rx0
             peak_y = peak[1][0] + ry0
             peakV = working[peak_x,peak_y]
@@ -522,14 +534,10 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
             
             # Pixel coordinates to right ascension, dec.
             try:
-                peakRA = _interpolate(ra, peak_xO, peak_yO)
+                peakRA, peakDec = _interpolate_radec(ra, dec, peak_xO, peak_yO)
             except IndexError:
                 peak_xO, peak_yO = peak_x, peak_y
-                peakRA = ra[peak_x, peak_y]
-            try:
-                peakDec = _interpolate(dec, peak_xO, peak_yO)
-            except IndexError:
-                peakDec = dec[peak_x, peak_y]
+                peakRA, peakDec = ra[peak_x, peak_y], dec[peak_x, peak_y]
                 
             # Pixel coordinates to az, el
             try:
-- 
2.43.0


From 598745e986f9926efc17f043d225a3cd4fe1b4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:19 +0000
Subject: [PATCH 222/250] fix: the CLEAN components of an image without any
 were NaN

---
 lsl/imaging/deconv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/deconv.py b/lsl/imaging/deconv.py
index 462654e..75c42ef 100644
--- a/lsl/imaging/deconv.py
+++ b/lsl/imaging/deconv.py
@@ -358,7 +358,8 @@ def clean(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='X
     # Restore
     conv = _restore(cleaned, beamClean)
     conv = np.ma.masked_array(conv, mask=convMask, dtype=conv.dtype)
-    conv *= ((img-working).max() / conv.max())
+    if conv.max() > 0:
+        conv *= ((img-working).max() / conv.max())
 
     if plot:
         # Make an image for comparison purposes
@@ -640,7 +641,8 @@ def clean_sources(dataDict, gimg, srcs, input_image=None, size=80, res=0.50, wre
     # Restore
     conv = _restore(cleaned, beamClean)
     conv = np.ma.masked_array(conv, mask=convMask, dtype=conv.dtype)
-    conv *= ((img-working).max() / conv.max())
+    if conv.max() > 0:
+        conv *= ((img-working).max() / conv.max())
     
     if plot:
         # Make an image for comparison purposes
-- 
2.43.0


From 3cb1c91c12ddb6be36ddebc544eea8f62ffc753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:20 +0000
Subject: [PATCH 223/250] fix: the least squares deconvolution did not go back
 to the previous model when the residuals went up

---
 lsl/imaging/deconv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/imaging/deconv.py b/lsl/imaging/deconv.py
index 75c42ef..78ec09b 100644
--- a/lsl/imaging/deconv.py
+++ b/lsl/imaging/deconv.py
@@ -798,7 +798,7 @@ def lsq(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='XX'
     mdl *= modelToSim
     diff = img - mdl
     diffScaled = 0.0*diff/gain
-    oldModel = mdl
+    oldModel = mdl*1.0
     oldRMS = diff.std()*1e6
     oldDiff = diff*0.0
     rHist = []
@@ -855,6 +855,7 @@ def lsq(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='XX'
         ## the previous iteration
         if RMS-oldRMS > 0:
             mdl = oldModel
+            mdl2 = mdl*modelToSim
             diff = oldDiff
             
             exitStatus = 'residuals'
@@ -874,7 +875,7 @@ def lsq(dataDict, gimg, input_image=None, size=80, res=0.50, wres=0.10, pol='XX'
         ## Save the current iteration as the previous state
         rHist.append(RMS)
         oldRMS = RMS
-        oldModel = mdl
+        oldModel = mdl*1.0
         oldDiff = diff
         
         if plot:
-- 
2.43.0


From a5b15a550acdbbf6ee6afb3bd71267925741cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:51 +0000
Subject: [PATCH 224/250] fix: the width of a beam narrower than a few pixels
 was zero, negative, or NaN

---
 lsl/imaging/deconv.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/deconv.py b/lsl/imaging/deconv.py
index 78ec09b..5a366ed 100644
--- a/lsl/imaging/deconv.py
+++ b/lsl/imaging/deconv.py
@@ -125,11 +125,11 @@ def _fit_gaussian(data):
         x = (X*data).sum()/total
         y = (Y*data).sum()/total
         col = data[:, int(y)]
-        width_x = np.sqrt(abs((np.arange(col.size)-y)**2*col).sum()/col.sum())
+        width_x = np.sqrt(abs((np.arange(col.size)-x)**2*col).sum()/col.sum())
         row = data[int(x), :]
-        width_y = np.sqrt(abs((np.arange(row.size)-x)**2*row).sum()/row.sum())
+        width_y = np.sqrt(abs((np.arange(row.size)-y)**2*row).sum()/row.sum())
         height = data.max()
-        return height, x, y, width_x, width_y
+        return height, x, y, np.fmax(width_x, min_width), np.fmax(width_y, min_width)
 
     def fitgaussian(data, params=None):
         """
@@ -144,15 +144,21 @@ def _fit_gaussian(data):
         errorfunction = lambda p: np.ravel(gaussian(*p)(*np.indices(data.shape)) -
                                 data)
         p, success = leastsq(errorfunction, params)
+        if not np.isfinite(p).all():
+            p = np.array(params)
         return p
         
+    # The narrowest Gaussian that a pixel can resolve, i.e., a FWHM of one pixel
+    min_width = 1 / (2*np.sqrt(2*np.log(2)))
+    
     level = 0.5
     params = None
     while level > 0.1:
         data_clipped = np.where(data/data.max() > level, data, 0)
         params = fitgaussian(data_clipped, params=params)
         level /= 2.0
-        
+    params[3:] = np.fmax(np.abs(params[3:]), min_width)
+    
     #fit = gaussian(*params)
     #import pylab
     #pylab.matshow(data, cmap=pylab.cm.gist_earth_r)
-- 
2.43.0


From 5eb90792063a723cc4a1e05fd60146a178625f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:21 +0000
Subject: [PATCH 225/250] fix: the 0,0 point of an image moved away from the
 center asked for

---
 lsl/imaging/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index bc57b14..ecee4bb 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1493,7 +1493,8 @@ class ImgWPlus(aipy.img.ImgW):
                 
             data = data*taper1*taper2
             
-        return aipy.img.recenter(ifft2Function(data).real.astype(np.float32)/self.kern_corr, center)
+        image = ifft2Function(data).real.astype(np.float32)/self.kern_corr
+        return np.roll(image, (int(center[0]), int(center[1])), axis=(0, 1))
         
     def image(self, center=(0,0), weighting='natural', robust=0.0, taper=(0.0, 0.0)):
         """Return the inverse FFT of the UV matrix, with the 0,0 point moved
-- 
2.43.0


From 4dd51705357bac52f4e5e677df32babf0b150258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:42 +0000
Subject: [PATCH 226/250] fix: splitDRX.py could not name its output file

---
 scripts/splitDRX.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/splitDRX.py b/scripts/splitDRX.py
index 266717e..3eb465d 100755
--- a/scripts/splitDRX.py
+++ b/scripts/splitDRX.py
@@ -152,7 +152,7 @@ def main(args):
             captFilename = "%s_s%04i_p%%0%ii.dat" % (os.path.splitext(os.path.basename(filename))[0], args.count, scale)
             captFilename = captFilename % r
             if not args.recursive:
-                captFilename = f"{os.path.splitext(os.path.basename(filename))[0]}_s{args.count:04d}.dat"
+                captFilename = f"{os.path.splitext(os.path.basename(filename))[0]}_s{int(args.count):04d}.dat"
             
         print(ifString % (r+1, captFilename))
         
-- 
2.43.0


From e4a9781c9e9fd875de5848c9623ca71913b45a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:42 +0000
Subject: [PATCH 227/250] fix: splitDRX.py started with the second frame of a
 capture if the file started inside of one

---
 scripts/splitDRX.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/splitDRX.py b/scripts/splitDRX.py
index 3eb465d..6dde1cf 100755
--- a/scripts/splitDRX.py
+++ b/scripts/splitDRX.py
@@ -131,6 +131,8 @@ def main(args):
         frame = drx.read_frame(fh)
         beam, tune, pol = frame.id
         skip += 1
+    if skip > 0:
+        fh.seek(-drx.FRAME_SIZE, 1)
 
     nFramesRemaining = (sizeB - fh.tell()) // drx.FRAME_SIZE
     nRecursions = int(nFramesRemaining // (nCaptures*beampols))
-- 
2.43.0


From 701a420f4a1098a776314ba58e76e1406ad28ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:42 +0000
Subject: [PATCH 228/250] fix: splitDRX.py could not recursively split a file
 shorter than one of the parts

---
 scripts/splitDRX.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/splitDRX.py b/scripts/splitDRX.py
index 6dde1cf..2b9aea6 100755
--- a/scripts/splitDRX.py
+++ b/scripts/splitDRX.py
@@ -136,7 +136,7 @@ def main(args):
 
     nFramesRemaining = (sizeB - fh.tell()) // drx.FRAME_SIZE
     nRecursions = int(nFramesRemaining // (nCaptures*beampols))
-    if not args.recursive:
+    if not args.recursive or nRecursions < 1:
         nRecursions = 1
         
     scale = int(math.log10(nRecursions)) + 1
-- 
2.43.0


From c6aaa03c9d0b1802dc03623b4f01ec5d50818c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:42 +0000
Subject: [PATCH 229/250] fix: splitSession.py could not sort the observations

---
 scripts/splitSession.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/splitSession.py b/scripts/splitSession.py
index 44f9579..a6e186f 100755
--- a/scripts/splitSession.py
+++ b/scripts/splitSession.py
@@ -10,6 +10,7 @@ import sys
 import time
 import argparse
 from datetime import datetime, timedelta
+from functools import cmp_to_key
 
 from lsl.common.mcs import mjdmpm_to_datetime
 from lsl.common import metabundle
@@ -43,7 +44,7 @@ def main(args):
     sdf = metabundle.get_sdf(meta)
     ses = metabundle.get_session_spec(meta)
     obs = metabundle.get_observation_spec(meta)
-    obs.sort(_obs_comp)
+    obs.sort(key=cmp_to_key(_obs_comp))
     tStart = []
     oDetails = []
     for i,o in enumerate(obs):
-- 
2.43.0


From 696d19734492fa8c41196854ebe329cc0b1411db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:42 +0000
Subject: [PATCH 230/250] fix: splitSession.py left out the first frame of an
 observation or started inside of a capture

---
 scripts/splitSession.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/scripts/splitSession.py b/scripts/splitSession.py
index a6e186f..ea72af0 100755
--- a/scripts/splitSession.py
+++ b/scripts/splitSession.py
@@ -130,31 +130,31 @@ def main(args):
                 except errors.SyncError:		
                     fh.seek(1, 1)
                 except errors.EOFError:
+                    fh.seek(0, 2)
                     break
                 #print(frame.time.datetime, oStart)
+            else:
+                fh.seek(-reader.FRAME_SIZE, 1)
 
-        elif frame.time.datetime > oStart:
-            ### We've gone too far, seek backwards
-            print(f"-> At byte {fh.tell()}, time is {frame.time.datetime} > {oStart}")
+        else:
+            ### We're there already or we've gone too far, seek backwards to the
+            ### first frame that is not before the start
+            print(f"-> At byte {fh.tell()}, time is {frame.time.datetime} >= {oStart}")
 
-            while frame.time.datetime > oStart:
-                if fh.tell() == 0:
-                    break
-                fh.seek(-2*reader.FRAME_SIZE, 1)
+            while fh.tell() >= reader.FRAME_SIZE:
+                fh.seek(-reader.FRAME_SIZE, 1)
                 try:
                     frame = reader.read_frame(fh)
                 except errors.SyncError:		
                     fh.seek(-1, 1)
-                except errors.EOFError:
+                    continue
+                if frame.time.datetime < oStart:
                     break
+                fh.seek(-reader.FRAME_SIZE, 1)
                 #print(frame.time.datetime, oStart)
                 
-        else:
-            ### We're there already
-            print(f"-> At byte {fh.tell()}, time is {frame.time.datetime} = {oStart}")
-            
-        ## Jump back exactly one frame so that the filehandle is in a position 
-        ## to read the first frame that is part of the observation
+        ## The filehandle is now in a position to read the first frame that is part
+        ## of the observation
         try:
             frame = reader.read_frame(fh)
             print(f"-> At byte {fh.tell()}, time is {frame.time.datetime} = {oStart}")
-- 
2.43.0


From 8d2b1f8ca53dbb1ba84f02bcbc67610a51ce604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 231/250] fix: the OVRO-LWA option of the scripts did not work

---
 scripts/astroevents.py      | 2 +-
 scripts/astrostatus.py      | 2 +-
 scripts/driftcurve.py       | 2 +-
 scripts/getIonosphericRM.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/astroevents.py b/scripts/astroevents.py
index 36a4231..7e9b874 100755
--- a/scripts/astroevents.py
+++ b/scripts/astroevents.py
@@ -34,7 +34,7 @@ if __name__ == '__main__':
     elif site == 'ovrolwa':
         station = stations.lwa1
         station.name = 'OVRO-LWA'
-        station.lat, station.long, station.elev = ('37.23977727', '-118.2816667', 1183.48)
+        station.lat, station.long, station.elev = (37.23977727*math.pi/180, -118.2816667*math.pi/180, 1183.48)
     else:
         raise RuntimeError(f"Unknown site name: {site}")
         
diff --git a/scripts/astrostatus.py b/scripts/astrostatus.py
index e4154d0..3107479 100755
--- a/scripts/astrostatus.py
+++ b/scripts/astrostatus.py
@@ -44,7 +44,7 @@ if __name__ == '__main__':
     elif site == 'ovrolwa':
         station = stations.lwa1
         station.name = 'OVRO-LWA'
-        station.lat, station.lon, station.elev = ('37.23977727', '-118.2816667', 1183.48)
+        station.lat, station.long, station.elev = (37.23977727*math.pi/180, -118.2816667*math.pi/180, 1183.48)
     else:
         raise RuntimeError(f"Unknown site name: {site}")
     site = transform.GeographicalPosition((station.long*180.0/math.pi, station.lat*180.0/math.pi), name=station.name)
diff --git a/scripts/driftcurve.py b/scripts/driftcurve.py
index c540c32..c33cb85 100755
--- a/scripts/driftcurve.py
+++ b/scripts/driftcurve.py
@@ -48,7 +48,7 @@ def main(args):
     elif args.ovrolwa:
         nam = 'ovro'
         sta = stations.lwa1
-        sta.lat, sta.lon, sta.elev = ('37.23977727', '-118.2816667', 1183.48)
+        sta.lat, sta.long, sta.elev = (37.23977727*math.pi/180, -118.2816667*math.pi/180, 1183.48)
     else:
         nam = 'lwa1'
         sta = stations.lwa1
diff --git a/scripts/getIonosphericRM.py b/scripts/getIonosphericRM.py
index 508d6a6..bafa72a 100755
--- a/scripts/getIonosphericRM.py
+++ b/scripts/getIonosphericRM.py
@@ -52,7 +52,7 @@ def main(args):
         site = stations.lwasv
     elif args.ovrolwa:
         site = stations.lwa1
-        site.lat, site.lon, site.elev = ('37.23977727', '-118.2816667', 1183.48)
+        site.lat, site.long, site.elev = (37.23977727*np.pi/180, -118.2816667*np.pi/180, 1183.48)
     else:
         site = stations.lwa1
     obs = site.get_observer()
-- 
2.43.0


From d6f969ada3f4be4102db5d70e6c4443447914739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 232/250] fix: getIonosphericRM.py used the location of LWA-SV
 for LWA-NA

---
 scripts/getIonosphericRM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/getIonosphericRM.py b/scripts/getIonosphericRM.py
index bafa72a..5d904e7 100755
--- a/scripts/getIonosphericRM.py
+++ b/scripts/getIonosphericRM.py
@@ -49,7 +49,7 @@ def main(args):
     if args.lwasv:
         site = stations.lwasv
     elif args.lwana:
-        site = stations.lwasv
+        site = stations.lwana
     elif args.ovrolwa:
         site = stations.lwa1
         site.lat, site.long, site.elev = (37.23977727*np.pi/180, -118.2816667*np.pi/180, 1183.48)
-- 
2.43.0


From f7abe77eb060a82a3783b7b5b422f78c12d2237b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 233/250] fix: drSpecSpectra.py put most of the tuning 1
 spectra at the frequencies of tuning 2

---
 scripts/drSpecSpectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/drSpecSpectra.py b/scripts/drSpecSpectra.py
index 1d6c4b7..b5ddb49 100755
--- a/scripts/drSpecSpectra.py
+++ b/scripts/drSpecSpectra.py
@@ -146,7 +146,7 @@ def main(args):
     freq2, units2 = _best_freq_units(freq2)
     
     for i in range(masterSpectra.shape[1]):
-        if i/len(products) == 0:
+        if i//len(products) == 0:
             freq = freq1
             units = units1
         else:
-- 
2.43.0


From f2d2b1052e7afa5d6cb3723a72a1fa49bf1a684d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 234/250] fix: drSpecSpectra.py plotted the chunks only if they
 were disabled

---
 scripts/drSpecSpectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/drSpecSpectra.py b/scripts/drSpecSpectra.py
index b5ddb49..dd9a428 100755
--- a/scripts/drSpecSpectra.py
+++ b/scripts/drSpecSpectra.py
@@ -159,7 +159,7 @@ def main(args):
         
         # If there is more than one chunk, plot the difference between the global 
         # average and each chunk
-        if nChunks > 1 and args.disable_chunks:
+        if nChunks > 1 and not args.disable_chunks:
             for j in range(nChunks):
                 # Some files are padded by zeros at the end and, thus, carry no 
                 # weight in the average spectra.  Skip over those.
-- 
2.43.0


From a1881dd0add5f6d4a4e78316f7b1cb480ba35b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 235/250] fix: tbxSpectra.py squared the samples as 8-bit
 integers

---
 scripts/tbxSpectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/tbxSpectra.py b/scripts/tbxSpectra.py
index 68d3dcf..41e5673 100755
--- a/scripts/tbxSpectra.py
+++ b/scripts/tbxSpectra.py
@@ -122,7 +122,7 @@ def main(args):
             continue
             
         # Detect power and integrate
-        data = data['re']**2 + data['im']**2
+        data = data['re'].astype(np.float32)**2 + data['im'].astype(np.float32)**2
         try:
             spec += data.mean(axis=2)
         except NameError:
-- 
2.43.0


From 81f84194f1c6b09ffe27a76430981dc5fbca79f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 236/250] fix: driftcurve.py swapped the two dipole models

---
 scripts/driftcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/driftcurve.py b/scripts/driftcurve.py
index c33cb85..f1a741d 100755
--- a/scripts/driftcurve.py
+++ b/scripts/driftcurve.py
@@ -63,7 +63,7 @@ def main(args):
     LSL_LOGGER.debug(f"Read in {smap_name} map at {args.frequency/1e6:.2f} MHz of {len(smap.ra)} pixels; min={smap._power.min()}, max={smap._power.max()}")
         
     # Dipole beam pattern function
-    model = 'llfss' if args.empirical else 'empirical'
+    model = 'empirical' if args.empirical else 'llfss'
     pol = 'XX' if args.pol == 'EW' else 'YY'
     bfunc = lambda x, y: beam_response(model, pol, x, y, frequency=args.frequency, degrees=True)
     
-- 
2.43.0


From 1048710f70b1a90e7a71c4cdd6fead2f81345d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 237/250] fix: splitSession.py could not work with TBS data

---
 scripts/splitSession.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scripts/splitSession.py b/scripts/splitSession.py
index ea72af0..0d587ad 100755
--- a/scripts/splitSession.py
+++ b/scripts/splitSession.py
@@ -62,11 +62,14 @@ def main(args):
 
     # Figure out where in the file the various bits are.
     fh = open(data, 'rb')
-    lf = drx.read_frame(fh)
-    beam, j, k = lf.id
-    if beam != obs[0]['drx_beam']:
-        print(f"ERROR: Beam mis-match, metadata is for #{obs[0]['drx_beam']}, file is for #{beam}")
-        sys.exit()
+    if obs[0]['mode'].name == 'TBS':
+        lf = tbx.read_frame(fh)
+    else:
+        lf = drx.read_frame(fh)
+        beam, j, k = lf.id
+        if beam != obs[0]['drx_beam']:
+            print(f"ERROR: Beam mis-match, metadata is for #{obs[0]['drx_beam']}, file is for #{beam}")
+            sys.exit()
     firstFrame = lf.time.datetime
     if abs(firstFrame - min(tStart)) > timedelta(seconds=30):
         print(f"ERROR: Time mis-match, metadata is for {min(tStart)}, file is for {firstFrame}")
-- 
2.43.0


From 93c768efd6e65f2c78b27d51d5273d31cf9f6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 238/250] fix: inspectTarball.py did not know the transient
 buffer modes

---
 scripts/inspectTarball.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/inspectTarball.py b/scripts/inspectTarball.py
index 3738e10..a5cd80f 100755
--- a/scripts/inspectTarball.py
+++ b/scripts/inspectTarball.py
@@ -64,7 +64,7 @@ def main(args):
     print(f" Total Session Duration: {sessionDur}")
     print(f" -> First observation starts at {min(tStart).strftime(_FORMAT_STRING)}")
     print(f" -> Last observation ends at {(max(tStart) + lastDur).strftime(_FORMAT_STRING)}")
-    if project.sessions[0].observations[0].mode not in ('TBW', 'TBN'):
+    if project.sessions[0].observations[0].mode not in ('TBT', 'TBS'):
         drspec = 'No'
         if project.sessions[0].spc_setup[0] != 0 and project.sessions[0].spc_setup[1] != 0:
             drspec = 'Yes'
-- 
2.43.0


From faf5251001d1324b6d7b4ab12462e22049ac7683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:43 +0000
Subject: [PATCH 239/250] fix: tbxSpectra.py left out antennas if there were
 more than one figure

---
 scripts/tbxSpectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/tbxSpectra.py b/scripts/tbxSpectra.py
index 41e5673..902090a 100755
--- a/scripts/tbxSpectra.py
+++ b/scripts/tbxSpectra.py
@@ -140,10 +140,10 @@ def main(args):
     
     # Deal with the `keep` options
     if args.keep == 'all':
-        antpolsDisp = int(np.ceil(antpols/20))
+        antpolsDisp = int(np.ceil(antpols/16))
         js = [i for i in range(antpols)]
     else:
-        antpolsDisp = int(np.ceil(len(args.keep)*2/20))
+        antpolsDisp = int(np.ceil(len(args.keep)*2/16))
         if antpolsDisp < 1:
             antpolsDisp = 1
             
-- 
2.43.0


From 47c0ec1301d2cce82173750eb12986d1818a968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:32 +0000
Subject: [PATCH 240/250] fix: drSpecSpectra.py failed for files with four
 products

---
 scripts/drSpecSpectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/drSpecSpectra.py b/scripts/drSpecSpectra.py
index dd9a428..b6e05fe 100755
--- a/scripts/drSpecSpectra.py
+++ b/scripts/drSpecSpectra.py
@@ -140,7 +140,7 @@ def main(args):
     # The plots:  This is setup for the current configuration of 20 beampols
     fig = plt.figure()
     figsX = int(round(math.sqrt(2*len(products))))
-    figsY = 2*len(products) // figsX
+    figsY = int(math.ceil(2*len(products) / figsX))
     # Put the frequencies in the best units possible
     freq1, units1 = _best_freq_units(freq1)
     freq2, units2 = _best_freq_units(freq2)
-- 
2.43.0


From 5caffc007af656011a585e55188f30d87dd98924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:32 +0000
Subject: [PATCH 241/250] fix: splitSession.py gave all of the file to an
 observation without data at its start

---
 scripts/splitSession.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/splitSession.py b/scripts/splitSession.py
index 0d587ad..f263b7c 100755
--- a/scripts/splitSession.py
+++ b/scripts/splitSession.py
@@ -216,7 +216,7 @@ def main(args):
                 reader = drx
 
             ## Get the number of frames
-            if oDetails[i]['e'] > 0:
+            if oDetails[i]['e'] >= 0:
                 nFramesRead = (oDetails[i]['e'] - oDetails[i]['b']) // reader.FRAME_SIZE
             else:
                 nFramesRead = (os.path.getsize(data) - oDetails[i]['b']) // reader.FRAME_SIZE
-- 
2.43.0


From cc345aaca5a8e9df64d1bd4bdc0d9d6e63ef9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:42 +0000
Subject: [PATCH 242/250] fix: short TBX and COR files were not recognized

---
 lsl/reader/ldp.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index f7c44a5..92fe7ad 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -2245,9 +2245,7 @@ def LWADataFile(filename=None, fh=None, ignore_timetag_errors=False, buffering=-
                 for i in range(2):
                     junkFrame = mode.read_frame(fh)
                 foundMode = True
-            except errors.EOFError:
-                break
-            except errors.SyncError:
+            except (errors.EOFError, errors.SyncError):
                 ### Reset for the next mode...
                 fh.seek(0)
         else:
-- 
2.43.0


From 28f6e3ff2f5cf02f5819031d9d5c29ae19c5ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:42 +0000
Subject: [PATCH 243/250] fix: splitSession.py compared times with and without
 a time zone

---
 scripts/splitSession.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/scripts/splitSession.py b/scripts/splitSession.py
index f263b7c..9c01971 100755
--- a/scripts/splitSession.py
+++ b/scripts/splitSession.py
@@ -70,7 +70,7 @@ def main(args):
         if beam != obs[0]['drx_beam']:
             print(f"ERROR: Beam mis-match, metadata is for #{obs[0]['drx_beam']}, file is for #{beam}")
             sys.exit()
-    firstFrame = lf.time.datetime
+    firstFrame = lf.time.utc_datetime
     if abs(firstFrame - min(tStart)) > timedelta(seconds=30):
         print(f"ERROR: Time mis-match, metadata is for {min(tStart)}, file is for {firstFrame}")
         sys.exit()
@@ -123,11 +123,11 @@ def main(args):
         fh.seek(-reader.FRAME_SIZE, 1)	
 
         ## Go in search of the start of the observation
-        if frame.time.datetime < oStart:
+        if frame.time.utc_datetime < oStart:
             ### We aren't at the beginning yet, seek fowards
-            print(f"-> At byte {fh.tell()}, time is {frame.time.datetime} < {oStart}")
+            print(f"-> At byte {fh.tell()}, time is {frame.time.utc_datetime} < {oStart}")
 
-            while frame.time.datetime < oStart:
+            while frame.time.utc_datetime < oStart:
                 try:
                     frame = reader.read_frame(fh)
                 except errors.SyncError:		
@@ -135,14 +135,14 @@ def main(args):
                 except errors.EOFError:
                     fh.seek(0, 2)
                     break
-                #print(frame.time.datetime, oStart)
+                #print(frame.time.utc_datetime, oStart)
             else:
                 fh.seek(-reader.FRAME_SIZE, 1)
 
         else:
             ### We're there already or we've gone too far, seek backwards to the
             ### first frame that is not before the start
-            print(f"-> At byte {fh.tell()}, time is {frame.time.datetime} >= {oStart}")
+            print(f"-> At byte {fh.tell()}, time is {frame.time.utc_datetime} >= {oStart}")
 
             while fh.tell() >= reader.FRAME_SIZE:
                 fh.seek(-reader.FRAME_SIZE, 1)
@@ -151,16 +151,16 @@ def main(args):
                 except errors.SyncError:		
                     fh.seek(-1, 1)
                     continue
-                if frame.time.datetime < oStart:
+                if frame.time.utc_datetime < oStart:
                     break
                 fh.seek(-reader.FRAME_SIZE, 1)
-                #print(frame.time.datetime, oStart)
+                #print(frame.time.utc_datetime, oStart)
                 
         ## The filehandle is now in a position to read the first frame that is part
         ## of the observation
         try:
             frame = reader.read_frame(fh)
-            print(f"-> At byte {fh.tell()}, time is {frame.time.datetime} = {oStart}")
+            print(f"-> At byte {fh.tell()}, time is {frame.time.utc_datetime} = {oStart}")
             fh.seek(-reader.FRAME_SIZE, 1)
         except errors.EOFError:
             pass
-- 
2.43.0


From 44177b7a7beeea0228ff2820f6f229bc08057f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:30 +0000
Subject: [PATCH 244/250] fix: splitSession.py failed for TBS observations
 after the end of the file

---
 scripts/splitSession.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/splitSession.py b/scripts/splitSession.py
index 9c01971..4e53dd0 100755
--- a/scripts/splitSession.py
+++ b/scripts/splitSession.py
@@ -63,6 +63,7 @@ def main(args):
     # Figure out where in the file the various bits are.
     fh = open(data, 'rb')
     if obs[0]['mode'].name == 'TBS':
+        tbx.FRAME_SIZE = tbx.get_frame_size(fh)
         lf = tbx.read_frame(fh)
     else:
         lf = drx.read_frame(fh)
@@ -89,7 +90,6 @@ def main(args):
         ## Get the correct reader to use
         if oMode == 'TBS':
             reader = tbx
-            reader.FRAME_SIZE = tbx.get_frame_size(fh)
             bwKey = {8: 200e3}
             bwMult = 1.0
             fCount = 8
-- 
2.43.0


From 3fc8ba76d2c75458a10a33c70084ea51f70bd98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:51 +0000
Subject: [PATCH 245/250] fix: take the text of colorfy() literally and over
 several lines

---
 lsl/common/color.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/color.py b/lsl/common/color.py
index ccf26ec..0ac38c0 100644
--- a/lsl/common/color.py
+++ b/lsl/common/color.py
@@ -114,7 +114,7 @@ def colorfy(text):
     # Parse 3 - Work at each level to convert the tags to ANSI sequences
     for level in range(max(levels), -1, -1):
         ## Build the regular expression needed for this depth
-        tagRE = re.compile('{{'+str(level)+'{{%(?P<tag>[a-zA-Z-]+) (?P<text>.*?)}}'+str(level)+'}}')
+        tagRE = re.compile('{{'+str(level)+'{{%(?P<tag>[a-zA-Z-]+) (?P<text>.*?)}}'+str(level)+'}}', re.DOTALL)
         
         ## Match and replace until there is nothing left to match
         pos = 0
@@ -135,7 +135,7 @@ def colorfy(text):
             repl = tag+txt
             repl = repl.replace(_COLORS['reset'], _COLORS['reset']+tag)
             repl = repl+_COLORS['reset']
-            text = tagRE.sub(repl, text, count=1)
+            text = tagRE.sub(lambda m: repl, text, count=1)
             
             ### Get the next match
             mtch = tagRE.search(text, pos)
-- 
2.43.0


From 831e8777da7cc16fccfe50cf60f1b8277636436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:51 +0000
Subject: [PATCH 246/250] fix: let colorfy() take braces that are not part of a
 tag

---
 lsl/common/color.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/common/color.py b/lsl/common/color.py
index 0ac38c0..1ab051e 100644
--- a/lsl/common/color.py
+++ b/lsl/common/color.py
@@ -59,13 +59,13 @@ def _label(text):
         ## there is a '%' immediately afterwards.  For closing we need to make 
         ## sure we actually have a valid level to close.
         if tag == '{{':
-            if post[0] == '%':
+            if post[:1] == '%':
                 tag = '{{'+str(level)+tag
                 level += 1
                 pos = pos + 4
         if tag == '}}':
-            level -=1
-            if level >= 0:
+            if level > 0:
+                level -= 1
                 tag = tag+str(level)+'}}'
                 pos = pos + 4
         text = pre+tag+post
-- 
2.43.0


From 0e3afaa35ffeb5dee70be1a7a3c387074b93bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:51 +0000
Subject: [PATCH 247/250] fix: keep telemetry written in the same second in
 separate files

---
 lsl/misc/telemetry/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index 174d27c..2194509 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -87,6 +87,7 @@ class _TelemetryClient(object):
         # Telemetry cache
         self._cache = {}
         self._cache_count = 0
+        self._write_count = 0
         if not _IS_READONLY:
             # Reporting lockout
             self.active = TELE_CONFIG.get('enabled')
@@ -169,9 +170,10 @@ class _TelemetryClient(object):
                                'elapsed_time': tNow-self._session_start,
                                'calls':        call_payload}
                     
-                    filename = os.path.join(_CACHE_DIR, 'telemetry_%i_%i.log' % (int(tNow), os.getpid()))
+                    filename = os.path.join(_CACHE_DIR, 'telemetry_%i_%i_%i.log' % (int(tNow), os.getpid(), self._write_count))
                     with open(filename, 'w') as lf:
                         lf.write(json.dumps(payload))
+                    self._write_count += 1
                     self.clear()
                     success = True
                     
-- 
2.43.0


From 638e46382d022747b3d421114044d30893c4f4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:51 +0000
Subject: [PATCH 248/250] fix: do nothing when a BusyIndicatorPlus that is not
 running is stopped

---
 lsl/common/busy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsl/common/busy.py b/lsl/common/busy.py
index e400d0f..5960020 100644
--- a/lsl/common/busy.py
+++ b/lsl/common/busy.py
@@ -187,6 +187,9 @@ class BusyIndicatorPlus(BusyIndicator):
         return out
         
     def stop(self, success=True):
+        if self.thread is None:
+            return
+            
         out = getattr(self, "_render_%s" % self.style)(active=False)
         out = "%s%s%s\n" % (self.message, out, 'Done  ' if success else 'Failed')
         sys.stdout.write(out)
-- 
2.43.0


From 8a21554ab2bf1b737709bd632bff86a4600d6309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:20 +0000
Subject: [PATCH 249/250] fix: make telemetry.ignore() stop the logging of
 usage data

---
 lsl/misc/telemetry/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index 2194509..0d0e0c7 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -223,8 +223,7 @@ class _TelemetryClient(object):
         Disable saving data to the telemetry cache in a temporary way.
         """
         
-        TELE_CONFIG.set_temp('enabled', False)
-        self.active = TELE_CONFIG.get('enabled')
+        self.active = False
 
 
 # Create an instance of the telemetry client to use.
-- 
2.43.0


From 8f4a99890fca97800c230b194ba4c2e8d076c07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:49 +0000
Subject: [PATCH 250/250] fix: refuse names with RuntimeError when the answer
 of the service cannot be read

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index f9de758..1281667 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -3508,7 +3508,7 @@ def resolve_name(name):
             _posn = equ_posn.from_astropy(sc)
             _posn.resolved_by = service
             
-    except (IOError, AttributeError, ValueError, RuntimeError) as e:
+    except (IOError, AttributeError, TypeError, ValueError, RuntimeError, ElementTree.ParseError) as e:
         raise RuntimeError(f"Failed to resolve source '{name}'")
         
     return _posn
-- 
2.43.0

