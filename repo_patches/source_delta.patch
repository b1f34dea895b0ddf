From 00764180063ff9617f93de9dc6624111b5d4f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:23 +0000
Subject: [PATCH 01/41] fix: unwrap_dict_to_h5 no longer empties the dict it is
 given

Writing a frame cache consumed nested metadata dicts of the source series
(only the top level was copied), so saving the same series again lost them.
---
 hexrd/core/utils/hdf5.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hexrd/core/utils/hdf5.py b/hexrd/core/utils/hdf5.py
index 99e934c..43171ab 100644
--- a/hexrd/core/utils/hdf5.py
+++ b/hexrd/core/utils/hdf5.py
@@ -22,8 +22,7 @@ def unwrap_dict_to_h5(grp, d, asattr=False):
     None.
 
     """
-    while len(d) > 0:
-        key, item = d.popitem()
+    for key, item in d.items():
         if isinstance(item, dict):
             subgrp = grp.create_group(key)
             unwrap_dict_to_h5(subgrp, item, asattr=asattr)
-- 
2.43.0


From 356d651b4dc62abc77334d224285517c45df96df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:47 +0000
Subject: [PATCH 02/41] fix: frame caches of frames wider or taller than 65536
 pixels

Row and column numbers were stored as uint16 and wrapped around silently.
---
 hexrd/core/imageseries/save.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/imageseries/save.py b/hexrd/core/imageseries/save.py
index aa65d59..1788051 100644
--- a/hexrd/core/imageseries/save.py
+++ b/hexrd/core/imageseries/save.py
@@ -325,6 +325,13 @@ class WriteFrameCache(Writer):
         elif self.style == 'fch5':
             self._write_frames_fch5()
 
+    @property
+    def _index_dtype(self):
+        """smallest type that holds every row and column number"""
+        if max(self._ims.shape) - 1 <= np.iinfo(np.uint16).max:
+            return np.uint16
+        return np.uint32
+
     def _check_sparsity(self, frame_id, count, buff_size):
         # check the sparsity
         #
@@ -347,8 +354,9 @@ class WriteFrameCache(Writer):
 
         num_workers = min(self.max_workers, len(self._ims))
 
-        row_buffers = np.empty((num_workers, buff_size), dtype=np.uint16)
-        col_buffers = np.empty((num_workers, buff_size), dtype=np.uint16)
+        index_dtype = self._index_dtype
+        row_buffers = np.empty((num_workers, buff_size), dtype=index_dtype)
+        col_buffers = np.empty((num_workers, buff_size), dtype=index_dtype)
         val_buffers = np.empty((num_workers, buff_size), dtype=self._ims.dtype)
         buffer_ids = {}
         assign_buffer_lock = threading.Lock()
@@ -406,6 +414,7 @@ class WriteFrameCache(Writer):
         nframes = len(self._ims)
         shape = self._ims.shape
         data_dtype = self._ims.dtype
+        index_dtype = self._index_dtype
 
         frame_indices = np.empty((2 * nframes,), dtype=np.uint64)
         data_dataset = None
@@ -435,7 +444,7 @@ class WriteFrameCache(Writer):
 
             def initialize_buffers():
                 thread_local.data = np.empty((max_frame_size, 1), dtype=self._ims.dtype)
-                thread_local.indices = np.empty((max_frame_size, 2), dtype=np.uint16)
+                thread_local.indices = np.empty((max_frame_size, 2), dtype=index_dtype)
 
             def single_array_write_thread(i):
                 nonlocal file_position, total_size
@@ -477,7 +486,7 @@ class WriteFrameCache(Writer):
             indices_dataset = h5f.create_dataset(
                 "indices",
                 shape=(nframes * max_frame_size, 2),
-                dtype=np.uint16,
+                dtype=index_dtype,
                 compression=self.hdf5_compression,
             )
             with ThreadPoolExecutor(**kwargs) as executor:
-- 
2.43.0


From 95202c5a330681cb91b63b2fb9acbbcec444fe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 03/41] fix: raw image files whose header is as long as a frame
 can be opened

---
 hexrd/core/imageseries/load/rawimage.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/load/rawimage.py b/hexrd/core/imageseries/load/rawimage.py
index 1dd06c1..f355398 100644
--- a/hexrd/core/imageseries/load/rawimage.py
+++ b/hexrd/core/imageseries/load/rawimage.py
@@ -56,7 +56,10 @@ class RawImageSeriesAdapter(ImageSeriesAdapter):
     def _get_length(self):
         """Read file and determine length"""
         nbytes = os.path.getsize(self.fname)
-        if nbytes % self._frame_bytes == self.skipbytes:
+        if (
+            nbytes >= self.skipbytes
+            and (nbytes - self.skipbytes) % self._frame_bytes == 0
+        ):
             nframes = (nbytes - self.skipbytes) // self._frame_bytes
         else:
             msg = (
-- 
2.43.0


From 71e92bd4937fcc0f81aa1ca4e2a527ee5d277f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 04/41] fix: regions of processed image series

---
 hexrd/core/imageseries/process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/core/imageseries/process.py b/hexrd/core/imageseries/process.py
index efdef17..7e9e395 100644
--- a/hexrd/core/imageseries/process.py
+++ b/hexrd/core/imageseries/process.py
@@ -130,6 +130,9 @@ class ProcessedImageSeries(ImageSeries):
         ret[ret < 0] = 0
         return ret
 
+    def get_region(self, frame_idx, region):
+        return self._rectangle(self[frame_idx], region)
+
     def _rectangle_optimized(self, img_key, r):
         return self._imser.get_region(img_key, r)
 
-- 
2.43.0


From 0195d11cd08f72c50e8781e576fd5faba1b7a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 05/41] fix: an IndexError while reading a frame no longer ends
 iteration silently

---
 hexrd/core/imageseries/imageseriesiter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hexrd/core/imageseries/imageseriesiter.py b/hexrd/core/imageseries/imageseriesiter.py
index 868daa9..9d19cf1 100644
--- a/hexrd/core/imageseries/imageseriesiter.py
+++ b/hexrd/core/imageseries/imageseriesiter.py
@@ -16,7 +16,6 @@ class ImageSeriesIterator(collections.abc.Iterator):
         return self
 
     def __next__(self):
-        try:
-            return self._iterable[self._remaining.pop(0)]
-        except IndexError:
+        if not self._remaining:
             raise StopIteration
+        return self._iterable[self._remaining.pop(0)]
-- 
2.43.0


From 831ff9f02c9a02ac4242450d18373a17b8b67f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:44 +0000
Subject: [PATCH 06/41] fix: single-frame files among multi-frame image files
 gave a frame of another file

---
 hexrd/core/imageseries/load/imagefiles.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/load/imagefiles.py b/hexrd/core/imageseries/load/imagefiles.py
index a9b127a..3f85f98 100644
--- a/hexrd/core/imageseries/load/imagefiles.py
+++ b/hexrd/core/imageseries/load/imagefiles.py
@@ -223,7 +223,9 @@ number of files: %s
     def _load_data(self, filename, frame=None):
         """Load data from a file, including processing if needed"""
         with fabio.open(filename) as img:
-            if frame is None:
+            if frame is None or (img.nframes == 1 and frame == 0):
+                # !!! for a single-frame image, fabio's getframe() opens the
+                #     file of that number in the series instead
                 data = img.data
             else:
                 # Fabio does some arithmetic with the frame number.
-- 
2.43.0


From e6ba674c06a2a086c6c08f85f9452ce029fb67e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:22 +0000
Subject: [PATCH 07/41] fix: image files with one frame left after skipping
 empty frames gave the empty frame

---
 hexrd/core/imageseries/load/imagefiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/load/imagefiles.py b/hexrd/core/imageseries/load/imagefiles.py
index 3f85f98..fc25c87 100644
--- a/hexrd/core/imageseries/load/imagefiles.py
+++ b/hexrd/core/imageseries/load/imagefiles.py
@@ -141,7 +141,7 @@ number of files: %s
                 dtp = self._checkvalue(dtp, info.dtype, "inconsistent image dtypes")
             fcl = self._checkvalue(fcl, info.fabioclass, "inconsistent image types")
             nf += info.nframes
-            if info.nframes > 1:
+            if info.nframes > 1 or info.empty > 0:
                 self._singleframes = False
 
         self._nframes = nf
-- 
2.43.0


From 113877fcaec7874385fca8d42335a6d77fd5227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:11 +0000
Subject: [PATCH 08/41] fix: HDF5 image series saves close their file and
 report failed writes

---
 hexrd/core/imageseries/save.py | 39 ++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/hexrd/core/imageseries/save.py b/hexrd/core/imageseries/save.py
index 1788051..0ee6203 100644
--- a/hexrd/core/imageseries/save.py
+++ b/hexrd/core/imageseries/save.py
@@ -160,28 +160,32 @@ class WriteH5(Writer):
     def write(self):
         """Write imageseries to HDF5 file"""
         if isinstance(self._fname, h5py.File):
-            f = self._fname
+            file_cm = contextlib.nullcontext(self._fname)
         else:
-            f = h5py.File(self._fname, "w")
+            file_cm = h5py.File(self._fname, "w")
 
-        g = f.create_group(self._path)
-        s0, s1 = self._shape
+        with file_cm as f:
+            g = f.create_group(self._path)
+            s0, s1 = self._shape
 
-        ds = g.create_dataset(
-            'images', (self._nframes, s0, s1), self._dtype, **self.h5opts
-        )
+            ds = g.create_dataset(
+                'images', (self._nframes, s0, s1), self._dtype, **self.h5opts
+            )
 
-        for i in range(self._nframes):
-            ds[i, :, :] = self._ims[i]
+            for i in range(self._nframes):
+                ds[i, :, :] = self._ims[i]
 
-        # add metadata
-        for k, v in list(self._meta.items()):
-            if np.issubdtype(v.dtype, 'U'):
-                # HDF5 can't handle unicode strings.
-                # Turn it into a regular string.
-                v = v.astype('S')
+            # add metadata
+            for k, v in list(self._meta.items()):
+                if np.issubdtype(v.dtype, 'U'):
+                    # HDF5 can't handle unicode strings.
+                    # Turn it into a regular string.
+                    v = v.astype('S')
 
-            g.attrs[k] = v
+                g.attrs[k] = v
+
+            # errors when flushing are raised; some are lost when closing
+            ds.file.flush()
 
     @property
     def h5opts(self):
@@ -506,6 +510,9 @@ class WriteFrameCache(Writer):
                 compression=self.hdf5_compression,
             )
 
+            # errors when flushing are raised; some are lost when closing
+            data_dataset.file.flush()
+
     def write(self, output_yaml=False):
         """writes frame cache for imageseries
 
-- 
2.43.0


From b82d93845b44223ddc1f6efd9a0123b06b29273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:03 +0000
Subject: [PATCH 09/41] fix: metadata edits of Eiger stream series survive
 pickling

---
 hexrd/core/imageseries/load/eiger_stream_v1.py | 1 -
 hexrd/core/imageseries/load/eiger_stream_v2.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/hexrd/core/imageseries/load/eiger_stream_v1.py b/hexrd/core/imageseries/load/eiger_stream_v1.py
index 25ebe67..f6b5740 100644
--- a/hexrd/core/imageseries/load/eiger_stream_v1.py
+++ b/hexrd/core/imageseries/load/eiger_stream_v1.py
@@ -74,7 +74,6 @@ class EigerStreamV1ImageSeriesAdapter(ImageSeriesAdapter):
     def __setstate__(self, state):
         self.__dict__.update(state)
         self._h5file = h5py.File(self._h5name, 'r')
-        self._load_metadata()
 
     def _load_metadata(self):
         self.__meta = self._get_metadata()
diff --git a/hexrd/core/imageseries/load/eiger_stream_v2.py b/hexrd/core/imageseries/load/eiger_stream_v2.py
index 74a99a7..3636eba 100644
--- a/hexrd/core/imageseries/load/eiger_stream_v2.py
+++ b/hexrd/core/imageseries/load/eiger_stream_v2.py
@@ -166,7 +166,6 @@ class EigerStreamV2ImageSeriesAdapter(ImageSeriesAdapter):
     def __setstate__(self, state):
         self.__dict__.update(state)
         self.__h5file = h5py.File(self.__h5name, 'r')
-        self._load_metadata()
 
     def _load_metadata(self):
         self.__meta = self._get_metadata()
-- 
2.43.0


From ac80a99ebcc513e318d768aa05fbd914dbab7fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:54 +0000
Subject: [PATCH 10/41] fix: the first image yielded by average_iter no longer
 changes later

---
 hexrd/core/imageseries/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/imageseries/stats.py b/hexrd/core/imageseries/stats.py
index 433bfb4..46e82d9 100644
--- a/hexrd/core/imageseries/stats.py
+++ b/hexrd/core/imageseries/stats.py
@@ -164,7 +164,8 @@ def average_iter(
     if stop == 0:
         if nf > 1:
             s0, stop = 1, stops[1]
-        yield img
+        # Copy so later in-place accumulation can't mutate the yielded array.
+        yield img.copy()
 
     for i in range(1, nf):
         img += ims[i]
-- 
2.43.0


From e09e6cc3b83718c368d96f1e78411c90c3aa6f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:59 +0000
Subject: [PATCH 11/41] fix: memoized functions can be called from several
 threads

---
 hexrd/core/utils/decorators.py | 45 ++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index b9aa391..13144e0 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -8,6 +8,7 @@ go into another topical module in :mod:`hexrd.core.utils`.
 
 from collections import OrderedDict
 from functools import wraps
+from threading import RLock
 
 import numba
 import numpy as np
@@ -40,6 +41,9 @@ def memoize(func=None, maxsize=2):
     def decorator(func):
 
         cache = OrderedDict()
+        # Held while the cache is looked at or changed, but not while the
+        # function runs.
+        lock = RLock()
         hits = 0
         misses = 0
 
@@ -53,8 +57,11 @@ def memoize(func=None, maxsize=2):
 
         def set_cache_maxsize(x):
             nonlocal maxsize
-            maxsize = x
+            with lock:
+                maxsize = x
+                trim()
 
+        def trim():
             while len(cache) > maxsize:
                 # Remove the left item (least recently used)
                 cache.popitem(last=False)
@@ -69,28 +76,28 @@ def memoize(func=None, maxsize=2):
 
             all_args = list(args) + sorted(kwargs.items())
             key = _make_hashable(all_args)
-            if key not in cache:
-                # Make sure the current size is less than the max size
-                while len(cache) >= maxsize:
-                    # Remove the left item (least recently used)
-                    cache.popitem(last=False)
-
-                output = func(*args, **kwargs)
-                if isinstance(output, np.ndarray):
-                    # Make the array readonly so that caller functions *cannot*
-                    # modify the cached output array. Otherwise, we run into
-                    # hard-to-track-down bugs.
-                    output.flags.writeable = False
-
+            with lock:
+                if key in cache:
+                    # Move the item to the right (most recently used)
+                    cache.move_to_end(key)
+                    hits += 1
+                    return cache[key]
+
+            output = func(*args, **kwargs)
+            if isinstance(output, np.ndarray):
+                # Make the array readonly so that caller functions *cannot*
+                # modify the cached output array. Otherwise, we run into
+                # hard-to-track-down bugs.
+                output.flags.writeable = False
+
+            with lock:
                 # This inserts the item on the right (most recently used)
                 cache[key] = output
-                misses += 1
-            else:
-                # Move the item to the right (most recently used)
                 cache.move_to_end(key)
-                hits += 1
+                misses += 1
+                trim()
 
-            return cache[key]
+            return output
 
         return wrapped
 
-- 
2.43.0


From 0f3d49266e28512498a38b9b66fccb34c06871aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:03 +0000
Subject: [PATCH 12/41] fix: memoized results of different arguments are not
 confused

---
 hexrd/core/utils/decorators.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index 13144e0..26c2ed9 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -74,8 +74,7 @@ def memoize(func=None, maxsize=2):
             nonlocal misses
             nonlocal hits
 
-            all_args = list(args) + sorted(kwargs.items())
-            key = _make_hashable(all_args)
+            key = _make_hashable([args, kwargs])
             with lock:
                 if key in cache:
                     # Move the item to the right (most recently used)
@@ -116,14 +115,14 @@ def _make_hashable(items):
     def convert(x):
         # Perform any conversions here to make a variable hashable
         if isinstance(x, np.ndarray):
-            # Create an sha1 of the data, and throw in a string
-            # and the shape.
-            x = np.ascontiguousarray(x)
-            return ('__type_np.ndarray', x.shape, xxhash.xxh3_128_hexdigest(x))
+            # Create a hash of the data, and throw in a string,
+            # the shape, and the dtype.
+            digest = xxhash.xxh3_128_hexdigest(np.ascontiguousarray(x))
+            return ('__type_np.ndarray', x.shape, x.dtype.str, digest)
         elif isinstance(x, (list, tuple)):
             return _make_hashable(x)
         elif isinstance(x, dict):
-            return _make_hashable(sorted(x.items()))
+            return ('__type_dict', _make_hashable(sorted(x.items())))
         return x
 
     return tuple(map(convert, items))
-- 
2.43.0


From 09a7f2a3f3fc8f96372cac8cf1355ecf541cb00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:06 +0000
Subject: [PATCH 13/41] fix: arrays in memoized tuples are read-only too

---
 hexrd/core/utils/decorators.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index 26c2ed9..06600ef 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -83,11 +83,7 @@ def memoize(func=None, maxsize=2):
                     return cache[key]
 
             output = func(*args, **kwargs)
-            if isinstance(output, np.ndarray):
-                # Make the array readonly so that caller functions *cannot*
-                # modify the cached output array. Otherwise, we run into
-                # hard-to-track-down bugs.
-                output.flags.writeable = False
+            _make_readonly(output)
 
             with lock:
                 # This inserts the item on the right (most recently used)
@@ -106,6 +102,19 @@ def memoize(func=None, maxsize=2):
         return decorator(func)
 
 
+def _make_readonly(output):
+    """Make arrays readonly, including those in (nested) tuples and lists
+
+    This is so that caller functions *cannot* modify a cached output array.
+    Otherwise, we run into hard-to-track-down bugs.
+    """
+    if isinstance(output, np.ndarray):
+        output.flags.writeable = False
+    elif isinstance(output, (list, tuple)):
+        for x in output:
+            _make_readonly(x)
+
+
 def _make_hashable(items):
     """Convert a list of items into hashable forms
 
-- 
2.43.0


From 080c52a66a766dc30618fa038a78f3ea79a977fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:10 +0000
Subject: [PATCH 14/41] fix: pixel angles are recomputed after distortion
 parameters change

---
 hexrd/core/utils/decorators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hexrd/core/utils/decorators.py b/hexrd/core/utils/decorators.py
index 06600ef..a293ba6 100644
--- a/hexrd/core/utils/decorators.py
+++ b/hexrd/core/utils/decorators.py
@@ -14,6 +14,8 @@ import numba
 import numpy as np
 import xxhash
 
+from hexrd.core.distortion.distortionabc import DistortionABC
+
 
 def undoc(func):
     """Mark a function or class as undocumented.
@@ -132,6 +134,10 @@ def _make_hashable(items):
             return _make_hashable(x)
         elif isinstance(x, dict):
             return ('__type_dict', _make_hashable(sorted(x.items())))
+        elif isinstance(x, DistortionABC):
+            # These can be modified, so use their current parameters
+            params = getattr(x, 'params', None)
+            return ('__type_distortion', type(x), _make_hashable([params]))
         return x
 
     return tuple(map(convert, items))
-- 
2.43.0


From 11f25c847733981def0e830abef72a212ebb0727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 15/41] fix: cylindrical detectors find their projection
 helpers

---
 hexrd/hedm/xrdutil/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 77c9c45..80f95d5 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -40,7 +40,13 @@ from hexrd.core import matrixutil as mutil
 from hexrd.core import rotations as rot
 from hexrd.core import gridutil as gutil
 
-from hexrd.hed.xrdutil.utils import _project_on_detector_plane
+from hexrd.hed.xrdutil.utils import (
+    _clip_to_cylindrical_detector,
+    _dewarp_from_cylinder,
+    _project_on_detector_cylinder,
+    _project_on_detector_plane,
+    _unitvec_to_cylinder,
+)
 from hexrd.core.material.crystallography import processWavelength, PlaneData
 
 from hexrd.core.transforms import xfcapi
-- 
2.43.0


From 9072c1a20a533f93a5e4ed1af75ffa78b474e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:21 +0000
Subject: [PATCH 16/41] fix: hklIDs for polar maps may be given as plain ints

---
 hexrd/core/instrument/hedm_instrument.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 7ee65be..298ebb8 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -1120,7 +1120,9 @@ class HEDMInstrument(object):
                 raise TypeError("active_hkls must be an iterable with __len__")
 
             # these are all active reflection unique hklIDs
-            active_hklIDs = plane_data.getHKLID(plane_data.hkls, master=True)
+            active_hklIDs = np.asarray(
+                plane_data.getHKLID(plane_data.hkls, master=True)
+            )
 
             # find indices
             idx = np.zeros_like(active_hkls, dtype=int)
-- 
2.43.0


From 955e889331314786395e91573692a43b107c9bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:58 +0000
Subject: [PATCH 17/41] fix: eta-omega maps of image series with several omega
 wedges

---
 hexrd/hedm/instrument/generate_eta_omega_maps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/instrument/generate_eta_omega_maps.py b/hexrd/hedm/instrument/generate_eta_omega_maps.py
index 298631e..17a2547 100644
--- a/hexrd/hedm/instrument/generate_eta_omega_maps.py
+++ b/hexrd/hedm/instrument/generate_eta_omega_maps.py
@@ -86,7 +86,7 @@ class GenerateEtaOmeMaps:
             #     the omegas attribute?
             owedges = this_det_ims.omegawedges.wedges
             ostart = owedges[0]['ostart']  # !!! DEGREES
-            ostop = float(mapAngle(owedges[-1]['ostop'], ome_period, units='degrees'))
+            ostop = mapAngle(owedges[-1]['ostop'], ome_period, units='degrees').item()
             # compute total nsteps
             # FIXME: need check for roundoff badness
             nsteps = int((ostop - ostart) / delta_ome)
-- 
2.43.0


From 7e695532372c2810c0b9e47f3806df584b681d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:25 +0000
Subject: [PATCH 18/41] fix: sums in eta-omega maps of integer images wrapped
 around

---
 hexrd/core/instrument/hedm_instrument.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 298ebb8..e4c89cb 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -2551,7 +2551,9 @@ def _run_histograms(rows, ims, tth_ranges, ring_maps, ring_params, threshold):
 
             # Unpack the params
             pixel_etas, eta_edges, pixel_ids, bins_on_detector = params
-            result = histogram(pixel_etas, bins=eta_edges, weights=image[pixel_ids])[0]
+            # !!! sums would wrap around in the (integer) type of the image
+            weights = image[pixel_ids].astype(np.float64)
+            result = histogram(pixel_etas, bins=eta_edges, weights=weights)[0]
 
             # Note that this preserves nan values for bins not on the detector.
             this_map[i_row, bins_on_detector] = result[bins_on_detector]
-- 
2.43.0


From 0ce38da3a8b7ce4a4df6353b4fe1e94d60bcf122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:16 +0000
Subject: [PATCH 19/41] fix: last omega row of multi-wedge eta-omega maps lost
 to roundoff

---
 hexrd/hedm/instrument/generate_eta_omega_maps.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hexrd/hedm/instrument/generate_eta_omega_maps.py b/hexrd/hedm/instrument/generate_eta_omega_maps.py
index 17a2547..7cff6b9 100644
--- a/hexrd/hedm/instrument/generate_eta_omega_maps.py
+++ b/hexrd/hedm/instrument/generate_eta_omega_maps.py
@@ -88,8 +88,7 @@ class GenerateEtaOmeMaps:
             ostart = owedges[0]['ostart']  # !!! DEGREES
             ostop = mapAngle(owedges[-1]['ostop'], ome_period, units='degrees').item()
             # compute total nsteps
-            # FIXME: need check for roundoff badness
-            nsteps = int((ostop - ostart) / delta_ome)
+            nsteps = int(np.round((ostop - ostart) / delta_ome))
             ome_edges_full = np.linspace(ostart, ostop, num=nsteps + 1, endpoint=True)
             omegas_array = np.vstack([ome_edges_full[:-1], ome_edges_full[1:]]).T
             ome_centers = np.average(omegas_array, axis=1)
-- 
2.43.0


From eb8dc92ba5ff1b44328593803f10623c1ed3f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:51 +0000
Subject: [PATCH 20/41] fix: stacks of shared images are cut into panels image
 by image

---
 hexrd/core/instrument/hedm_instrument.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index e4c89cb..98c941c 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -329,10 +329,8 @@ def _parse_imgser_dict(
                 ncols = roi[1][1] - roi[1][0]
                 n_images = len(images_in)
                 ims = np.empty((n_images, nrows, ncols), dtype=images_in.dtype)
-                for i, image in images_in:  # TODO: Is this meant to be an enumerate?
-                    ims[i, :, :] = images_in[
-                        roi[0][0] : roi[0][1], roi[1][0] : roi[1][1]
-                    ]
+                for i, image in enumerate(images_in):
+                    ims[i, :, :] = image[roi[0][0] : roi[0][1], roi[1][0] : roi[1][1]]
             else:
                 raise RuntimeError(f"image input dim must be 2 or 3; you gave {ndim}")
     return ims
-- 
2.43.0


From ba1c6cf5fbcae69e84762bbead1420c80273b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:51 +0000
Subject: [PATCH 21/41] fix: line positions without eta collapse ignore
 do_fitting

---
 hexrd/core/instrument/hedm_instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 98c941c..47d3273 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -2810,7 +2810,7 @@ def _extract_ring_line_positions(
                     ims_data.append(p_img)
         if not collapse_tth:
             output = [ang_data, ims_data]
-            if do_fitting:
+            if do_fitting and collapse_eta:
                 output.append(fit_data)
             patch_data.append(output)
 
-- 
2.43.0


From 575ef00440eaddee2045fcd3ccf82baac78c3bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:36 +0000
Subject: [PATCH 22/41] fix: line positions of merged rings use the two-theta
 width they were given

---
 hexrd/core/instrument/hedm_instrument.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 47d3273..4a7d09e 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -2598,7 +2598,11 @@ def _extract_detector_line_positions(
 
     # !!! this is only needed if doing fitting
     if isinstance(plane_data, PlaneData):
-        tth_idx, tth_ranges = plane_data.getMergedRanges(cullDupl=True)
+        # !!! merge with the same width as the rings above
+        merged_pd = PlaneData(None, plane_data)
+        if tth_tol is not None:
+            merged_pd.tThWidth = np.radians(tth_tol)
+        tth_idx, tth_ranges = merged_pd.getMergedRanges(cullDupl=True)
         tth_ref = plane_data.getTTh()
         tth0 = [np.degrees(tth_ref[i]) for i in tth_idx]
     else:
-- 
2.43.0


From 9b3e0f5bbf44d3a02f78f5e31284432a04fa5899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:36 +0000
Subject: [PATCH 23/41] fix: line positions given as angles can be fitted

---
 hexrd/core/instrument/hedm_instrument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 4a7d09e..8464980 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -2606,7 +2606,7 @@ def _extract_detector_line_positions(
         tth_ref = plane_data.getTTh()
         tth0 = [np.degrees(tth_ref[i]) for i in tth_idx]
     else:
-        tth0 = plane_data
+        tth0 = [np.atleast_1d(i) for i in plane_data]
 
     # =================================================================
     # LOOP OVER RING SETS
-- 
2.43.0


From af5e1595d383cc1971a131026f5a9e0af3a6b8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 24/41] fix: paintGrid scores fewer orientations than processes

---
 hexrd/hedm/indexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index 7b657a8..5c6beaa 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -295,7 +295,7 @@ def paintGrid(
 
     if multiProcMode:
         nCPUs = nCPUs or nCPUs_DFLT
-        chunksize = min(quats.shape[1] // nCPUs, 10)
+        chunksize = max(1, min(quats.shape[1] // nCPUs, 10))
         logger.debug(
             "using multiprocessing with %d processes and a chunk size of %d",
             nCPUs,
-- 
2.43.0


From 233b627c795bc206a65f1df01baa3180c8a8e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 25/41] fix: paintGrid with invalid ranges hung in parallel
 mode

---
 hexrd/hedm/indexer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index 5c6beaa..ae2e838 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -341,6 +341,11 @@ def paintGrid(
     retval = None
     if multiProcMode:
         # multiple process version
+        # !!! bad ranges must raise here: a pool restarts workers whose
+        #     initializer raises for ever
+        _normalize_ranges(omeMin, omeMax, min(omePeriod))
+        _normalize_ranges(etaMin, etaMax, -np.pi)
+
         pool = constants.mp_context.Pool(nCPUs, paintgrid_init, (params,))
         retval = pool.map(paintGridThis, quats.T, chunksize=chunksize)
         pool.close()
-- 
2.43.0


From 018535200da2cabfe26d0eb4efc51cdd2efe58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:28 +0000
Subject: [PATCH 26/41] fix: paintGrid ends its workers when scoring fails

---
 hexrd/hedm/indexer.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hexrd/hedm/indexer.py b/hexrd/hedm/indexer.py
index ae2e838..7f94a18 100644
--- a/hexrd/hedm/indexer.py
+++ b/hexrd/hedm/indexer.py
@@ -347,15 +347,22 @@ def paintGrid(
         _normalize_ranges(etaMin, etaMax, -np.pi)
 
         pool = constants.mp_context.Pool(nCPUs, paintgrid_init, (params,))
-        retval = pool.map(paintGridThis, quats.T, chunksize=chunksize)
-        pool.close()
-        pool.join()
+        try:
+            retval = pool.map(paintGridThis, quats.T, chunksize=chunksize)
+            pool.close()
+        except BaseException:
+            pool.terminate()
+            raise
+        finally:
+            pool.join()
     else:
         # single process version.
         global paramMP
         paintgrid_init(params)  # sets paramMP
-        retval = list(map(paintGridThis, quats.T))
-        paramMP = None  # clear paramMP
+        try:
+            retval = list(map(paintGridThis, quats.T))
+        finally:
+            paramMP = None  # clear paramMP
     elapsed = timeit.default_timer() - start
     logger.info("paintGrid took %.3f seconds", elapsed)
 
-- 
2.43.0


From 4ba5616a828a41f16743546770584d7ef4dec7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:27 +0000
Subject: [PATCH 27/41] fix: fiber generation ends its workers when one fails

---
 hexrd/hedm/findorientations.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hexrd/hedm/findorientations.py b/hexrd/hedm/findorientations.py
index 5747672..ef5bac7 100644
--- a/hexrd/hedm/findorientations.py
+++ b/hexrd/hedm/findorientations.py
@@ -149,10 +149,14 @@ def generate_orientation_fibers(cfg, eta_ome):
         # ???: Need a chunksize in map?
         chunksize = max(1, len(input_p) // (10 * ncpus))
         pool = const.mp_context.Pool(ncpus, discretefiber_init, (params,))
-        qfib = pool.map(discretefiber_reduced, input_p, chunksize=chunksize)
-
-        pool.close()
-        pool.join()
+        try:
+            qfib = pool.map(discretefiber_reduced, input_p, chunksize=chunksize)
+            pool.close()
+        except BaseException:
+            pool.terminate()
+            raise
+        finally:
+            pool.join()
     else:
         # single process version.
         discretefiber_init(params)  # sets paramMP
-- 
2.43.0


From f63ec98c928b56dd0a9ea3f75364a9476c74dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 28/41] fix: grains with an overlap table can be fitted

The table was matched against an undefined grain id, and reflections
that are not on the panel broke the marking.
---
 hexrd/hedm/fitgrains.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/hexrd/hedm/fitgrains.py b/hexrd/hedm/fitgrains.py
index 4904cea..124e66d 100644
--- a/hexrd/hedm/fitgrains.py
+++ b/hexrd/hedm/fitgrains.py
@@ -129,7 +129,7 @@ def fit_grain_FF_reduced(grain_id):
         )
 
         culled_results, num_refl_valid, completeness = determine_valid_reflections(
-            results, instrument, analysis_dirname
+            results, instrument, analysis_dirname, grain_id
         )
 
         # ======= DO LEASTSQ FIT =======
@@ -215,7 +215,7 @@ def fit_grain_FF_reduced(grain_id):
     return result
 
 
-def determine_valid_reflections(results, instrument, analysis_dirname):
+def determine_valid_reflections(results, instrument, analysis_dirname, grain_id=None):
     """Process results from `pull_spots()`
 
     PARAMETERS
@@ -226,6 +226,8 @@ def determine_valid_reflections(results, instrument, analysis_dirname):
        the HEDM instrument
     analysis_dirname: str or Path
        the analysis output directory
+    grain_id: int, optional
+       the grain id, for looking up its reflections in the overlap tables
 
     RETURNS
     -------
@@ -274,19 +276,20 @@ def determine_valid_reflections(results, instrument, analysis_dirname):
         # if an overlap table has been written, load it and use it
         overlaps = np.zeros_like(idx, dtype=bool)
         try:
-            ot = np.load(
+            with np.load(
                 os.path.join(
                     analysis_dirname,
                     os.path.join(det_key, OVERLAP_TABLE_FILE),
                 )
-            )
-            for key in ot.keys():
-                for this_table in ot[key]:
-                    these_overlaps = np.where(this_table[:, 0] == grain_id)[0]
-                    if len(these_overlaps) > 0:
-                        mark_these = np.array(this_table[these_overlaps, 1], dtype=int)
-                        otidx = [np.where(refl_ids == mt)[0] for mt in mark_these]
-                        overlaps[otidx] = True
+            ) as ot:
+                for key in ot.keys():
+                    for this_table in ot[key]:
+                        these_overlaps = np.where(this_table[:, 0] == grain_id)[0]
+                        if len(these_overlaps) > 0:
+                            mark_these = np.array(
+                                this_table[these_overlaps, 1], dtype=int
+                            )
+                            overlaps |= np.isin(refl_ids, mark_these)
             idx = np.logical_and(idx, ~overlaps)
             # logger.info("found overlap table for '%s'", det_key)
         except (IOError, IndexError):
-- 
2.43.0


From e4984663c23a51fb27eb30d979b222e8a7f091bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:35 +0000
Subject: [PATCH 29/41] fix: fit the grains that were asked for

With a subset of the grains, or ids that are not the row numbers, the
parameters of another row were fitted, or none found.
---
 hexrd/hedm/fitgrains.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hexrd/hedm/fitgrains.py b/hexrd/hedm/fitgrains.py
index 124e66d..ec5f743 100644
--- a/hexrd/hedm/fitgrains.py
+++ b/hexrd/hedm/fitgrains.py
@@ -59,6 +59,14 @@ def fit_grain_FF_cleanup():
     del paramMP
 
 
+def _row_of_grain(grains_table, grain_id):
+    """The row of the grains table that holds the grain with this id"""
+    rows = np.flatnonzero(grains_table[:, 0] == grain_id)
+    if len(rows) == 0:
+        raise IndexError(f'grain {grain_id} is not in the grains table')
+    return rows[0]
+
+
 def fit_grain_FF_reduced(grain_id):
     """
     Perform non-linear least-square fit for the specified grain.
@@ -106,7 +114,7 @@ def fit_grain_FF_reduced(grain_id):
 
     return_pull_spots_data: bool = paramMP.get('return_pull_spots_data', False)
 
-    grain = grains_table[grain_id]
+    grain = grains_table[_row_of_grain(grains_table, grain_id)]
     grain_params = grain[3:15]
 
     for tols in zip(tth_tol, eta_tol, ome_tol):
@@ -422,7 +430,8 @@ def fit_grains(
     threshold = cfg.fit_grains.threshold
 
     if ids_to_refine is not None:
-        grains_table = np.atleast_2d(grains_table[ids_to_refine, :])
+        rows = [_row_of_grain(grains_table, i) for i in np.atleast_1d(ids_to_refine)]
+        grains_table = grains_table[rows, :]
 
     spots_filename = SPOTS_OUT_FILE if write_spots_files else None
     params = dict(
-- 
2.43.0


From b8fcbefd4062b520dd5d682841f8bde9ab931920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:26 +0000
Subject: [PATCH 30/41] fix: fitting grains leaves the grains table alone

A serial fit overwrote the caller's table, so that fitting again, or
fitting in parallel, started from other parameters.
---
 hexrd/hedm/fitgrains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hexrd/hedm/fitgrains.py b/hexrd/hedm/fitgrains.py
index ec5f743..dea6dfc 100644
--- a/hexrd/hedm/fitgrains.py
+++ b/hexrd/hedm/fitgrains.py
@@ -115,7 +115,8 @@ def fit_grain_FF_reduced(grain_id):
     return_pull_spots_data: bool = paramMP.get('return_pull_spots_data', False)
 
     grain = grains_table[_row_of_grain(grains_table, grain_id)]
-    grain_params = grain[3:15]
+    # !!! the fit works in place, and the table is shared between fits
+    grain_params = grain[3:15].copy()
 
     for tols in zip(tth_tol, eta_tol, ome_tol):
         complvec, results = instrument.pull_spots(
-- 
2.43.0


From be9e833e9b9f9261326dceead5e53b8fa95a764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 31/41] fix: near-field chunks stay within the coordinates of
 the rank

The last chunk of a rank, or of a limited run, reached into coordinates
that are not part of it, and the results did not fit.
---
 hexrd/hedm/grainmap/nfutil.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index 28d9e52..e1fca00 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -767,7 +767,8 @@ def test_orientations(
                 experiment,
             ),
         ) as pool:
-            for rslice, rvalues in pool.imap_unordered(multiproc_inner_loop, chunks):
+            tasks = [(i, min(offset + size, i + chunk_size)) for i in chunks]
+            for rslice, rvalues in pool.imap_unordered(multiproc_inner_loop, tasks):
                 count = rvalues.shape[1]
                 # We need to adjust this slice for the offset
                 rslice = slice(rslice.start - offset, rslice.stop - offset)
@@ -777,7 +778,7 @@ def test_orientations(
     else:
         logger.info('Running in a single process')
         for chunk_start in chunks:
-            chunk_stop = min(n_coords, chunk_start + chunk_size)
+            chunk_stop = min(offset + size, chunk_start + chunk_size)
             rslice, rvalues = _grand_loop_inner(
                 image_stack,
                 all_angles,
@@ -974,15 +975,10 @@ def generate_test_grid(low, top, samples):
 
 def multiproc_inner_loop(chunk):
     """function to use in multiprocessing that computes the simulation over the
-    task's alloted chunk of data"""
+    task's alloted chunk of data: (start, stop)"""
 
-    chunk_size = _mp_state[0]
-    n_coords = len(_mp_state[4])
-
-    (offset, size) = get_offset_size(n_coords)
-
-    chunk_stop = min(offset + size, chunk + chunk_size)
-    return _grand_loop_inner(*_mp_state[1:], start=chunk, stop=chunk_stop)
+    start, stop = chunk
+    return _grand_loop_inner(*_mp_state[1:], start=start, stop=stop)
 
 
 def worker_init(id_state, id_exp):
-- 
2.43.0


From 9b6fe26cf0f143640f907fbdeceec032b543d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 32/41] fix: near-field runs end their workers and use the
 start method asked for

The pools were never ended, a failed run kept its state, and the start
method of the first run was used for all later runs in the process.
---
 hexrd/hedm/grainmap/nfutil.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index e1fca00..af368e8 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -1009,10 +1009,7 @@ def grand_loop_pool(ncpus, state):
     #           experiment )
     global _multiprocessing_start_method
 
-    try:
-        multiprocessing.set_start_method(_multiprocessing_start_method)
-    except:
-        logger.info('Multiprocessing context already set')
+    context = multiprocessing.get_context(_multiprocessing_start_method)
 
     if _multiprocessing_start_method == 'fork':
         # Use FORK multiprocessing.
@@ -1022,9 +1019,11 @@ def grand_loop_pool(ncpus, state):
         # theprocessing the global is removed.
         global _mp_state
         _mp_state = state
-        pool = multiprocessing.Pool(ncpus)
-        yield pool
-        del _mp_state
+        try:
+            with context.Pool(ncpus) as pool:
+                yield pool
+        finally:
+            del _mp_state
     else:
         # Use SPAWN multiprocessing.
 
@@ -1048,8 +1047,10 @@ def grand_loop_pool(ncpus, state):
                 compress=True,
             )
             id_state = joblib.dump(state[:-1], os.path.join(tmp_dir, 'grand-loop-data'))
-            pool = multiprocessing.Pool(ncpus, worker_init, (id_state[0], id_exp[0]))
-            yield pool
+            with context.Pool(
+                ncpus, worker_init, (id_state[0], id_exp[0])
+            ) as pool:
+                yield pool
         finally:
             logger.info('Deleting "%s".', tmp_dir)
             shutil.rmtree(tmp_dir)
-- 
2.43.0


From b0826739d4313dedd75e0db3e198bdbfd46c9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 33/41] fix: a near-field run whose workers cannot load its
 state fails

It hung, with the pool starting workers for ever.
---
 hexrd/hedm/grainmap/nfutil.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hexrd/hedm/grainmap/nfutil.py b/hexrd/hedm/grainmap/nfutil.py
index af368e8..3c17849 100644
--- a/hexrd/hedm/grainmap/nfutil.py
+++ b/hexrd/hedm/grainmap/nfutil.py
@@ -977,6 +977,9 @@ def multiproc_inner_loop(chunk):
     """function to use in multiprocessing that computes the simulation over the
     task's alloted chunk of data: (start, stop)"""
 
+    if isinstance(_mp_state, Exception):
+        raise _mp_state
+
     start, stop = chunk
     return _grand_loop_inner(*_mp_state[1:], start=start, stop=stop)
 
@@ -988,9 +991,14 @@ def worker_init(id_state, id_exp):
     import joblib
 
     global _mp_state
-    state = joblib.load(id_state)
-    experiment = joblib.load(id_exp)
-    _mp_state = state + (experiment,)
+    try:
+        state = joblib.load(id_state)
+        experiment = joblib.load(id_exp)
+        _mp_state = state + (experiment,)
+    except Exception as e:
+        # !!! raised by the tasks: the pool replaces a worker that fails here,
+        #     for ever
+        _mp_state = e
 
 
 @contextlib.contextmanager
-- 
2.43.0


From c2f33f6ade5f717e41d6d4992d87f92441d33b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 34/41] fix: near-field diffraction angles can be computed

simulateGVecs called a function that was replaced, which always raises.
---
 hexrd/hedm/xrdutil/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/xrdutil/utils.py b/hexrd/hedm/xrdutil/utils.py
index 80f95d5..108fc34 100644
--- a/hexrd/hedm/xrdutil/utils.py
+++ b/hexrd/hedm/xrdutil/utils.py
@@ -692,7 +692,7 @@ def simulateGVecs(
         op_idx = np.where(on_panel)[0]
 
         valid_ang = allAngs[op_idx, :]
-        valid_ang[:, 2] = xfcapi.mapAngle(valid_ang[:, 2], ome_period)
+        valid_ang[:, 2] = rot.mapAngle(valid_ang[:, 2], ome_period)
         valid_ids = allHKLs[op_idx, 0]
         valid_hkl = allHKLs[op_idx, 1:]
         valid_xy = det_xy[op_idx, :]
-- 
2.43.0


From 461e3f1fa641bcb0c4af6beed3c4d065f1e5dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:35 +0000
Subject: [PATCH 35/41] fix: spot files in HDF5 format and one-grain tables can
 be used

---
 hexrd/core/instrument/hedm_instrument.py | 2 +-
 hexrd/hedm/cli/fit_grains.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hexrd/core/instrument/hedm_instrument.py b/hexrd/core/instrument/hedm_instrument.py
index 8464980..431af52 100644
--- a/hexrd/core/instrument/hedm_instrument.py
+++ b/hexrd/core/instrument/hedm_instrument.py
@@ -2365,7 +2365,7 @@ class GrainDataWriter_h5(object):
         if isinstance(filename, h5py.File):
             self.fid = filename
         else:
-            self.fid = h5py.File(filename + ".hdf5", "w")
+            self.fid = h5py.File(f"{filename}.hdf5", "w")
         icfg = dict(instr_cfg)
 
         # add instrument groups and attributes
diff --git a/hexrd/hedm/cli/fit_grains.py b/hexrd/hedm/cli/fit_grains.py
index 42ff5d7..aca55d3 100644
--- a/hexrd/hedm/cli/fit_grains.py
+++ b/hexrd/hedm/cli/fit_grains.py
@@ -65,7 +65,7 @@ class GrainData(_BaseGrainData):
     @classmethod
     def from_grains_out(cls, fname):
         """Read hexrd grains output file"""
-        return cls.from_array(np.loadtxt(fname))
+        return cls.from_array(np.loadtxt(fname, ndmin=2).reshape(-1, 21))
 
     @classmethod
     def from_array(cls, a):
-- 
2.43.0


From 02490e4c39d0f6598dfa6c4d96bb515c35584aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 36/41] fix: a failed save leaves a materials file closed and
 as it was

---
 hexrd/core/material/material.py  |  9 +++------
 hexrd/core/material/mksupport.py | 24 ++++++++++++++----------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/hexrd/core/material/material.py b/hexrd/core/material/material.py
index 8dda950..58b79e8 100644
--- a/hexrd/core/material/material.py
+++ b/hexrd/core/material/material.py
@@ -826,8 +826,9 @@ class Material(object):
             if not path.exists(fhdf):
                 raise IOError('material file does not exist.')
 
-            root_gid = h5py.File(fhdf, 'r')
-            xtal = f'/{xtal}'
+            with h5py.File(fhdf, 'r') as root_gid:
+                self._readHDFxtal(root_gid, f'/{xtal}')
+            return
         elif isinstance(fhdf, h5py.Group):
             root_gid = fhdf
         else:
@@ -968,10 +969,6 @@ class Material(object):
         if 'hkls' in gid:
             self.hkl_from_file = np.array(gid.get('hkls'), dtype=np.int32)
 
-        if isinstance(fhdf, (Path, str)):
-            # Close the file...
-            root_gid.close()
-
     def dump_material(self, file, path=None):
         '''
         get the atominfo dictionaary aand the lattice parameters
diff --git a/hexrd/core/material/mksupport.py b/hexrd/core/material/mksupport.py
index dbb6e3d..70f4548 100644
--- a/hexrd/core/material/mksupport.py
+++ b/hexrd/core/material/mksupport.py
@@ -490,10 +490,11 @@ def Write2H5File(AtomInfo, lat_param, path=None):
     else:
         raise TypeError('Unexpected file type.')
 
-    WriteH5Data(fid, AtomInfo, lat_param, path)
-
-    if close:
-        fid.close()
+    try:
+        WriteH5Data(fid, AtomInfo, lat_param, path)
+    finally:
+        if close:
+            fid.close()
 
 
 def WriteH5Data(fid, AtomInfo, lat_param, path=None):
@@ -509,12 +510,8 @@ def WriteH5Data(fid, AtomInfo, lat_param, path=None):
     else:
         path = AtomInfo['xtalname']
 
-    node = f'/{path}'
-    if node in fid:
-        logger.warning(f"Crystal already exists for {node}. overwriting...")
-        del fid[node]
-
-    gid = fid.create_group(path)
+    # !!! anonymous until it is complete, so that a failure leaves the file as it was
+    gid = fid.create_group(None)
 
     did = gid.create_dataset("Atomtypes", (len(AtomInfo['Z']),), dtype=np.int32)
     did.write_direct(np.array(AtomInfo['Z'], dtype=np.int32))
@@ -621,3 +618,10 @@ def WriteH5Data(fid, AtomInfo, lat_param, path=None):
 
     pname = "ProgramName"
     did = gid.create_dataset(pname, data="heXRD", dtype=dt)
+
+    node = f'/{path}'
+    if node in fid:
+        logger.warning(f"Crystal already exists for {node}. overwriting...")
+        del fid[node]
+
+    fid[node] = gid
-- 
2.43.0


From 701905f5e95304c0788308502df2698e04d97b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:02 +0000
Subject: [PATCH 37/41] fix: the generic parallel map passes its arguments on
 and cannot hang

Positional arguments were dropped, results had to have a third element,
and the call waited for ever when the function raised or a process ended.
---
 hexrd/core/utils/multiprocess_generic.py | 86 +++++++++++++++---------
 1 file changed, 55 insertions(+), 31 deletions(-)

diff --git a/hexrd/core/utils/multiprocess_generic.py b/hexrd/core/utils/multiprocess_generic.py
index 0cad378..b61d0f8 100644
--- a/hexrd/core/utils/multiprocess_generic.py
+++ b/hexrd/core/utils/multiprocess_generic.py
@@ -1,5 +1,8 @@
 import logging
+import pickle
+import traceback
 from multiprocessing import Queue, Process, cpu_count
+from queue import Empty
 
 logger = logging.getLogger(__name__)
 
@@ -18,51 +21,72 @@ class GenericMultiprocessing:
         pass
 
     def _func_queue(self, func, q_in, q_out, *args, **kwargs):
-        """Retrive processes from the queue"""
+        """Evaluate func for the items in the queue, until terminated"""
         while True:
             pos, var = q_in.get()
-            if pos is None:
-                break
 
-            res = func(var, *args, **kwargs)
-            q_out.put((pos, res))
-            logger.info(f"Finished azimuthal position #{pos} with rwp={res[2]*100}%")
+            # Pickle the result here: the queue would drop one it cannot pickle
+            res, error = None, None
+            try:
+                res = pickle.dumps(func(pickle.loads(var), *args, **kwargs))
+            except Exception:
+                error = traceback.format_exc()
+            q_out.put((pos, res, error))
+            logger.info(f"Finished position #{pos}")
 
     def parallelise_function(self, var, func, *args, **kwargs):
         """Split evaluations of func across processors"""
         n = len(var)
 
         processes = []
-        q_in = Queue(1)
+        q_in = Queue()
         q_out = Queue()
 
         # get the maximum number of processes that will be started
         nprocs = cpu_count()
         logger.info(f"Number of CPUs: {nprocs} - Running on all of them.")
 
-        for i in range(nprocs):
-            pass_args = [func, q_in, q_out]
+        try:
+            for i in range(nprocs):
+                pass_args = [func, q_in, q_out, *args]
+
+                p = Process(
+                    target=self._func_queue, args=tuple(pass_args), kwargs=kwargs
+                )
+                p.daemon = True
+                p.start()
+                processes.append(p)
+
+            # put items in the queue
+            for i in range(n):
+                q_in.put((i, pickle.dumps(var[i])))
+
+            # get the results
+            results = [[] for i in range(n)]
+            for _ in range(n):
+                index, res, error = self._next_result(q_out, processes)
+                if error is not None:
+                    raise RuntimeError(f"Evaluation #{index} failed:\n{error}")
+                results[index] = pickle.loads(res)
+        finally:
+            # nothing is needed from the processes any more
+            q_in.cancel_join_thread()
+            for p in processes:
+                p.terminate()
+            for p in processes:
+                p.join()
 
-            p = Process(target=self._func_queue, args=tuple(pass_args), kwargs=kwargs)
-
-            processes.append(p)
-
-        for p in processes:
-            p.daemon = True
-            p.start()
-
-        # put items in the queue
-        sent = [q_in.put((i, var[i])) for i in range(n)]
-        [q_in.put((None, None)) for _ in range(nprocs)]
-
-        # get the results
-        results = [[] for i in range(n)]
-        for i in range(len(sent)):
-            index, res = q_out.get()
-            results[index] = res
-
-        # wait until each processor has finished
-        [p.join() for p in processes]
-        p.terminate()
-        # reorder results
         return results
+
+    @staticmethod
+    def _next_result(q_out, processes):
+        """Wait for a result while all of the processes are there to produce it"""
+        while True:
+            ended = [p for p in processes if not p.is_alive()]
+            try:
+                return q_out.get(timeout=0 if ended else 0.5)
+            except Empty:
+                if ended:
+                    raise RuntimeError(
+                        f"A process ended with exit code {ended[0].exitcode}"
+                    )
-- 
2.43.0


From 70854f65af9b0a2f4f95e0cf3a03082ee583e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:17 +0000
Subject: [PATCH 38/41] fix: observed intensities no longer read outside their
 arrays

Where the simulated spectrum is zero, the profile, already computed on the
remaining points only, was masked a second time with the longer mask.
---
 hexrd/powder/wppf/peakfunctions.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/hexrd/powder/wppf/peakfunctions.py b/hexrd/powder/wppf/peakfunctions.py
index 8a50fad..8b34c1b 100644
--- a/hexrd/powder/wppf/peakfunctions.py
+++ b/hexrd/powder/wppf/peakfunctions.py
@@ -1061,7 +1061,6 @@ def calc_Iobs_pvfcj(
         )
 
         y = Ic * pv
-        y = y[mask]
 
         Iobs[ii] = np.trapezoid(yo * y / yc, tth_list_mask)
 
@@ -1113,7 +1112,6 @@ def calc_Iobs_pvtch(
         pv = pvoight_wppf(uvw, p, xy, xs, shkl, eta_mixing, t, d, g, tth_list_mask)
 
         y = Ic * pv
-        y = y[mask]
 
         Iobs[ii] = np.trapezoid(yo * y / yc, tth_list_mask)
 
@@ -1180,7 +1178,6 @@ def calc_Iobs_pvpink(
         )
 
         y = Ic * pv
-        y = y[mask]
 
         Iobs[ii] = np.trapezoid(yo * y / yc, tth_list_mask)
 
@@ -1245,7 +1242,6 @@ def calc_Iobs_pvexponential(
         )
 
         y = Ic * pv
-        y = y[mask]
 
         Iobs[ii] = np.trapezoid(yo * y / yc, tth_list_mask)
 
@@ -1310,7 +1306,6 @@ def calc_Iobs_pvheating(
         )
 
         y = Ic * pv
-        y = y[mask]
 
         Iobs[ii] = np.trapezoid(yo * y / yc, tth_list_mask)
 
-- 
2.43.0


From bf9369c59011e359c8e8430c836ee676e02af9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:55 +0000
Subject: [PATCH 39/41] fix: submodules that moved to another package can be
 imported from their former package

'from hexrd.fitting import grains' and 'from hexrd.xrdutil import phutil' worked only
after 'import hexrd.fitting.grains' and 'import hexrd.xrdutil.phutil'; and a name taken
over from another module could hide a submodule of the same name.
---
 hexrd/module_map.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hexrd/module_map.py b/hexrd/module_map.py
index d40341f..b0ccbf5 100644
--- a/hexrd/module_map.py
+++ b/hexrd/module_map.py
@@ -189,9 +189,18 @@ class ModuleAliasImporter(importlib.abc.MetaPathFinder, importlib.abc.Loader):
                         "__spec__",
                     ):
                         continue
+                    # a name that happens to be that of a submodule stays the submodule's
+                    if f"{fullname}.{name}" in module_map:
+                        continue
                     if name not in base_mod.__dict__:
                         base_mod.__dict__[name] = val
 
+            # submodules that have gone to another package are still found here
+            for old_mod, (new_mod, _fp) in module_map.items():
+                parent, _, leaf = old_mod.rpartition(".")
+                if parent == fullname and new_mod in sys.modules:
+                    base_mod.__dict__.setdefault(leaf, sys.modules[new_mod])
+
         sys.modules[fullname] = base_mod
         return sys.modules[fullname]
 
-- 
2.43.0


From ab28d6bc394b460e231e4094be5992a602b40c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:55 +0000
Subject: [PATCH 40/41] fix: a module that could not be read is not left out of
 its former package for good

---
 hexrd/module_map.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hexrd/module_map.py b/hexrd/module_map.py
index b0ccbf5..056f371 100644
--- a/hexrd/module_map.py
+++ b/hexrd/module_map.py
@@ -157,6 +157,9 @@ class ModuleAliasImporter(importlib.abc.MetaPathFinder, importlib.abc.Loader):
             for candidate in deduped:
                 try:
                     cand_mod = importlib.import_module(candidate)
+                except (OSError, MemoryError):
+                    # it is there, but could not be read this time: do not go on without it
+                    raise
                 except Exception:
                     continue
 
-- 
2.43.0


From 61edd57ad6fb4a1f1d3a8d3619a900f8551c614d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 41/41] fix: freshly computed eta-omega maps are filtered like
 loaded ones

---
 hexrd/hedm/findorientations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hexrd/hedm/findorientations.py b/hexrd/hedm/findorientations.py
index ef5bac7..f67680e 100644
--- a/hexrd/hedm/findorientations.py
+++ b/hexrd/hedm/findorientations.py
@@ -428,7 +428,7 @@ def load_eta_ome_maps(
             )
             res = generate_eta_ome_maps(cfg, hkls=hkls)
 
-        filter_maps_if_requested(res, cfg)
+    filter_maps_if_requested(res, cfg)
     return res
 
 
-- 
2.43.0

