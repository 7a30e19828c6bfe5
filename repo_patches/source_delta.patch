From 5f54d6c2dbe776eeb7bf7a7c98f37f0ae9357a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 01/29] fix: invert topographies with non-measured points
 around their measured range

---
 surfalize/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/base.py b/surfalize/base.py
index c9ff347..943609a 100644
--- a/surfalize/base.py
+++ b/surfalize/base.py
@@ -253,7 +253,7 @@ class BaseTopography(CachedInstance):
         -------
         Surface | Profile
         """
-        data = self.data.min() + self.data.max() - self.data
+        data = self.min() + self.max() - self.data
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From 609a331e7f1957707096d9444c1bbb3e4ee04cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 02/29] fix: fill_nonmeasured returns a new object when not
 inplace and nothing is missing

---
 surfalize/profile.py | 2 +-
 surfalize/surface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 79f2d11..9c8a0b5 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -145,7 +145,7 @@ class Profile(BaseTopography):
         profile : surfalize.Profile
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data.copy())
         indices = np.arange(self.size)
         mask = ~np.isnan(self.data)
         data_interpolated = griddata(indices[mask], self.data[mask], indices, method=method)
diff --git a/surfalize/surface.py b/surfalize/surface.py
index a5f6d05..3785717 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -507,7 +507,7 @@ class Surface(BaseTopography):
             Surface object.
         """
         if not self.has_missing_points:
-            return self
+            return self if inplace else self._with_data(self.data.copy())
         values = self.data.ravel()
         mask = ~np.isnan(values)
 
-- 
2.43.0


From f6346b825b88211dbafdb7607761836313929d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 03/29] fix: crop, zoom and indexing return independent,
 editable data

---
 surfalize/profile.py | 4 ++--
 surfalize/surface.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index 9c8a0b5..fc62f5a 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -238,7 +238,7 @@ class Profile(BaseTopography):
         if x0 < 0 or x1 > self.size - 1 or x0 >= x1:
             raise ValueError('Interval is out of bounds!')
 
-        data = self.data[x0:x1 + 1]
+        data = self.data[x0:x1 + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
@@ -262,7 +262,7 @@ class Profile(BaseTopography):
         """
         n = self.size
         nn = int(n / factor)
-        data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1]
+        data = self.data[int((n - nn) / 2):nn + int((n - nn) / 2) + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 3785717..783fa3d 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -268,7 +268,7 @@ class Surface(BaseTopography):
                 step_y = item[0].step * self.step_y
             if isinstance(item[1], slice) and item[1].step is not None:
                 step_x = item[1].step * self.step_x
-        return Surface(self._data.__getitem__(item), step_x, step_y)
+        return Surface(self._data.__getitem__(item).copy(), step_x, step_y)
 
     @classmethod
     def load(cls, path_or_buffer, format=None, encoding='auto', read_image_layers=False):
@@ -679,7 +679,7 @@ class Surface(BaseTopography):
         """
         y, x = self.size
         xn, yn = int(x / factor), int(y / factor)
-        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1]
+        data = self.data[int((y - yn) / 2):yn + int((y - yn) / 2) + 1, int((x - xn) / 2):xn + int((x - xn) / 2) + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
@@ -713,7 +713,7 @@ class Surface(BaseTopography):
         if x0 < 0 or y0 < 0 or x1 > self.size.x - 1 or y1 > self.size.y - 1:
             raise ValueError('Box is out of bounds!')
 
-        data = self.data[y0:y1 + 1, x0:x1 + 1]
+        data = self.data[y0:y1 + 1, x0:x1 + 1].copy()
         if inplace:
             self._set_data(data=data)
             return self
-- 
2.43.0


From b0324e9b18f282c000584a98c260759af5a0f703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 04/29] fix: do not cache the stepheight_level operation

---
 surfalize/surface.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 783fa3d..d385336 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -768,7 +768,6 @@ class Surface(BaseTopography):
         return mask
 
     @batch_method('operation')
-    @cache
     def stepheight_level(self, inplace=False):
         """
         Levels the surface only based on the datapoints from the upper level surface in a rectangular ablation cavity.
-- 
2.43.0


From c39cc879e3c5e64398bb1ceb6772366dcbd83ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 05/29] fix: horizontal and vertical profiles at the surface
 edges average the requested lines

---
 surfalize/surface.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index d385336..856c78a 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -379,19 +379,20 @@ class Surface(BaseTopography):
         -------
         profile : surfalize.Profile
         """
-        if y > self.height_um:
+        if not 0 <= y <= self.height_um:
             raise ValueError("y must not exceed height of surface.")
         
         if average_step is None:
             average_step_px = 1
         else:
-            average_step_px = int(average_step / self.step_y)
+            average_step_px = max(round(average_step / self.step_y), 1)
 
         # vertical index of profile
-        idx = int(y / self.height_um * self.size.y)
+        idx = min(int(y / self.height_um * self.size.y), self.size.y - 1)
         # first index from which a profile is taken for averaging
         idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
+        # at the edge, skip the profiles that lie outside but keep the spacing relative to idx
+        idx_min = idx_min % average_step_px if idx_min < 0 else idx_min
         # last index from which a profile is taken for averaging
         idx_max = idx + int(average / 2) * average_step_px
         idx_max = self.size.y if idx_max > self.size.y else idx_max
@@ -419,19 +420,20 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        if x > self.width_um:
+        if not 0 <= x <= self.width_um:
             raise ValueError("x must not exceed height of surface.")
         
         if average_step is None:
             average_step_px = 1
         else:
-            average_step_px = int(average_step / self.step_x)
+            average_step_px = max(round(average_step / self.step_x), 1)
 
         # vertical index of profile
-        idx = int(x / self.width_um * self.size.x)
+        idx = min(int(x / self.width_um * self.size.x), self.size.x - 1)
         # first index from which a profile is taken for averaging
         idx_min = idx - int(average / 2) * average_step_px
-        idx_min = 0 if idx_min < 0 else idx_min
+        # at the edge, skip the profiles that lie outside but keep the spacing relative to idx
+        idx_min = idx_min % average_step_px if idx_min < 0 else idx_min
         # last index from which a profile is taken for averaging
         idx_max = idx + int(average / 2) * average_step_px
         idx_max = self.size.x if idx_max > self.size.x else idx_max
-- 
2.43.0


From 59cd9f605eeb18267680c9f3996b5fd6495064d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 06/29] fix: oblique profiles follow the line between their two
 end points

---
 surfalize/surface.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 856c78a..114594e 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -465,28 +465,30 @@ class Surface(BaseTopography):
          -------
          profile : surfalize.Profile
          """
-        x0px = int(x0 / self.width_um * self.size.x)
-        y0px = int(y0 / self.height_um * self.size.y)
-        x1px = int(x1 / self.width_um * self.size.x)
-        y1px = int(y1 / self.height_um * self.size.y)
-
-        if (not(0 <= x0px <= self.size.x) or not(0 <= y0px <= self.size.y) or
-            not(0 <= x1px <= self.size.x) or not(0 <= y1px <= self.size.y)):
+        if (not(0 <= x0 <= self.width_um) or not(0 <= y0 <= self.height_um) or
+            not(0 <= x1 <= self.width_um) or not(0 <= y1 <= self.height_um)):
             raise ValueError("Start- and endpoint coordinates must lie within the surface.")
 
+        x0px = min(int(x0 / self.width_um * self.size.x), self.size.x - 1)
+        y0px = min(int(y0 / self.height_um * self.size.y), self.size.y - 1)
+        x1px = min(int(x1 / self.width_um * self.size.x), self.size.x - 1)
+        y1px = min(int(y1 / self.height_um * self.size.y), self.size.y - 1)
+
         dx = x1px - x0px
         dy = y1px - y0px
 
         size = int(np.hypot(dx, dy))
 
-        m = dy/dx
+        if size < 2:
+            raise ValueError("Start- and endpoint must be at least two points apart.")
+
         xp = np.linspace(x0px, x1px, size)
-        yp = m * xp
+        yp = np.linspace(y0px, y1px, size)
 
         data = ndimage.map_coordinates(self.data, [yp, xp])
 
         length_um = np.hypot(dy * self.step_y, dx * self.step_x)
-        step = length_um / size
+        step = length_um / (size - 1)
         return Profile(data, step, length_um)
 
     # Operations #######################################################################################################
-- 
2.43.0


From 79c6196087d89686445337e896514f096fb50211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 07/29] fix: equal surfaces hash equally

---
 surfalize/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 114594e..809f6c2 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -255,7 +255,8 @@ class Surface(BaseTopography):
         return True
 
     def __hash__(self):
-        return hash((self.step_x, self.step_y, self.size.x, self.size.y, self.data.mean(), self.data.std()))
+        # Equality tolerates small height differences, so the hash must not depend on the height values
+        return hash((self.step_x, self.step_y, self.size.x, self.size.y))
 
     def __getitem__(self, item):
         step_y = self.step_y
-- 
2.43.0


From 69778d61c560ccd67e9c4a3eee80c72e10a2c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 08/29] fix: write the size of the compressed data block to
 compressed sur files

---
 surfalize/file/sur.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index f9117ea..bb5f32e 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -376,6 +376,13 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
 
     comment = comment.encode(encoding)
 
+    compressed_data_size = 0
+    if compressed:
+        uncompressed_data = data.tobytes()
+        compressed_data = zlib.compress(uncompressed_data)
+        # Size of the data block: directory count, one directory entry and the zipped data stream
+        compressed_data_size = 4 + 8 + len(compressed_data)
+
     header = {
         'code': MAGIC_CLASSIC if not compressed else MAGIC_COMPRESSED,
         'format': 0,  # PC Format
@@ -422,7 +429,7 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         'year': timestamp.year,
         'week_day': timestamp.weekday(),
         'measurement_duration': 0,
-        'compressed_data_size': 0,
+        'compressed_data_size': compressed_data_size,
         'length_comment': len(comment),
         'length_private': 0,
         'client_zone': 'Exported by surfalize',
@@ -442,8 +449,6 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
         write_array(data, filehandle)
         return
     else:
-        uncompressed_data = data.tobytes()
-        compressed_data = zlib.compress(uncompressed_data)
         # Write directory count = 1 and the length of a single data stream containing all the compressed data
         filehandle.write(struct.pack('<3I', 1, len(uncompressed_data), len(compressed_data)))
         filehandle.write(compressed_data)
-- 
2.43.0


From 7b2588cfc8100d0a6c36426081df12ccdb916019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 09/29] fix: surfaces with a single height value survive saving
 to sur

---
 surfalize/file/sur.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index bb5f32e..b014869 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -366,7 +366,11 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
     INT_DATA_MAX = INT32_MAX - 1
     data_max = np.nanmax(surface.data)
     data_min = np.nanmin(surface.data)
-    data = ((surface.data - data_min) / (data_max - data_min)) * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
+    data = surface.data - data_min
+    # A surface with a single height value has no range to normalize by
+    if data_max > data_min:
+        data = data / (data_max - data_min)
+    data = data * (INT_DATA_MAX - INT_DATA_MIN) + INT_DATA_MIN
     if nm_points:
         data[np.isnan(data)] = INT_DATA_MIN - 2
     data = data.astype('int32')
-- 
2.43.0


From 2ce5c05b1736b97a32f9d4efa1fa371b07ead6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 10/29] fix: save single precision surfaces to sur without
 integer overflow

---
 surfalize/file/sur.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/sur.py b/surfalize/file/sur.py
index b014869..edebd7d 100644
--- a/surfalize/file/sur.py
+++ b/surfalize/file/sur.py
@@ -364,9 +364,11 @@ def write_sur(filehandle, surface, encoding='utf-8', compressed=False, comment='
 
     INT_DATA_MIN = INT32_MIN + 2
     INT_DATA_MAX = INT32_MAX - 1
-    data_max = np.nanmax(surface.data)
-    data_min = np.nanmin(surface.data)
-    data = surface.data - data_min
+    # Scaling to int32 needs double precision, in single precision the maximum overflows the integer range
+    data = surface.data.astype('float64')
+    data_max = np.nanmax(data)
+    data_min = np.nanmin(data)
+    data = data - data_min
     # A surface with a single height value has no range to normalize by
     if data_max > data_min:
         data = data / (data_max - data_min)
-- 
2.43.0


From 45e6a7e6987d419fa14636652df73ae798674195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 11/29] fix: read signed integer samples from sflz with the
 correct offset

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index d9fd329..bd7026b 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -86,7 +86,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
                 max_val = header['max_value']
                 dtype_min = np.iinfo(layer_header['datatype']).min
                 dtype_max = np.iinfo(layer_header['datatype']).max
-                height_data = (height_data.astype('float64') + dtype_min) / (dtype_max - dtype_min)
+                height_data = (height_data.astype('float64') - dtype_min) / (dtype_max - dtype_min)
                 height_data = height_data * (max_val - min_val) + min_val
         else:
             image_layers[layer_header['name']] = data
-- 
2.43.0


From 742d9fc34cc74bc890ad9aff3c4c3e2fa3c5e112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 12/29] fix: store the encoded length of image layer names in
 sflz

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index bd7026b..68b1caf 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -144,7 +144,7 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
             data = compress(layer.data.tobytes(), compression)
 
             layer_header = {
-                'name_length': len(name),
+                'name_length': len(name.encode('utf-8')),
                 'name': name,
                 'width': layer.data.shape[1],
                 'height': layer.data.shape[0],
-- 
2.43.0


From 75c49395c2d44f7a1f2e03ab30f0a1e28126aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 13/29] fix: keep non-measured points and single precision
 heights when saving to sflz

---
 surfalize/file/sflz.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 68b1caf..0ba4929 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -107,7 +107,11 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
     }
 
     dtype = np.dtype(dtype)
-    data = surface.data
+    if surface.has_missing_points and dtype.kind in ['i', 'u']:
+        # Integer samples cannot represent non-measured points
+        dtype = np.dtype('<f8')
+    # Scaling to integers needs double precision, in single precision the maximum overflows the integer range
+    data = surface.data.astype('float64')
     if dtype.kind in ['i', 'u']:
         # perform scaling
         min_val = data.min()
-- 
2.43.0


From fd45d26b6a55a45907d1d75584339fcba221efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 14/29] fix: do not divide by a zero height range when saving
 to sflz

---
 surfalize/file/sflz.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 0ba4929..6b591b1 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -121,7 +121,10 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
         header['max_value'] = max_val
         dtype_min = np.iinfo(dtype).min
         dtype_max = np.iinfo(dtype).max
-        data_norm = (data - min_val) / (max_val - min_val)
+        data_norm = data - min_val
+        # A surface with a single height value has no range to normalize by
+        if max_val > min_val:
+            data_norm = data_norm / (max_val - min_val)
         data = data_norm * (dtype_max - dtype_min) + dtype_min
     else:
         header['scaled'] = False
-- 
2.43.0


From 33a7bc5299378faead0a828c290443bfefb0bcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 15/29] fix: surfaces loaded from sflz are editable

---
 surfalize/file/sflz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 6b591b1..5d74b86 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -74,7 +74,7 @@ def read_sflz(filehandle, encoding='utf-8', read_image_layers=True):
         layer_header = LAYOUT_LAYER_HEADER.read(filehandle)
         compressed_data = filehandle.read(layer_header['size'])
         data = decompress(compressed_data, compression_algorithm)
-        data = np.frombuffer(data, dtype=layer_header['datatype'])
+        data = np.frombuffer(data, dtype=layer_header['datatype']).copy()
         if layer_header['channels'] > 1:
             data = data.reshape(layer_header['height'], layer_header['width'], layer_header['channels'])
         else:
-- 
2.43.0


From 76887ff33dafbace48b422ffbebef6600fce302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 16/29] fix: write readable header lines to ascii sdf files

---
 surfalize/file/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/file/sdf.py b/surfalize/file/sdf.py
index bc34e9b..963620e 100644
--- a/surfalize/file/sdf.py
+++ b/surfalize/file/sdf.py
@@ -186,7 +186,7 @@ def write_sdf(filehandle, surface, encoding='utf-8', binary=True):
         CRLF = '\n'.encode('ascii')
         filehandle.write(MAGIC_ASCII + CRLF)
         for k, v in header.items():
-            filehandle.write(f'{k} = {v}{CRLF}'.encode('ascii'))
+            filehandle.write(f'{k} = {v}'.encode('ascii') + CRLF)
         filehandle.write('*'.encode('ascii') + CRLF)
         line_values = []
         for i, value in enumerate(data.flatten()):
-- 
2.43.0


From c3949ca6c2663c84eeb63be10f782ee47a2f3a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 17/29] fix: restore the buffer position when a reader fails

---
 surfalize/file/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 575f38b..275c794 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -179,8 +179,10 @@ def open_file_like(file_or_path, mode='r'):
             yield f
     elif isinstance(file_or_path, io.IOBase):
         current_pos = file_or_path.tell()
-        yield file_or_path
-        file_or_path.seek(current_pos, 0)
+        try:
+            yield file_or_path
+        finally:
+            file_or_path.seek(current_pos, 0)
     else:
         raise TypeError("Expected a file path or file-like object")
 
-- 
2.43.0


From a68a6d13776facc7c06c01fba7a7eb91ae2ab1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 18/29] fix: buffers without file magic are loaded by probing

---
 surfalize/file/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 275c794..4a3c713 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -496,9 +496,10 @@ class FileHandler:
                     warnings.simplefilter('ignore')
                     result = reader(filehandle, read_image_layers=read_image_layers, encoding=encoding)
                 # The probing succeeded, so we emit the mismatch warning outside the suppression context
-                warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
-                              f'seems to actually be of type {reader_suffix}. Check if the file extensions is '
-                              f'correct. The file was now loaded as {reader_suffix}.')
+                if self.is_path_like():
+                    warnings.warn(f'The file suffix indicates a file of type {self.file.suffix}. However, the file '
+                                  f'seems to actually be of type {reader_suffix}. Check if the file extensions is '
+                                  f'correct. The file was now loaded as {reader_suffix}.')
                 return result
             except Exception:
                 pass
-- 
2.43.0


From 5b309a0072706e29f90c161c5470fffae8b0c98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 19/29] fix: the format argument overrides the path suffix when
 saving

---
 surfalize/file/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 4a3c713..96dbbb8 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -510,12 +510,15 @@ class FileHandler:
                                          'magic.')
 
     def write(self, surface, encoding='utf-8', **kwargs):
-        if self.is_path_like():
+        if self.format is not None:
+            suffix = self.format
+        elif self.is_path_like():
             suffix = self.file.suffix
         else:
-            suffix = self.format
+            suffix = None
         if not suffix:
             raise ValueError('No format for the file specified.') from None
+        suffix = suffix.lower()
         if suffix not in self._writers:
             raise UnsupportedFileFormatError(
                 f"File format {suffix} is currently not supported for writing.") from None
-- 
2.43.0


From ea51e74c0495abfc85d9acf62f0f8f94076763a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 20/29] fix: ignored calculation errors in custom batch
 parameters

---
 surfalize/batch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 288ad43..420c98e 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -390,6 +390,8 @@ class _CustomParameter:
         except CalculationError as error:
             if not ignore_errors:
                 raise error
+            # The names of the results are unknown at this point, missing columns are filled with nan values
+            return {}
         return result
 
 
-- 
2.43.0


From 285a3f1e769671c7c660a52391f7ed5765c890bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 21/29] fix: registering a custom batch parameter twice raises
 BatchError

---
 surfalize/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 420c98e..3146904 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -761,7 +761,7 @@ class Batch:
         """
         if isinstance(step, (_Parameter, _CustomParameter)):
             if step.name in {s.name for s in self._steps if isinstance(s, (_Parameter, _CustomParameter))}:
-                raise BatchError(f'The parameter "{step.identifier}" is already registered. Consider giving it an '
+                raise BatchError(f'The parameter "{step.name}" is already registered. Consider giving it an '
                                  f'alternate name using the keyword argument "custom_name".')
         self._steps.append(step)
 
-- 
2.43.0


From 7d01eaa062278098e65f8bbd00051e0b8f6f72d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 22/29] fix: surface_area scales the x and y differences with
 the step of the other axis

---
 surfalize/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index 809f6c2..c23d7da 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -1004,8 +1004,8 @@ class Surface(BaseTopography):
         dz_x = np.diff(self.data, axis=1)
 
         # Calculate cross products
-        cross_x = self.step_y * dz_y[:, :-1]
-        cross_y = self.step_x * dz_x[:-1, :]
+        cross_x = self.step_y * dz_x[:-1, :]
+        cross_y = self.step_x * dz_y[:, :-1]
         cross_z = self.step_x * self.step_y
 
         # Calculate areas using vectorized operations
-- 
2.43.0


From f2ae354386d4e4bbd255c7b24044472b82534a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:55 +0000
Subject: [PATCH 23/29] fix: take material ratios from the curve in its own
 order, also where heights are equal

interp1d sorted the heights with an unstable argsort, which shuffled curve points of equal height, so the material ratio
of a surface with plateaus (Smr, Smr1, Smr2) was interpolated between arbitrary points of the plateaus.
---
 surfalize/abbottfirestone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index 692bd0e..ee86150 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -116,7 +116,8 @@ class AbbottFirestoneCurve(CachedInstance):
         # Intercept of the equivalence line at 100% ratio
         self._ylower = self._slope * 100 + self._intercept
 
-        self._smr_fit = interp1d(height, material_ratio)
+        # The curve never increases, so reversing it yields ascending heights and keeps the order of points of equal height
+        self._smr_fit = interp1d(height[::-1], material_ratio[::-1], assume_sorted=True)
         self._height = height
         self._material_ratio = material_ratio
 
-- 
2.43.0


From a9e39189fc06376f077324a08e5b8205b151c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:26 +0000
Subject: [PATCH 24/29] fix: reduced peak height and dale depth are zero
 instead of nan when nothing protrudes beyond the core

With a core line above the highest (below the lowest) height Smr1 is 0 (Smr2 is 100), so Spk and Sak1 (Svk and Sak2) were
computed as 0/0.
---
 surfalize/abbottfirestone.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/surfalize/abbottfirestone.py b/surfalize/abbottfirestone.py
index ee86150..361728c 100644
--- a/surfalize/abbottfirestone.py
+++ b/surfalize/abbottfirestone.py
@@ -193,6 +193,10 @@ class AbbottFirestoneCurve(CachedInstance):
         -------
         float
         """
+        # No hills if the whole curve lies below yupper
+        if self.mr1() == 0:
+            return 0.0
+
         # For now we are using the closest value in the array to ylower
         # This way, we are losing or gaining a bit of area. In the future we might use some
         # additional interpolation. For now this is sufficient.
@@ -212,6 +216,10 @@ class AbbottFirestoneCurve(CachedInstance):
         -------
         float
         """
+        # No dales if the whole curve lies above ylower
+        if self.mr2() == 100:
+            return 0.0
+
         # Area enclosed below ylower between y-axis (at x=100) and abbott-firestone curve
         idx = argclosest(self._ylower, self._height)
         A2 = np.abs(trapezoid(100 - self._material_ratio[idx:], x=self._height[idx:]))
-- 
2.43.0


From 46d8a92fb53550e26bc48f376f27eefb953715f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 25/29] fix: accept every micrometre spelling as target unit

---
 surfalize/file/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/surfalize/file/common.py b/surfalize/file/common.py
index 96dbbb8..926f064 100644
--- a/surfalize/file/common.py
+++ b/surfalize/file/common.py
@@ -129,6 +129,7 @@ def get_unit_conversion(from_unit, to_unit):
     """
     from_unit = _sanitize_mu(from_unit)
     from_unit = from_unit.lower()
+    to_unit = _sanitize_mu(to_unit)
     to_unit = to_unit.lower()
     if from_unit not in UNIT_EXPONENT:
         from_unit = fix_decoding_issues(from_unit)
-- 
2.43.0


From ba6d71ed3eb22e5e92c19f3bb91e6daaf7d5903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 26/29] fix: do not overflow 64-bit samples in sflz files

---
 surfalize/file/sflz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/surfalize/file/sflz.py b/surfalize/file/sflz.py
index 5d74b86..36888b9 100644
--- a/surfalize/file/sflz.py
+++ b/surfalize/file/sflz.py
@@ -126,6 +126,9 @@ def write_sflz(filehandle, surface, encoding='utf-8', compression='zlib', save_i
         if max_val > min_val:
             data_norm = data_norm / (max_val - min_val)
         data = data_norm * (dtype_max - dtype_min) + dtype_min
+        # The upper limit of 64-bit integers rounds to a value beyond the integer range in double precision
+        if float(dtype_max) > dtype_max:
+            data = np.minimum(data, np.nextafter(float(dtype_max), 0))
     else:
         header['scaled'] = False
         header['min_value'] = 0
-- 
2.43.0


From 1231fc0ee8060b8103339c041189e6b2623d81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 27/29] fix: match the literal parts of a filename template
 literally

---
 surfalize/batch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/surfalize/batch.py b/surfalize/batch.py
index 3146904..883ea99 100644
--- a/surfalize/batch.py
+++ b/surfalize/batch.py
@@ -1,5 +1,6 @@
 import inspect
 import io
+import re
 from multiprocessing.pool import ThreadPool
 from functools import partial
 from dataclasses import dataclass
@@ -136,7 +137,7 @@ class FilenameParser:
         """
         patterns = []
         for token in tokens:
-            s = token.prefix
+            s = re.escape(token.prefix)
             s += f'(?P<{token.name}>'
             try:
                 s += self.TYPES[token.dtype]
@@ -144,12 +145,12 @@ class FilenameParser:
                 raise ParsingError(f'The datatype {token.dtype} is invalid. '
                                    f'Possible datatypes are "int", "float", "str"') from None
             s += ')'
-            s += token.suffix
+            s += re.escape(token.suffix)
             patterns.append(s)
         regex = ''
         for pattern, separator in zip(patterns, separators):
-            regex += separator + pattern
-        regex += separators[-1]
+            regex += re.escape(separator) + pattern
+        regex += re.escape(separators[-1])
         return regex
 
     def extract_from(self, df, column):
-- 
2.43.0


From ea342876d2301e4e6c3fa9c6175a89b2755eeeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:19 +0000
Subject: [PATCH 28/29] fix: the surface returned by stepheight_level does not
 inherit the mask of the unlevelled one

---
 surfalize/surface.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/surfalize/surface.py b/surfalize/surface.py
index c23d7da..8fe8324 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -807,12 +807,7 @@ class Surface(BaseTopography):
         if inplace:
             self._set_data(data=leveled_data)
             return self
-        surface = Surface(leveled_data, self.step_x, self.step_y)
-        # This is not an ideal solution, but I can't think of a better one without major refactoring
-        # If the leveling is not done inplace, we need to somehow transfer the computed mask to the new objhect
-        # We are manually creating a cache entry for the new surface object so that we don't have to recompute the mask
-        surface.create_cache_entry(surface._stepheight_get_mask, mask, tuple(), dict())
-        return surface
+        return Surface(leveled_data, self.step_x, self.step_y)
 
     @cache
     def _stepheight_get_upper_lower_median(self):
-- 
2.43.0


From 2ec0cea0ce49992ff4d365445158b74f3925dccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:04 +0000
Subject: [PATCH 29/29] fix: heights given as integers are stored in floating
 point

---
 surfalize/profile.py | 3 ++-
 surfalize/surface.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/surfalize/profile.py b/surfalize/profile.py
index fc62f5a..1ea8a94 100644
--- a/surfalize/profile.py
+++ b/surfalize/profile.py
@@ -84,7 +84,8 @@ class Profile(BaseTopography):
 
     @data.setter
     def data(self, value):
-        self._data = value
+        # Integer heights could hold neither missing points nor the results of filtering
+        self._data = value.astype(float) if value.dtype.kind in 'iub' else value
         self.length_um = (value.shape[0] - 1) * self.step
         self.clear_cache()
 
diff --git a/surfalize/surface.py b/surfalize/surface.py
index 8fe8324..46ac14b 100644
--- a/surfalize/surface.py
+++ b/surfalize/surface.py
@@ -139,7 +139,8 @@ class Surface(BaseTopography):
 
     @data.setter
     def data(self, value):
-        self._data = value
+        # Integer heights could hold neither missing points nor the results of filtering
+        self._data = value.astype(float) if value.dtype.kind in 'iub' else value
         self.width_um = (value.shape[1] - 1) * self.step_x
         self.height_um = (value.shape[0] - 1) * self.step_y
         self.clear_cache()
-- 
2.43.0

