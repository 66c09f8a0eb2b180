From 2af3641bf43af6036d3c5e0fb56f99978c3e0634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 01/41] fix: write the multipliers when git describe gives no
 version

A checkout without tags (or a system without git) made save_multiplier raise
CalledProcessError, so that no multiplier could be written at all, and left
the process in the code directory.
---
 utilities/nctools.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 86f73d5..0a2cc77 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -318,10 +318,15 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
 
     # Collect git info - need to make sure git command is executed from
     # code - not from data directory
-    cwd = os.getcwd()  # save working directory
-    os.chdir(os.path.dirname(os.path.realpath(__file__)))
-    git_info = subprocess.check_output(["git", "describe"])
-    os.chdir(cwd)  # restore working directory from saved value
+    try:
+        git_info = subprocess.check_output(
+            ["git", "describe"],
+            cwd=os.path.dirname(os.path.realpath(__file__)),
+            stderr=subprocess.DEVNULL)
+    except (OSError, subprocess.CalledProcessError):
+        # git is not available, or the checkout has no tag to describe
+        LOGGER.warning("Cannot determine the version of the code using git")
+        git_info = 'unknown'
 
     # Set global attributes, including metadata capture:
     global_atts = {'Abstract': ('This dataset is the local ' +
-- 
2.43.0


From 384b20e8cea75af4bec50b1b7dc25fc68edf545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 02/41] fix: no upwind average in the terrain convolution when
 it is under one cell

For a grid coarser than the averaging distance, or a tile exactly as high as
the lag distance, the averaging width is 0 and convo divided by zero.
---
 terrain/terrain_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 3b24600..68257d5 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -226,7 +226,7 @@ def convo(one_dir, data, avg_width, lag_width):
             all_neighb_no = all_neighbour_lambda(i, jj, rows, cols,
                                                  lag_width)
 
-            if all_neighb_no > 0:
+            if all_neighb_no > 0 and avg_width > 0:
                 if all_neighb_no < avg_width:
                     max_neighb_no = all_neighb_no
                 else:
-- 
2.43.0


From cf63d085b15d049acb0f7a82a45481d3742492f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 03/41] fix: split grid blocks at whole cells in the recursive
 bisection

Under Python 3 the halves of a block with an odd number of cells got fractional
shapes: the interpolated values did not meet the evaluated ones at the block
corners, a grid of 2 rows or columns got NaN, and one of 1 failed.
---
 utilities/blrb.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/utilities/blrb.py b/utilities/blrb.py
index a77cae8..3213c4d 100644
--- a/utilities/blrb.py
+++ b/utilities/blrb.py
@@ -49,8 +49,9 @@ def bilinear(shape, f_ul, f_ur, f_lr, f_ll, dtype=numpy.float64):
 
     s, t = [a.astype(dtype) for a in numpy.ogrid[0:shape[0], 0:shape[1]]]
 
-    s /= (shape[0] - 1.0)
-    t /= (shape[1] - 1.0)
+    # a block one cell wide has nothing to interpolate in that direction
+    s /= max(shape[0] - 1.0, 1.0)
+    t /= max(shape[1] - 1.0, 1.0)
 
     return s * (t * f_lr + (1.0 - t) * f_ll) + \
         (1.0 - s) * (t * f_ur + (1.0 - t) * f_ul)
@@ -93,8 +94,8 @@ def subdivide(origin=DEFAULT_ORIGIN, shape=DEFAULT_SHAPE):
               'LR': <list of 2-tuples> }
     """
     i0, ie, j0, je = indices(origin, shape)
-    ic = origin[0] + shape[0] / 2
-    jc = origin[1] + shape[1] / 2
+    ic = origin[0] + shape[0] // 2
+    jc = origin[1] + shape[1] // 2
 
     return {
         'UL': [(i0, j0), (i0, jc), (ic, j0), (ic, jc)],
-- 
2.43.0


From a9288a86cf9091ac8742e5a817e0b3c4e447310f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:39 +0000
Subject: [PATCH 04/41] fix: evaluate the pixel sizes at (row, column), not
 transposed

interpolate_grid evaluates at the grid indices (row, column), which the pixel
size functions took as (x, y): the sizes varied along the rows of the grid
with the latitude of its columns.
---
 utilities/get_pixel_size_grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utilities/get_pixel_size_grid.py b/utilities/get_pixel_size_grid.py
index 7955341..8e3300b 100644
--- a/utilities/get_pixel_size_grid.py
+++ b/utilities/get_pixel_size_grid.py
@@ -120,22 +120,22 @@ def get_pixel_size_grids(dataset):
     :return: tuple of :class:`numpy.ndarray` grid sizes for input dataset
     """
 
-    def get_pixel_x_size(x, y):
+    def get_pixel_x_size(y, x):
         """
         Returns x size in metres of specified pixel as a tuple.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param (y, x): `tuple` the input point, as row and column
 
         :return: `float` the grid x size at the input (x, y) point
         """
 
         return get_pixel_size(dataset, (x, y))[0]
 
-    def get_pixel_y_size(x, y):
+    def get_pixel_y_size(y, x):
         """
         Returns y size in metres of specified pixel as a tuple.
 
-        :param (x,Y): `tuple` the input (x, y) point
+        :param (y, x): `tuple` the input point, as row and column
 
         :return: `float` the grid y size at the input (x, y) point
         """
-- 
2.43.0


From 47d59f8edd31f4ad996116fb8a1999995d6823c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:36 +0000
Subject: [PATCH 05/41] fix: write the missing value to M3 where a multiplier
 is missing

The masked product kept the product of the missing values (-9999 times the
other multipliers) under the mask, and that was written as valid data.
---
 utilities/convert.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c0e77a4..c3a82c0 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -136,12 +136,13 @@ class Converter:
 
             # Write the pre-multiplied value to a band
             band = out_ds.GetRasterBand(band_index)
+            multiplied = multiplied.filled(self.missing_value)
             try:
-                band.WriteArray(multiplied.data[::-1])
-                band.WriteArray(multiplied.data)
+                band.WriteArray(multiplied[::-1])
+                band.WriteArray(multiplied)
             except ValueError:
                 log.error("Mismatch between output file and data array")
-                log.error(multiplied.data.shape)
+                log.error(multiplied.shape)
             band.SetDescription(direction)
             band.ComputeStatistics(False)
             band.SetNoDataValue(-9999)
-- 
2.43.0


From 131f64b29b21467f33a6a50054060d0a9d8087d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:36 +0000
Subject: [PATCH 06/41] fix: convert tiles with a missing multiplier file

The replacement by ones had its shape transposed, which failed for every tile
that is not square, and had no geotransform when the first file was missing.
---
 utilities/convert.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c3a82c0..c0428d1 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -92,6 +92,7 @@ class Converter:
         tmpds = gdal.Open(pjoin(self.path, "shielding", f"{tile}_ms_n.nc"))
         nx = tmpds.RasterXSize
         ny = tmpds.RasterYSize
+        transform = tmpds.GetGeoTransform()
 
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
 
@@ -103,8 +104,6 @@ class Converter:
 
         band_index = 1
 
-        first = True
-
         for direction in self.directions:
             bands = []
 
@@ -121,16 +120,12 @@ class Converter:
                     ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
                     ds.SetGeoTransform(transform)
                     band = ds.GetRasterBand(1)
-                    band.WriteArray(np.ones((nx, ny)))
+                    band.WriteArray(np.ones((ny, nx)))
 
                 bands.append(ma.masked_values(
                     BandReadAsArray(ds.GetRasterBand(1)),
                     self.missing_value))
 
-                if first:
-                    transform = ds.GetGeoTransform()
-                    first = False
-
             # Multiply the wind multipliers from NetCDF
             multiplied = reduce(np.multiply, bands)
 
-- 
2.43.0


From 6f0d73823413c9228147e1c97c849dbb19563cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:36 +0000
Subject: [PATCH 07/41] fix: write the M3_max tiles with their single band

A second band full of zeros was added to each tile (and to the VRT).
---
 utilities/convert.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/utilities/convert.py b/utilities/convert.py
index c0428d1..3a5163a 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -57,7 +57,6 @@ class Converter:
         maxima = np.max(np.dstack(bands), axis=2)
         # Create output dataset - single band required (maximum only)
         out_ds = driver.Create('', nx, ny, 1, gdal.GDT_Float32)
-        out_ds.AddBand(gdal.GDT_Float32)
         band = out_ds.GetRasterBand(1)
         band.WriteArray(maxima.data)
         band.SetDescription("Maximum of all directions")
-- 
2.43.0


From d3e065bd4266525afc45662a11d67373159130f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:36 +0000
Subject: [PATCH 08/41] fix: finish without a virtual raster table when there
 is no tile

With no converted tile (an empty DEM) BuildVRT failed with 'No input dataset
specified' instead of the warning that is meant for that case.
---
 utilities/mpi_runner.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index 0f4a0a6..e76c930 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -38,12 +38,12 @@ def parallelise_convert_on_tiles(data_path, comm):
     results = comm.gather(results, root=0)
 
     if comm.rank == 0:
-        if len(results) > 0:
+        tile_files = functools.reduce(lambda total, element:
+                                      total + element[0], results, [])
+        max_tile_files = functools.reduce(lambda total, element:
+                                          total + element[1], results, [])
+        if len(tile_files) > 0:
             log.info("Creating virtual raster table")
-            tile_files = functools.reduce(lambda total, element:
-                                          total + element[0], results, [])
-            max_tile_files = functools.reduce(lambda total, element:
-                                              total + element[1], results, [])
             gdal.BuildVRT(os.path.join(data_path, 'M3',
                                        'wind-multipliers.vrt'),
                           tile_files)
-- 
2.43.0


From abe70732d4ac63831b523eff6cb4b8f9fd055522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:11 +0000
Subject: [PATCH 09/41] fix: keep the directions apart when no shielding kernel
 is used

For cells over 100 m the initial shielding values were passed as they are
to combine(), which modifies its input: each direction was computed from
the result of the previous one instead of the initial values.
---
 shielding/shield_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index fd30647..213e8fa 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -306,7 +306,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
             mask = kern_dir(kernel_size)
             outdata = blur_image(data, mask)
         else:
-            outdata = data
+            outdata = data.copy()
 
         result = combine(outdata, slope_array, aspect_array, one_dir)
         log.debug('Maximum shielding value is {0}'.format(result.max()))
-- 
2.43.0


From e5fe94f32c5176313d49a3f1e3f0974fe2daabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:11 +0000
Subject: [PATCH 10/41] fix: remove the shielding side files without changing
 directory

convo_combine() left the process in the shielding folder, so any relative
path used afterwards (a relative output_dir, the next tile) was wrong.
---
 shielding/shield_mult.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/shielding/shield_mult.py b/shielding/shield_mult.py
index 213e8fa..8bb5bfc 100644
--- a/shielding/shield_mult.py
+++ b/shielding/shield_mult.py
@@ -334,8 +334,7 @@ def convo_combine(ms_orig, slope_array, aspect_array, tile_extents_nobuffer):
         os.remove(ms_orig)
     except:
         pass
-    os.chdir(ms_folder)
-    filelist = glob.glob('*.xml')
+    filelist = glob.glob(pjoin(glob.escape(ms_folder), '*.xml'))
 
     log.debug("useless xml files: {0}".format(repr(filelist)))
 
-- 
2.43.0


From b22a3f03dbb611bcdae4c5f82c87eefbfeef7b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:11 +0000
Subject: [PATCH 11/41] fix: keep nodata in terrain multipliers of tiles under
 the lag distance

When a tile is smaller than the lag distance no convolution is done, and
the cells of unknown terrain class were written as 1.0 (water), not as
missing values.
---
 terrain/terrain_mult.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 68257d5..d6e532a 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -117,7 +117,7 @@ def terrain(temp_tile, tile_extents_nobuffer):
 
         # if the tile is smaller than the lag distance, no convolultion
         if lag_width > reclassified_array.shape[0]:
-            outdata = reclassified_array
+            outdata = reclassified_array.copy()
         else:
             # if the tile is smaller than the upwind buffer, all the tile is in
             # buffer
@@ -126,7 +126,7 @@ def terrain(temp_tile, tile_extents_nobuffer):
 
             log.info('convolution average width ' + str(avg_width))
             outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
-            outdata[mask] = np.nan
+        outdata[mask] = np.nan
 
         # find output folder
         tile_folder = os.path.dirname(temp_tile)
-- 
2.43.0


From 1cc6de1b5dd17ce4047cb857ff53fd8c96b712fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:11 +0000
Subject: [PATCH 12/41] fix: tile limits when the buffer reaches over a whole
 tile

The limits without buffer were recovered from the buffered ones, which is
wrong when the buffer was cut at the raster edge but the tile is not at
that edge (last tile no wider than the buffer, or a buffer of a tile width
or more): neighbouring tiles then overlapped.
---
 all_multipliers.py | 23 +++++------------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 69ceb7d..1feeb0f 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -166,25 +166,12 @@ class TileGrid(object):
 
         """
 
-        if int(self.x_start[k]) != 0:
-            x1 = int(self.x_start[k] + self.x_buffer)
-        else:
-            x1 = self.x_start[k]
-
-        if int(self.y_start[k]) != 0:
-            y1 = int(self.y_start[k] + self.y_buffer)
-        else:
-            y1 = self.y_start[k]
+        i, j = divmod(k, self.subset_maxrows)
 
-        if int(self.x_end[k]) != (self.x_dim - 1):
-            x2 = int(self.x_end[k] - self.x_buffer + 1)
-        else:
-            x2 = self.x_dim
-
-        if int(self.y_end[k]) != (self.y_dim - 1):
-            y2 = int(self.y_end[k] - self.y_buffer + 1)
-        else:
-            y2 = self.y_dim
+        x1 = i * self.x_step
+        x2 = min((i + 1) * self.x_step, self.x_dim)
+        y1 = j * self.y_step
+        y2 = min((j + 1) * self.y_step, self.y_dim)
 
         return x1, x2, y1, y2
 
-- 
2.43.0


From 379fbf0a439f452c5a184f7fcca20587a6579ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:34 +0000
Subject: [PATCH 13/41] fix: terrain averaging in east and west is not limited
 by tile height

The upwind distance of the east and west directions was cut by the number
of rows of the tile, so tiles of less height than the upwind distance got
too short an average (or none), unlike their neighbours.
---
 terrain/terrain_mult.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index d6e532a..1fa315f 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -115,14 +115,17 @@ def terrain(temp_tile, tile_extents_nobuffer):
             avg_width = int(avg_dist / (gridwidth * 1.414))
             lag_width = int(lag_dist / (gridwidth * 1.414))
 
+        # extent of the tile in the direction of the wind
+        tile_width = reclassified_array.shape[1 if one_dir in 'we' else 0]
+
         # if the tile is smaller than the lag distance, no convolultion
-        if lag_width > reclassified_array.shape[0]:
+        if lag_width > tile_width:
             outdata = reclassified_array.copy()
         else:
             # if the tile is smaller than the upwind buffer, all the tile is in
             # buffer
-            if (avg_width + lag_width) > reclassified_array.shape[0]:
-                avg_width = reclassified_array.shape[0] - lag_width
+            if (avg_width + lag_width) > tile_width:
+                avg_width = tile_width - lag_width
 
             log.info('convolution average width ' + str(avg_width))
             outdata = convo(one_dir, reclassified_array, avg_width, lag_width)
-- 
2.43.0


From 373e5c6cf28840ab444c274943520cbed778c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:17 +0000
Subject: [PATCH 14/41] fix: start the topographic multiplier at the first cell
 of the line

With the outer upwind zone cut at the start of the line the loop began at
index -1, so a high hill near the start of a line raised the multiplier of
the last cell of that line.
---
 topographic/mh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topographic/mh.py b/topographic/mh.py
index 76bf130..8c5deaa 100644
--- a/topographic/mh.py
+++ b/topographic/mh.py
@@ -85,7 +85,7 @@ def mh_calc(profile, ridge, valley, data_spacing):
 
     # calculate the mh from the front l2_capital to the back l2_capital with
     # the escarpment factor considered:
-    l1 = int(np.floor(fl2_ind)) - 1
+    l1 = max(0, int(np.floor(fl2_ind)) - 1)
     l2 = int(
         np.floor(
             np.minimum(
-- 
2.43.0


From 25011feb6095cc4eb06e6a22420bb13b6025faf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:17 +0000
Subject: [PATCH 15/41] fix: average the smoothed topographic multiplier over
 existing cells

The 3x3 smoothing counted the cells outside the raster as zero, so that
the multiplier along the raster edges was 2/3 (4/9 in the corners) of what
it should be, even over flat ground.
---
 topographic/topo_mult.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 3c30a0c..0ee1ce4 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -135,6 +135,8 @@ def topomult(input_dem, tile_extents_nobuffer):
         # smooth
         g = np.ones((3, 3)) / 9.
         mhsmooth = signal.convolve(mhdata, g, mode='same')
+        # cells at the edge are averaged over the neighbours they have
+        mhsmooth /= signal.convolve(np.ones(mhdata.shape), g, mode='same')
         mhsmooth[np.isnan(elevation_array)] = np.nan
         del mhdata
 
-- 
2.43.0


From 5792ff1d86d9b9b4dedf3089c27cc675b789c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:17 +0000
Subject: [PATCH 16/41] fix: spatial join with shapely 2

STRtree.query() returns the positions of the geometries in shapely 2, the
spatial join failed with a KeyError.
---
 utilities/shapefiles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 2779db0..573be5e 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -74,8 +74,10 @@ class shp_file:
 
         def process(i):
             poly = self.geom[i]
-            fids = [index_by_id[id(pt)] for pt in idx_other.query(poly)
-                    if poly.intersects(pt)]
+            # the tree returns positions (geometries before shapely 2)
+            fids = [index_by_id.get(id(pt), pt)
+                    for pt in idx_other.query(poly)]
+            fids = [id_ for id_ in fids if poly.intersects(other.geom[id_])]
             if len(fids) == 0:
                 return None
             elif len(fids) == 1:
-- 
2.43.0


From a166719ef2ce7cb560a008b5703ca2ae1ff54ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:52 +0000
Subject: [PATCH 17/41] fix: topographic multiplier of an integer DEM

Masking the nodata cells of an integer elevation array with NaN raises a
ValueError, so a run with an Int32 DEM failed.
---
 topographic/topo_mult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topographic/topo_mult.py b/topographic/topo_mult.py
index 0ee1ce4..8845696 100644
--- a/topographic/topo_mult.py
+++ b/topographic/topo_mult.py
@@ -60,7 +60,7 @@ def topomult(input_dem, tile_extents_nobuffer):
     lon, lat = get_lat_lon(tile_extents_nobuffer, pixelwidth, pixelheight)
 
     band = ds.GetRasterBand(1)
-    elevation_array = band.ReadAsArray(0, 0, nc, nr)
+    elevation_array = band.ReadAsArray(0, 0, nc, nr).astype(float)
 
     nodata_value = band.GetNoDataValue()
     if nodata_value is not None:
-- 
2.43.0


From b7271ebb18ab6ea6da89cdc535772eb009d1b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:25 +0000
Subject: [PATCH 18/41] fix: do not skip a tile whose GDAL checksum happens to
 be zero

---
 all_multipliers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 1feeb0f..9662a86 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -363,8 +363,8 @@ class Multipliers(object):
         tile_name = tile_info[0]
         tile_extents_nobuffer = tile_info[2]
 
-        # check the checksum value of the terrain map tile, if it is greater
-        # than 0, go ahead
+        # check the elevation of the tile, if it is not zero everywhere, go
+        # ahead
         if not os.path.exists(temp_tile_dem):
             log.critical(f'File does not exist: {temp_tile_dem}')
             raise OSError
@@ -373,11 +373,12 @@ class Multipliers(object):
             log.critical(f'Could not open {temp_tile_dem}. Check file format?')
             raise IOError
 
+        # GDAL's checksum of a tile can be 0 although there is elevation
         band = temp_dataset.GetRasterBand(1)
-        checksum = band.Checksum()
-        log.info(f'This DEM tile checksum is {str(checksum)}')
+        has_elevation = np.any(band.ReadAsArray())
+        log.info(f'This DEM tile has elevation: {has_elevation}')
 
-        if checksum > 0:
+        if has_elevation:
             # extract the temporary tile from landcover
             terrain_resample = pjoin(output_folder, tile_name + '.img')
 
-- 
2.43.0


From 698130f4dcc06720c14ef97328abdd625d6a4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 19/41] fix: distance between points on the equator

---
 utilities/vincenty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 3f69a31..653af3b 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -224,7 +224,8 @@ def vinc_dist(f, a, phi1, lembda1, phi2, lembda2):
 
         Sin_alpha = math.cos(U1) * math.cos(U2) * math.sin(lembda) / \
             math.sin(sigma)
-        alpha = math.asin(Sin_alpha)
+        # rounding can take it past 1 on a line along the equator
+        alpha = math.asin(max(-1.0, min(1.0, Sin_alpha)))
 
         Cos2sigma_m = math.cos(sigma) - (2 * math.sin(U1) * math.sin(U2) /
                                          pow(math.cos(alpha), 2))
-- 
2.43.0


From 9500eab23889daa61740544aa0d582bebddabcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 20/41] fix: iterate the longitude difference to below a
 millimetre

---
 utilities/vincenty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 653af3b..2666fdc 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -209,7 +209,7 @@ def vinc_dist(f, a, phi1, lembda1, phi2, lembda2):
         3000000.0 or lembda != 0 and abs(
             (last_lembda -
              lembda) /
-            lembda) > 1.0e-9):
+            lembda) > 1.0e-12):
 
         sqr_sin_sigma = pow(math.cos(U2) * math.sin(lembda), 2) + \
             pow((math.cos(U1) * math.sin(U2) -
-- 
2.43.0


From 4c6f1b4bc42eaf7cb9003294e3d4356960502706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 21/41] fix: third-order term of Vincenty's direct formula

---
 utilities/vincenty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index 2666fdc..c9631d9 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -346,11 +346,11 @@ def vinc_pt(f, a, phi1, lembda1, alpha12, s):
             (math.cos(two_sigma_m) +
              (B / 4) * (math.cos(sigma) *
                         (-1 + 2 * math.pow(
-                              math.cos(two_sigma_m), 2) -
+                              math.cos(two_sigma_m), 2)) -
                         (B / 6) * math.cos(two_sigma_m) *
                         (-3 + 4 * math.pow(math.sin(sigma), 2)) *
                         (-3 + 4 * math.pow(
-                               math.cos(two_sigma_m), 2)))))
+                               math.cos(two_sigma_m), 2))))
 
         last_sigma = sigma
         sigma = (s / (b * A)) + delta_sigma
-- 
2.43.0


From 6601af64fb1d9bebdbecefe3e10ea7946878d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:40 +0000
Subject: [PATCH 22/41] fix: Vincenty's direct formula for a zero distance

---
 utilities/vincenty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index c9631d9..b2386a3 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -339,7 +339,7 @@ def vinc_pt(f, a, phi1, lembda1, alpha12, s):
     # Iterate the following three equations
     # until there is no significant change in sigma
     # two_sigma_m , delta_sigma
-    while (abs((last_sigma - sigma) / sigma) > 1.0e-9):
+    while (abs(last_sigma - sigma) > 1.0e-9 * abs(sigma)):
         two_sigma_m = 2 * sigma1 + sigma
 
         delta_sigma = B * math.sin(sigma) * \
-- 
2.43.0


From 63d6aa11c64f21bbadae5ab1c036fc70178c90ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:35 +0000
Subject: [PATCH 23/41] fix: lists of points of a great circle on a sphere

---
 utilities/vincenty.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/vincenty.py b/utilities/vincenty.py
index b2386a3..e08f40c 100644
--- a/utilities/vincenty.py
+++ b/utilities/vincenty.py
@@ -103,8 +103,8 @@ class GreatCircle(object):
             z = A * math.sin(lat1) + B * math.sin(lat2)
             lats = np.arctan2(z, np.sqrt(x ** 2 + y ** 2))
             lons = np.arctan2(y, x)
-            lons = map(math.degrees, lons.tolist())
-            lats = map(math.degrees, lats.tolist())
+            lons = list(map(math.degrees, lons.tolist()))
+            lats = list(map(math.degrees, lats.tolist()))
         # use ellipsoid formulas
         else:
             latpt = self.lat1
-- 
2.43.0


From 764fa452d162ab6864e4985863921b040216ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:40 +0000
Subject: [PATCH 24/41] fix: cell sizes of projected rasters, coordinates in
 the order x, y

---
 utilities/get_pixel_size_grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utilities/get_pixel_size_grid.py b/utilities/get_pixel_size_grid.py
index 8e3300b..122223e 100644
--- a/utilities/get_pixel_size_grid.py
+++ b/utilities/get_pixel_size_grid.py
@@ -71,6 +71,9 @@ def get_pixel_size(dataset, xxx_todo_changeme):
     log.debug('geotransform = %s', geotransform)
 
     latlong_spatial_reference = spatial_reference.CloneGeogCS()
+    # coordinates in the order of the geotransform, (x, y) and (lon, lat)
+    for reference in (spatial_reference, latlong_spatial_reference):
+        reference.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
     coord_transform_to_latlong = \
         osr.CoordinateTransformation(spatial_reference,
                                      latlong_spatial_reference)
-- 
2.43.0


From 50ded9d44b12c2394ca8747b923f837db1741844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 25/41] fix: construct singletons that count as false once

---
 utilities/meta.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utilities/meta.py b/utilities/meta.py
index 5c29cfc..628345a 100644
--- a/utilities/meta.py
+++ b/utilities/meta.py
@@ -25,9 +25,9 @@ class Singleton(type):
         return super(Singleton, cls).__new__(cls, name, bases, dct)
 
     def __call__(cls, *args, **kwargs):
-        if not cls._instance_for_singleton_ssfusousoifusos:
+        if cls._instance_for_singleton_ssfusousoifusos is None:
             with cls._lock_for_singleton_ssfusousoifusos:
-                if not cls._instance_for_singleton_ssfusousoifusos:
+                if cls._instance_for_singleton_ssfusousoifusos is None:
                     cls._instance_for_singleton_ssfusousoifusos = \
                         super(Singleton, cls).__call__(*args, **kwargs)
         return cls._instance_for_singleton_ssfusousoifusos
-- 
2.43.0


From 967ca0e420b46209bf4aec4f875a325d1f804fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 26/41] fix: crop polygons that also touch the edge of the crop
 box

---
 utilities/shapefiles.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 573be5e..202e2fc 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -59,6 +59,9 @@ class shp_file:
         polybox = Polygon([[p.x, p.y] for p in point_List])
         for idx, poly in enumerate(self.geom):
             result = polybox.intersection(poly)
+            if result.geom_type == 'GeometryCollection':
+                # it may also meet the edge of the box in lines and points
+                result = unary_union([g for g in result.geoms if g.area])
             if result.area:
                 clip_geom.append(result)
                 clip_attribute.append(self.attribute[idx])
-- 
2.43.0


From 8a9a2594c740b498960dfdef9bff0da74da6cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:41 +0000
Subject: [PATCH 27/41] fix: write the shapefile also over the empty one a
 killed run leaves

---
 utilities/shapefiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utilities/shapefiles.py b/utilities/shapefiles.py
index 202e2fc..2327f3a 100644
--- a/utilities/shapefiles.py
+++ b/utilities/shapefiles.py
@@ -1,5 +1,6 @@
 import logging
 import itertools
+import os
 from shapely.geometry import shape, mapping, Polygon, Point
 from shapely.ops import unary_union
 from shapely.strtree import STRtree
@@ -27,6 +28,9 @@ class shp_file:
                     self.attribute.append(poly['properties'])
 
     def save(self, fname):
+        if os.path.isfile(fname) and not os.path.getsize(fname):
+            # left by a run that was killed, it cannot be opened to replace it
+            os.remove(fname)
         with fiona.open(fname, 'w', **self.meta) as output:
             for i in range(len(self.attribute)):
                 output.write({
-- 
2.43.0


From 72aa687fef60be20c237a04f8ff43c49f2584552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:02 +0000
Subject: [PATCH 28/41] fix: log to the configured file also if two processes
 make its folder

---
 all_multipliers.py | 3 ++-
 utilities/files.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index 9662a86..e3be9f4 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -714,7 +714,8 @@ def run():
     # If log file directory does not exist, create it
     if not isdir(logdir):
         try:
-            os.makedirs(logdir)
+            # another process may be making it, too
+            os.makedirs(logdir, exist_ok=True)
         except OSError:
             logfile = pjoin(os.getcwd(), 'multipliers.log')
 
diff --git a/utilities/files.py b/utilities/files.py
index 0d27f9f..18f7ab6 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -246,7 +246,7 @@ def fl_start_log(log_file, log_level, verbose=False, datestamp=False,
     log_dir = os.path.dirname(os.path.realpath(log_file))
     if not os.path.isdir(log_dir):
         try:
-            os.makedirs(log_dir)
+            os.makedirs(log_dir, exist_ok=True)
         except OSError:
             # Unable to create the directory, so stick it in the
             # current working directory:
-- 
2.43.0


From a81f9eff168d586ec155d5952d937d6293c22087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:02 +0000
Subject: [PATCH 29/41] fix: show messages on standard output, as verbose
 promises

---
 utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index 18f7ab6..d3d93e5 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -272,7 +272,7 @@ def fl_start_log(log_file, log_level, verbose=False, datestamp=False,
         if verbose and sys.stdout.isatty():
             # If set to true, all logging calls will also be printed to the
             # console (i.e. STDOUT)
-            console = logging.StreamHandler()
+            console = logging.StreamHandler(sys.stdout)
             console.setLevel(getattr(logging, log_level))
             formatter = logging.Formatter('%(asctime)s: %(message)s',
                                           '%H:%M:%S', )
-- 
2.43.0


From 15ff29693015006f715b000411161fc8761d5c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 30/41] fix: report errors of writing the last part of a raster

GDAL writes it when the dataset is closed, and an error there (a full disk)
is not raised by del: runs ended well without the results.
---
 all_multipliers.py      |  6 ++++--
 utilities/convert.py    |  2 ++
 utilities/mpi_runner.py | 13 +++++++------
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/all_multipliers.py b/all_multipliers.py
index e3be9f4..985341b 100755
--- a/all_multipliers.py
+++ b/all_multipliers.py
@@ -347,7 +347,8 @@ class Multipliers(object):
         # Do the work
         gdal.ReprojectImage(self.dem_ds, dst, self.dem_proj, self.dem_proj)
 
-        del dst  # Flush
+        dst.FlushCache()  # an error in it is not raised by del
+        del dst
 
         return
 
@@ -649,7 +650,8 @@ def reproject_dataset(src_file, match_filename, dst_filename,
     # Do the work
     gdal.ReprojectImage(src, dst, src_proj, match_proj, resampling_method)
 
-    del dst  # Flush
+    dst.FlushCache()
+    del dst
     if type(match_filename) == str:
         del match_ds
     if type(src_file) == str:
diff --git a/utilities/convert.py b/utilities/convert.py
index 3a5163a..e410f94 100644
--- a/utilities/convert.py
+++ b/utilities/convert.py
@@ -75,6 +75,7 @@ class Converter:
                                      "-co COMPRESS=LZW -co TILED=YES")))
         self.max_tile_files.append(filename)
 
+        tif.FlushCache()  # an error in it is not raised by del
         del tif
 
     def process_tile(self, tile):
@@ -156,6 +157,7 @@ class Converter:
                                      "-co COMPRESS=LZW -co TILED=YES")))
         self.tile_files.append(filename)
 
+        tif.FlushCache()  # an error in it is not raised by del
         del tif
 
     def run(self):
diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index e76c930..ad43696 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -44,12 +44,13 @@ def parallelise_convert_on_tiles(data_path, comm):
                                           total + element[1], results, [])
         if len(tile_files) > 0:
             log.info("Creating virtual raster table")
-            gdal.BuildVRT(os.path.join(data_path, 'M3',
-                                       'wind-multipliers.vrt'),
-                          tile_files)
-            gdal.BuildVRT(os.path.join(data_path, 'M3_max',
-                                       'wind-multipliers.vrt'),
-                          max_tile_files)
+            for folder, files in (('M3', tile_files),
+                                  ('M3_max', max_tile_files)):
+                vrt = gdal.BuildVRT(os.path.join(data_path, folder,
+                                                 'wind-multipliers.vrt'),
+                                    files)
+                vrt.FlushCache()  # an error in it is not raised by del
+                del vrt
         else:
             log.warning("No raster file found to build virtual raster table")
 
-- 
2.43.0


From 982ce51105883189ac57d9fc01bfb43dcd7cceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 31/41] fix: end all processes if one of them fails

The others waited for it for ever.
---
 utilities/parallel.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/utilities/parallel.py b/utilities/parallel.py
index 12878eb..d0f1f01 100644
--- a/utilities/parallel.py
+++ b/utilities/parallel.py
@@ -17,6 +17,7 @@
 
 """
 
+import sys
 from functools import wraps
 
 
@@ -116,9 +117,25 @@ def attempt_parallel():
                 pass
 
         MPI = DummyMPI()
+    if MPI.COMM_WORLD.size > 1:
+        sys.excepthook = abort_all
     return MPI
 
 
+def abort_all(*exc_info):
+    """
+    Report an exception that nobody handled and end all processes. The
+    others would wait for this one for ever.
+
+    :param exc_info: type, value and traceback of the exception
+
+    """
+
+    sys.__excepthook__(*exc_info)
+    sys.stderr.flush()
+    MPI.COMM_WORLD.Abort(1)
+
+
 def disable_on_workers(f):
     """
     Decorator to disable function `f` calculation on workers.
-- 
2.43.0


From 1f5559c0c5ab6fff6bab864c9243b2a79d3237bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 32/41] fix: fail if the terrain table cannot be read

The program ended with the status of success, a worker left the others waiting.
---
 terrain/terrain_mult.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/terrain/terrain_mult.py b/terrain/terrain_mult.py
index 1fa315f..fc34f13 100644
--- a/terrain/terrain_mult.py
+++ b/terrain/terrain_mult.py
@@ -18,7 +18,6 @@ for 8 directions and output as NetCDF format.
 
 # Import system & process modules
 import os
-import sys
 import logging as log
 
 from utilities.config import configparser as config
@@ -171,8 +170,6 @@ def get_terrain_table():
         mz_init = pd.read_csv(terrain_table, comment='#', index_col=False)
     except IOError:
         log.exception(f"Terrain table file does not exist: {terrain_table}")
-        sys.exit()
-    except:
         raise
 
     return mz_init
-- 
2.43.0


From 23a4f7dcc8cd0abd53797fc3995e1512a12c2cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 33/41] fix: fail if GDAL cannot make the category rasters

Errors (no such attribute, mask or layer, a full disk) were printed only, and
rasters of zeros, of an earlier run or incomplete ones left as results.
---
 pre_process.py | 2 ++
 rasterize.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pre_process.py b/pre_process.py
index 7b45e46..1817fdc 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -12,6 +12,7 @@ from rtree import index
 from osgeo import ogr, gdal
 import numpy as np
 
+gdal.UseExceptions()
 
 logger = logging.getLogger('shapefile converter')
 logger.setLevel(logging.DEBUG)
@@ -79,6 +80,7 @@ def rasterize(input, output, input_topo, crop_topo):
     band.FlushCache()
     gdal.RasterizeLayer(target_ds, [1],
                         source_layer, options=["ATTRIBUTE=CAT"])
+    target_ds.FlushCache()  # an error in it is not raised on deletion
 
 
 def pre_process(settlment_file, settlment_cat, landuse_file, landuse_cat,
diff --git a/rasterize.py b/rasterize.py
index 5426886..a39e350 100644
--- a/rasterize.py
+++ b/rasterize.py
@@ -40,6 +40,7 @@ if __name__ == "__main__":
                                cutlineDSName=arg.crop,
                                cropToCutline=True,
                                dstNodata=0)
+        write_topo.FlushCache()  # an error in it is not raised on deletion
         write_topo = None
     else:
         topofile = arg.topography
@@ -50,4 +51,5 @@ if __name__ == "__main__":
                                cutlineDSName=arg.crop,
                                cropToCutline=True,
                                dstNodata=0)
+        write_topo.FlushCache()
         write_topo = None
-- 
2.43.0


From 00c0354ddae530e70c77698e46134efb775ceb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 34/41] fix: rasterise the attribute that is asked for

---
 pre_process.py | 7 +++++--
 rasterize.py   | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pre_process.py b/pre_process.py
index 1817fdc..5e0fb2e 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -33,7 +33,7 @@ logger.addHandler(fh)
 logger.addHandler(ch)
 
 
-def rasterize(input, output, input_topo, crop_topo):
+def rasterize(input, output, input_topo, crop_topo, attribute='CAT'):
 
     """
     Function to rasterize a shapefile
@@ -44,6 +44,9 @@ def rasterize(input, output, input_topo, crop_topo):
     :param output: name/path of the tiff file
     :type output: str
 
+    :param attribute: name of the attribute to rasterise
+    :type attribute: str
+
     """
     print("args ", input, output, input_topo, crop_topo)
     source_ds = ogr.Open(input)
@@ -79,7 +82,7 @@ def rasterize(input, output, input_topo, crop_topo):
     band.SetNoDataValue(NoData_value)
     band.FlushCache()
     gdal.RasterizeLayer(target_ds, [1],
-                        source_layer, options=["ATTRIBUTE=CAT"])
+                        source_layer, options=["ATTRIBUTE=" + attribute])
     target_ds.FlushCache()  # an error in it is not raised on deletion
 
 
diff --git a/rasterize.py b/rasterize.py
index a39e350..eefa328 100644
--- a/rasterize.py
+++ b/rasterize.py
@@ -44,7 +44,7 @@ if __name__ == "__main__":
         write_topo = None
     else:
         topofile = arg.topography
-    rasterize(arg.input, "test.tiff", topofile, True)
+    rasterize(arg.input, "test.tiff", topofile, True, arg.attribute)
     if arg.crop:
         write_topo = gdal.Warp("test_crop.tiff",
                                "test.tiff",
-- 
2.43.0


From d0cd98dc212e31ab53e9827e2022443c0eb4f26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:53 +0000
Subject: [PATCH 35/41] fix: fail if the named configuration file cannot be
 read

The program ran with the default settings, and emptied their output folder.
---
 utilities/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utilities/config.py b/utilities/config.py
index c6c3eae..dab94e2 100644
--- a/utilities/config.py
+++ b/utilities/config.py
@@ -42,7 +42,8 @@ class _ConfigParser(RawConfigParser):
         Read the specified config file if not read already
         """
         if not self.readonce:
-            self.read(self.config_file)
+            if not self.read(self.config_file):
+                raise IOError(f"Cannot read {self.config_file}")
             self.readonce = True
 
     def set_config_file(self, config_file):
-- 
2.43.0


From e3c0ccf1231370b25d7b507aed87619bb6817d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:16 +0000
Subject: [PATCH 36/41] fix: fail if the layer has no attribute to rasterise

GDAL warns only, and makes a raster of zeros.
---
 pre_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pre_process.py b/pre_process.py
index 5e0fb2e..c396533 100644
--- a/pre_process.py
+++ b/pre_process.py
@@ -51,6 +51,8 @@ def rasterize(input, output, input_topo, crop_topo, attribute='CAT'):
     print("args ", input, output, input_topo, crop_topo)
     source_ds = ogr.Open(input)
     source_layer = source_ds.GetLayer()
+    if source_layer.GetLayerDefn().GetFieldIndex(attribute) < 0:
+        raise ValueError(f"{input} has no attribute {attribute}")
     topo_ds = gdal.Open(input_topo)
     wkt = topo_ds.GetProjection()
     nrows = topo_ds.RasterYSize
-- 
2.43.0


From 9b5c472d824f9f10c1884e51fef182f0de815e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:43 +0000
Subject: [PATCH 37/41] fix: do not fail if no tile can go into the virtual
 raster table

---
 utilities/mpi_runner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utilities/mpi_runner.py b/utilities/mpi_runner.py
index ad43696..ad0cadc 100644
--- a/utilities/mpi_runner.py
+++ b/utilities/mpi_runner.py
@@ -49,6 +49,10 @@ def parallelise_convert_on_tiles(data_path, comm):
                 vrt = gdal.BuildVRT(os.path.join(data_path, folder,
                                                  'wind-multipliers.vrt'),
                                     files)
+                if vrt is None:  # no raster that it could take up
+                    log.warning("No virtual raster table is written "
+                                "in folder %s", folder)
+                    continue
                 vrt.FlushCache()  # an error in it is not raised by del
                 del vrt
         else:
-- 
2.43.0


From 967e23fa7020b4b58a63ee89c50dfcdeff7cc553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:51 +0000
Subject: [PATCH 38/41] fix: write all variables of a grid file, not only the
 first

---
 utilities/nctools.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 0a2cc77..b77a705 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -281,16 +281,17 @@ def nc_save_grid(filename, dimensions, variables, nodata=-9999,
             var[:] = np.array(v['values'], dtype=v['dtype'])
 
         var.setncatts(v['atts'])
-        ncobj.setncatts(gatts)
 
-        if datatitle:
-            ncobj.setncattr('title', datatitle)
+    ncobj.setncatts(gatts)
 
-        if keepfileopen:
-            return ncobj
-        else:
-            ncobj.close()
-            return
+    if datatitle:
+        ncobj.setncattr('title', datatitle)
+
+    if keepfileopen:
+        return ncobj
+    else:
+        ncobj.close()
+        return
 
 
 def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
-- 
2.43.0


From 0c2d1e6defa4d74466318cfe42f0670e13e4a249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:51 +0000
Subject: [PATCH 39/41] fix: write the data of a variable that are given as an
 array

---
 utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index b77a705..915d10b 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -114,7 +114,7 @@ def nc_create_var(
 
     var = ncobj.createVariable(name, dtype, dimensions, **kwargs)
 
-    if data:
+    if data is not None:
         var[:] = np.array(data, dtype=dtype)
 
     if atts:
-- 
2.43.0


From 8a7ec1407cffdb6ab6ba6ac807c3194ff1c09f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:31 +0000
Subject: [PATCH 40/41] fix: multipliers could not be saved by an account
 without a name

---
 utilities/nctools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utilities/nctools.py b/utilities/nctools.py
index 915d10b..a584ddc 100644
--- a/utilities/nctools.py
+++ b/utilities/nctools.py
@@ -329,6 +329,12 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
         LOGGER.warning("Cannot determine the version of the code using git")
         git_info = 'unknown'
 
+    try:
+        user = getpass.getuser()
+    except (ImportError, KeyError, OSError):
+        # the account has no name, as is common in containers
+        user = 'unknown'
+
     # Set global attributes, including metadata capture:
     global_atts = {'Abstract': ('This dataset is the local ' +
                                 multiplier[multiplier_name] +
@@ -347,7 +353,7 @@ def save_multiplier(multiplier_name, multiplier_values, lat, lon, nc_name):
                    'Git_version': git_info,
                    'Conventions': ('CF-1.6'),
                    'Created_on': time.strftime(ISO_FORMAT, time.localtime()),
-                   'Created_by': getpass.getuser(),
+                   'Created_by': user,
                    'Custodian': ('Geoscience Australia')}
 
     for section in config.sections():
-- 
2.43.0


From 3fe6f4e9306ee72a9645f921d64905bbcf65ec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:48 +0000
Subject: [PATCH 41/41] fix: a table could not be saved to a file in the
 current folder

fl_save_file() tried to make the folder '' when the name of the file had
no folder, and failed.
---
 utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utilities/files.py b/utilities/files.py
index d3d93e5..7219fe1 100644
--- a/utilities/files.py
+++ b/utilities/files.py
@@ -121,7 +121,7 @@ def fl_save_file(filename, data, header='', delimiter=',', fmt='%.18e'):
     """
 
     directory, fname = os.path.split(filename)
-    if not os.path.isdir(directory):
+    if directory and not os.path.isdir(directory):
         os.makedirs(directory)
 
     try:
-- 
2.43.0

