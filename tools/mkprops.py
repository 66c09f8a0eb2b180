#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))


AM, SH, TE, TO = 'all_multipliers.py', 'shielding/shield_mult.py', 'terrain/terrain_mult.py', 'topographic/topo_mult.py'

prop('C01', 'The tiles partition the elevation raster',
     "For every elevation raster size, cell size and upwind buffer length, the processing tiles taken without "
     "their buffer cover every raster cell exactly once and lie inside the raster. Each tile spans the number of cells of one "
     "degree (rounded up) in each direction, except that the last column and row of tiles are cut at the raster edge.",
     ['inputs', 'configurations'],
     'all raster dimensions, cell sizes (non-square too), buffers from 0 to beyond several tiles',
     'No existing test builds the tile grid; the property quantifies over dimensions, step and buffer, and the '
     'interesting cases are remainders narrower than the buffer and buffers wider than a tile.',
     [AM], [('TileGrid.tile_grid', AM), ('TileGrid.get_gridlimit', AM)],
     ['TileGrid.get_gridlimit(k)', 'TileGrid.num_tiles', 'get_tiles()'],
     [('x_start/x_end/y_start/y_end', 'buffered cell limits per tile', AM)])
prop('C02', 'Every tile carries its full upwind buffer',
     "The area a tile is processed on is its own area extended on all four sides by the configured upwind length "
     "expressed in whole cells (rounded down), cut only at the edge of the elevation raster. It never reaches outside the raster.",
     ['inputs', 'configurations'],
     'all raster dimensions, cell sizes and buffer lengths, all tiles of the grid',
     'Not exercised by the tests; a buffer that is short on one side only changes results near tile seams.',
     [AM], [('TileGrid.__init__ (x_buffer, y_buffer)', AM), ('TileGrid.tile_grid', AM), ('get_gridlimit_buffer', AM)],
     ['TileGrid.get_gridlimit_buffer(k)', 'TileGrid.get_tile_extent_buffer(k)'])
prop('C03', 'Tiles are named and located by their own corner',
     "A tile's name encodes the longitude and (south-positive) latitude of the north-west corner of the tile without buffer, two tiles of a run never "
     "share a name, and the coordinate extents handed to processing (with and without buffer) are exactly the cell edges of the "
     "tile's cell limits in the elevation raster's georeference.",
     ['inputs', 'configurations'],
     'all rasters (origin, cell size, dimensions), all tiles',
     'Names are the keys of every output file: a collision silently overwrites another tile, and it depends on '
     'origin and resolution, of which the tests try none.',
     [AM], [('get_startcord/get_tilename', AM), ('get_tile_extent/get_tile_extent_buffer', AM), ('get_tileinfo', AM)],
     ['get_tiles(tilegrid)'])
prop('C04', 'The working elevation tile reproduces the elevation raster',
     "The elevation tile cut for processing holds, cell for cell, the values of the input elevation raster over the requested "
     "extent, with the same cell size, the extent's north-west corner as its origin and the raster's projection, for floating-point and 32-bit integer rasters alike.",
     ['inputs'],
     'all elevation rasters, data types and tile extents aligned with cells',
     'The only test of this function fails on its fixture; value placement depends on origin, offset and size of the extent.',
     [AM], [('Multipliers.open_dem', AM), ('Multipliers.clip_dataset', AM), ('Multipliers.cut_dem', AM)],
     ['file written by clip_dataset / cut_dem'])
prop('C05', 'Land cover is resampled to the elevation grid by nearest cell',
     "The land-cover tile used in the computation has exactly the grid of the elevation tile, and each of its cells holds the class of "
     "the land-cover cell that contains its centre, so no class value is ever invented by interpolation. Cells whose centre lies outside the land-cover raster hold 0.",
     ['inputs'],
     'all land-cover rasters: finer, coarser, shifted, partially overlapping, integer and float',
     'One test compares one reprojected raster; alignment, partial overlap and class invention need many geometries.',
     [AM], [('reproject_dataset', AM)], ['file written by reproject_dataset'])
prop('C06', 'Output cells are registered to the elevation cells they describe',
     "In every output file of a tile (the three multipliers for eight directions, the combined product and its maximum) the coordinates of "
     "each cell are the centre of one elevation cell, the value stored there is the one computed for that elevation cell, and the outputs of all tiles together cover the "
     "elevation raster exactly once.",
     ['inputs', 'configurations'],
     'all rasters, tilings and buffers, every tile, direction and file type (tiles of a single row or column of cells: see known findings)',
     'Registration is a chain over five modules (grid, cut, buffer clipping, NetCDF axes, GeoTIFF conversion); tests check two links on fixtures and never the chain.',
     [AM, 'utilities/nctools.py', 'utilities/convert.py', SH, TE, TO],
     [('get_lat_lon', 'utilities/nctools.py'), ('clip_array', 'utilities/nctools.py'), ('Converter.process_tile', 'utilities/convert.py')],
     ['NetCDF and GeoTIFF files in the output folder'])
prop('C07', 'Parallel dispatch processes every tile exactly once and ends',
     "With any number of processes and tiles, and any order in which workers finish, every tile is computed by exactly one process exactly once, "
     "only after its elevation tile has been cut, and all processes finish without a message left unreceived or a process left waiting.",
     ['schedules', 'configurations'],
     'all interleavings of master and workers, numbers of processes (1 and up) and of tiles (0, fewer than, equal to, more than workers)',
     'The suite never runs with more than one process (mpi4py is absent), so no schedule of the dispatch protocol is executed.',
     [AM], [('Multipliers.parallelise_on_tiles', AM)], ['MPI send/recv calls', 'tiles handed to computation'],
     [('w', 'next tile to hand out', AM), ('terminated', 'workers told to stop', AM)])
prop('C08', 'Serial and parallel runs give the same results',
     "The files produced by a run, and their contents, are the same whatever the number of processes and the order in which they work.",
     ['schedules', 'configurations'],
     'process counts 1..n and schedules, over rasters of several tiles, including empty tiles',
     'No test runs the program end to end, serially or in parallel.',
     [AM, 'utilities/mpi_runner.py', 'utilities/parallel.py'],
     [('run', AM), ('parallelise_on_tiles', AM), ('parallelise_convert_on_tiles', 'utilities/mpi_runner.py')],
     ['output folder of a complete run'])
prop('C09', 'Run phases are ordered and one process prepares the output folder',
     "In a run, the output folder and its sub-folders are emptied and created only by the first process and before any tile is processed, and nothing in it is "
     "deleted by another process or later, except the temporary files of a tile by the process that computes it. Conversion of the multipliers starts only after every tile has been computed.",
     ['schedules', 'configurations', 'histories'],
     'all interleavings of the processes of a run, re-runs over an existing output folder, any number of processes',
     'A race between deletion and output needs several processes; the suite runs none, and a stale folder is never set up.',
     [AM, 'utilities/parallel.py'], [('run (barriers)', AM), ('do_output_directory_creation + disable_on_workers', AM)],
     ['file-system operations of each process', 'MPI calls'])
prop('C10', 'Every computed tile is converted once and listed in both mosaics',
     "Whatever the number of processes, each tile that has a shielding result is converted exactly once, and both virtual mosaics (combined multiplier and directional maximum) list "
     "exactly the converted tiles, each once. With no tile at all the run still ends normally.",
     ['schedules', 'inputs', 'configurations'],
     'all numbers of tiles and processes (0 tiles, fewer tiles than processes), all schedules',
     'The one test uses one tile and one process.',
     ['utilities/mpi_runner.py', 'utilities/convert.py'], [('parallelise_convert_on_tiles', 'utilities/mpi_runner.py'), ('Converter.run', 'utilities/convert.py')],
     ['M3/*.tif, M3_max/*.tif and the two .vrt files'])
prop('C11', 'The combined multiplier is the product of the three, per direction',
     "For each cell and direction the combined multiplier is terrain times shielding times topographic multiplier of that cell and direction; it is the missing value (-9999) exactly "
     "where one of the three is missing, and a multiplier whose file is absent counts as 1. The eight bands are in the order e, n, ne, nw, s, se, sw, w and are described by these names.",
     ['inputs', 'fault_sequences'],
     'all values, missing-cell patterns, tile shapes (non-square) and sets of absent files',
     'The test converts one complete square tile without missing cells and compares the geotransform.',
     ['utilities/convert.py'], [('Converter.process_tile', 'utilities/convert.py')], ['bands of M3/<tile>.tif'])
prop('C12', 'The directional maximum is the maximum over the directions present',
     "For each cell the maximum product holds the largest combined multiplier over the eight directions, ignoring directions where it is missing, and the missing value only if it is missing in all. It is a "
     "single band with the georeference of the combined product.",
     ['inputs'], 'all values and missing patterns over the eight bands, all tile shapes',
     'No test looks at the values of the maximum product.',
     ['utilities/convert.py'], [('Converter.process_max_tile', 'utilities/convert.py')], ['M3_max/<tile>.tif'])
prop('C13', 'Land-cover classes give the logarithmic terrain multiplier',
     "A cell whose class is in the terrain table gets the initial terrain multiplier -0.2827 ln(0.4554 ln(z0) + 3.734) + 1.0762 of that class's roughness length z0, decreasing as roughness increases; a cell of any other "
     "class has no terrain multiplier: it is missing in the output for every direction, and counts as 1 in the averages of other cells.",
     ['inputs', 'configurations'], 'all terrain tables (categories, order, roughness) and class rasters, including classes not in the table',
     'The tests use the one table and a few cells.',
     [TE], [('terrain_class2mz_orig', TE), ('get_terrain_table', TE), ('terrain (nodata mask)', TE)],
     ['terrain_class2mz_orig', 'terrain/*.nc'])
prop('C14', 'The terrain average uses exactly the upwind cells',
     "For each of the eight directions, the terrain multiplier of a cell is the mean of the initial multipliers of the cells that lie straight upwind (on its row, column or diagonal) beyond the lag distance and within the averaging distance, of which only those inside the "
     "raster count; with no such cell it is the cell's own initial multiplier. The input array is not modified.",
     ['inputs'], 'all directions, positions, array shapes, averaging and lag widths (0 included)',
     'Tests compare single windows at a handful of cells of one fixture.',
     [TE, 'utilities/value_lookup.py'], [('convo', TE), ('ALL_NEIGHB/POINT_R/POINT_C', 'utilities/value_lookup.py')], ['convo(direction, data, avg, lag)'])
prop('C15', 'Terrain tile: 500 m average beyond a 200 m lag, in every direction',
     "The terrain multiplier written for a tile is the upwind average over 500 m beyond 200 m, converted to whole cells by the tile's mean cell size (rounded in the four cardinal directions; per diagonal cell and rounded down in the diagonal ones), "
     "whatever the width and height of the tile. Cells are the tile's without buffer and all eight directions are written; a tile without any class of the terrain table gets no terrain file.",
     ['inputs', 'configurations'], 'all cell sizes, tile shapes (smaller than the upwind distance too) and extents',
     'No test runs a terrain tile; only the inner window function is tested.',
     [TE], [('terrain', TE), ('get_pixel_size_grids', 'utilities/get_pixel_size_grid.py'), ('clip_array', 'utilities/nctools.py')], ['terrain/<tile>_mz_<dir>.nc'])
prop('C16', 'Land-cover classes give the initial shielding factor of the table',
     "The initial shielding factor of a cell is the table's shielding percentage of its class divided by 100, and 1 for classes that are not in the table; a cell marked as nodata in the land-cover tile is missing.",
     ['inputs', 'configurations'], 'all tables and class rasters, with and without a nodata value',
     'The tests compare one fixture with one table.',
     [SH], [('terrain_class2ms_orig', SH), ('get_shielding_table', SH)], ['raster written by terrain_class2ms_orig'])
prop('C17', 'Shielding averages over the upwind sector only',
     "The shielding average of a cell for a direction is the mean with equal weights over its upwind sector of n = whole cells in 100 m: for a cardinal direction the cells 1 to n steps straight upwind and, from step 2 on, the two cells beside each; for a diagonal direction the cells a, b >= 1 steps along its two cardinal directions with a + b <= n + 1. "
     "The cell itself and downwind cells never count, and cells outside the raster count as unshielded (1).",
     ['inputs'], 'all directions, kernel sizes, rasters',
     'Tests compare kernels of one size with stored arrays; the weights, side and rotation laws over all sizes and the effect at raster edges are not checked.',
     [SH], [('init_kern, init_kern_diag, kern_*', SH), ('blur_image', SH)], ['kern_<dir>(size)', 'blur_image(data, kernel)'])
prop('C18', 'Slope and conservatism rules of the shielding multiplier',
     "On ground whose aspect is the wind direction's sector, shielding is removed entirely (1) from a slope of 12.30 degrees and reduced linearly from 3.27 to 12.30 degrees; elsewhere slope has no effect. "
     "Then values under 0.9 are multiplied by 0.9 and others squared, and missing cells stay missing.",
     ['inputs'], 'all values, slopes (boundaries included), aspects and directions, missing patterns',
     'The tests use one small fixture; the piecewise rule has boundaries on three axes.',
     [SH], [('combine', SH), ('DIRE_ASPECT', 'utilities/value_lookup.py')], ['combine(ms, slope, aspect, direction)'])
prop('C19', 'Slope and aspect of the elevation tile',
     "The slope of a cell is the angle of the steepest gradient obtained with the 3x3 Sobel operator and the cell's size in metres, and its aspect sector (n, ne, e, ... by 45 degrees centred on the direction) is the one the downhill direction points to. Adding a constant to the "
     "elevation changes neither.",
     ['inputs'], 'all elevation rasters and cell sizes, all eight sectors',
     'The test compares one fixture against stored output.',
     [SH, 'utilities/get_pixel_size_grid.py'], [('get_slope_aspect', SH), ('reclassify_aspect', SH)], ['get_slope_aspect(dem)'])
prop('C20', 'Shielding tile: each direction is computed from the initial factors',
     "The shielding multiplier written for a tile and direction is the initial factor averaged over that direction's upwind sector (not averaged when cells are over 100 m), corrected for slope and conservatism, over the tile without buffer; "
     "the result of one direction never depends on another direction or on the order they are computed in. Processing a tile leaves the process's working directory as it was.",
     ['inputs', 'histories', 'configurations'], 'all cell sizes (kernel of 0 and more cells), tiles, sequences of tiles',
     'No test runs a shielding tile; aliasing between directions shows only at coarse cell sizes.',
     [SH], [('shield', SH), ('convo_combine', SH)], ['shielding/<tile>_ms_<dir>.nc'])
prop('C21', 'Topographic lines sweep the tile upwind to downwind exactly once',
     "For each of the eight directions the lines along which topography is evaluated start at the upwind edges of the tile, run straight downwind to the opposite edge one cell at a time, and together visit every cell of the tile exactly once.",
     ['inputs'], 'all tile shapes (single rows and columns included), all directions and starting cells',
     'No test calls the path function or the topographic tile computation.',
     ['topographic/make_path.py', TO], [('make_path', 'topographic/make_path.py'), ('topomult (starting cells)', TO)], ['make_path(nr, nc, n, dir)', 'topographic/*.nc'])
prop('C22', 'Hills are found as alternating valleys and ridges',
     "Along a line of whole-metre elevations, the ridges are the points where a climb ends (the first point of a level stretch) and the valleys the points where a climb starts (the last point of a level stretch); the start of an initial descent also counts as a ridge and the end of a final descent as a valley. "
     "They alternate, and the multiplier of a line takes each ridge (except an initial one) with the valley its climb starts from, and nothing else. A line that is flat or only descends has multiplier 1 everywhere.",
     ['inputs'], 'all elevation lines, with plateaus at the start, inside and at the end',
     'The tests compare one stored line; pairing errors appear only for particular plateau patterns.',
     ['topographic/findpeaks.py', 'topographic/multiplier_calc.py'], [('findpeaks', 'topographic/findpeaks.py'), ('findvalleys', 'topographic/findpeaks.py'), ('multiplier_calc', 'topographic/multiplier_calc.py')],
     ['findpeaks(line)', 'findvalleys(line)', 'multiplier_calc(line, spacing)'])
prop('C23', 'The hill-shape multiplier follows the standard and its bounds',
     "Elevations count in whole metres, rounded down. Along a line the multiplier of a cell is the largest over all hills of 1 + H/(3.5(z+L1)) (1 - |x|/L2), limited to 1.71, within L2 upwind of the ridge and the escarpment-scaled L2 downwind of it, and hills lower than 10 m, climbing over less than two cells or flatter than 0.05 do not count. Where a steep (over 0.45), nearly symmetric hill separates the flow (from the crest to H/4 on) 0.71 replaces the slope term H/(3.5(z+L1)). "
     "It is always between 1 and 1.71, and cells outside the zones of all hills have exactly 1.",
     ['inputs'], 'all elevation lines and cell spacings: isolated and compound hills, escarpments, hills at either end',
     'The tests compare one stored line of hills.',
     ['topographic/mh.py', 'topographic/multiplier_calc.py'], [('mh_calc', 'topographic/mh.py'), ('escarpment_factor', 'topographic/mh.py')], ['multiplier_calc(line, spacing)'])
prop('C24', 'Conservatism, Tasmania and smoothing of the topographic multiplier',
     "The line multipliers m are reduced to m(1.25-0.25m) for 1<m<1.4 and to 0.9m from 1.4 up, raised by 1+0.00015 E above 500 m of elevation E only in the Tasmanian region (tiles whose buffered north-west corner is east of 143 E and south of 40 S), and then averaged over each cell's 3x3 neighbourhood inside the raster. "
     "Flat ground outside that region has exactly 1 everywhere, raster edges included, and this is written for all eight directions of the tile without buffer. A cell without elevation counts as level with the sea for the hills around it and has no multiplier itself.",
     ['inputs', 'configurations'], 'all multiplier and elevation arrays, positions of the raster, integer and float elevation',
     'The tests sample the two correction functions on one array; the smoothing, the edges and the tile computation are not run.',
     [TO], [('remove_conservatism', TO), ('tasmania', TO), ('topomult (smoothing)', TO)], ['remove_conservatism', 'tasmania', 'topographic/<tile>_mt_<dir>.nc'])
prop('C25', 'Only results remain, and tiles without elevation are skipped',
     "When a tile has been processed its temporary elevation, land-cover and shielding-factor files are gone and 24 multiplier files remain for it (16 if no cell of it has a class of the terrain table); a tile whose elevation is zero everywhere, buffer included, produces no output, leaves no file and does not disturb the other tiles.",
     ['inputs', 'histories'], 'all runs: mixtures of empty and non-empty tiles in any order, any number of processes',
     'No test runs a tile through the computation.',
     [AM, SH], [('Multipliers.multipliers_calculate', AM), ('convo_combine (cleanup)', SH)], ['output folder after a run'])
prop('C26', 'The configuration named at run time is the one used',
     "Settings come from the project default file until a configuration file is named; after that each setting is that of the most recently named file that defines it, in every module, however often settings are read in between. Naming a file re-reads it even if it was named before.",
     ['histories', 'configurations'], 'all sequences of naming files and reading settings, overlapping and disjoint files, files changed between uses',
     'Tests name one file once.',
     ['utilities/config.py'], [('_ConfigParser.set_config_file', 'utilities/config.py'), ('_ConfigParser._read_file', 'utilities/config.py')], ['config.get after set_config_file'],
     [('readonce', 'current file already read', 'utilities/config.py')])
prop('C27', 'Multiplier files are complete, self-describing and lossless',
     "A multiplier file gives back exactly the latitudes, longitudes and (single-precision) values that were saved, rows from north to south, with missing cells missing, under the multiplier's name, and records the inputs and every configuration setting of the run as attributes; its abstract names the multiplier and the direction, and the (local) time of saving is recorded. Saving does not "
     "depend on the presence of version-control information or of a name for the account.",
     ['inputs', 'configurations'], 'all arrays (shapes, missing cells), coordinates, multiplier names and configurations',
     'The tests compare the coordinate and clipping helpers and never read back a saved file.',
     ['utilities/nctools.py'], [('save_multiplier', 'utilities/nctools.py'), ('nc_save_grid', 'utilities/nctools.py')], ['NetCDF files read back'])
prop('C28', 'Pre-processing assigns each land-use parcel its settlement and category',
     "Each land-use parcel of the input, cropped to the bounding box of the crop mask if there is one, appears once in the output with its geometry, land use and, as settlement type, the type whose area covers the largest part of the parcel (all settlement areas of a type counting together, "
     "those of types that are not recognised counting together as no type), or none if no settlement area meets it; its category code is 100 times the settlement's code plus the land use's code, unknown ones counting 0.",
     ['inputs'], 'all arrangements of settlement and land-use polygons: overlapping several, touching, disjoint, unrecognised types, with and without crop',
     'No test runs pre-processing (and it failed with the installed geometry library).',
     ['pre_process.py', 'utilities/shapefiles.py'], [('pre_process', 'pre_process.py'), ('shp_file.dissolve/crop/spatial_join', 'utilities/shapefiles.py')], ['output shapefile of pre_process'])
prop('C29', 'Category polygons are rasterised onto the elevation grid',
     "The rasterised category map has the size, georeference and projection of the elevation raster; each cell holds the category code (the attribute CAT, or the one that is named) of a polygon that contains its centre, and 0, declared as nodata, where there is none. "
     "With a crop mask, the cropped category map and elevation cover the mask, with the same values where the cell's centre is inside it and 0 outside.",
     ['inputs'], 'all polygon layers and elevation grids (non-square, partial overlap)',
     'No test covers rasterisation.',
     ['pre_process.py', 'rasterize.py'], [('rasterize', 'pre_process.py'), ('command', 'rasterize.py')], ['raster written by rasterize', 'test.tiff, test_crop.tiff and *_crop raster of rasterize.py'])
prop('C30', 'A singleton class has one instance under concurrent construction',
     "However many threads construct a singleton class at the same time, its initialiser runs once and every construction returns the same fully initialised object; distinct singleton classes are independent.",
     ['schedules'], 'all thread interleavings at source-line granularity for small numbers of threads, constructors that are slow or fail',
     'No test covers it, and the double-checked construction is decided only by interleavings.',
     ['utilities/meta.py'], [('Singleton.__call__', 'utilities/meta.py')], ['objects returned to each thread'])
prop('C31', 'Cell sizes in metres are interpolated on the right cells',
     "The grids of cell width and height in metres equal the geodesic cell size at the corner cells of each quadrant of the raster and are bilinear within it, for rasters of every shape down to a single cell: width depends on the row (latitude) and "
     "is the same along a row, shrinking away from the equator, and every cell is assigned.",
     ['inputs'], 'all raster shapes (odd, even, single row/column/cell), positions and cell sizes',
     'No test covers these grids; a transposition or half-cell error is invisible on square tiles.',
     ['utilities/get_pixel_size_grid.py', 'utilities/blrb.py'], [('get_pixel_size_grids', 'utilities/get_pixel_size_grid.py'), ('interpolate_grid, subdivide, bilinear', 'utilities/blrb.py')],
     ['get_pixel_size_grids(dataset)', 'interpolate_grid(...)'])
prop('C32', 'Results near tile seams do not depend on the tiling',
     "If the upwind buffer is at least the distance over which terrain and shielding look, the terrain and shielding multipliers of a cell are the same (to rounding) whether the cell is computed in one big tile or in any smaller tile that contains it with its buffer.",
     ['inputs', 'configurations'], 'all placements of tile boundaries, cell positions and directions',
     'It relates two runs with different tilings; no test runs even one.',
     [AM, TE, SH], [('TileGrid', AM), ('terrain', TE), ('convo_combine', SH), ('clip_array', 'utilities/nctools.py')], ['terrain/ and shielding/ files of runs with different tilings'])
prop('C33', 'Geodesic distances are accurate',
     "The distance and azimuths computed between two points on the ellipsoid agree with the geodesic on that ellipsoid to within a millimetre.",
     ['inputs'], 'all pairs of points at least 10 cm apart (closer ones count as the same) that are not nearly antipodal, on the equator, meridians, poles and across the date line too, and all Earth-like ellipsoids and the sphere',
     'No test covers it; it is a numerical-accuracy statement about an iterative formula.',
     ['utilities/vincenty.py'], [('vinc_dist', 'utilities/vincenty.py')], ['vinc_dist'])
prop('C34', 'Points along a geodesic are accurate',
     "The point reached from a point by going a given distance (zero included, up to half way round the Earth) in a given azimuth, and the azimuth back from it, agree with the geodesic on that ellipsoid to within a millimetre; the intermediate points of a great circle are lists of as many points as asked for, from the first end to the last, equally spaced along the geodesic between them to within a millimetre per point, on the ellipsoid and on the sphere.",
     ['inputs'], 'all starts, azimuths, distances and pairs of points that are neither nearly antipodal nor closer than 10 cm',
     'No test covers it; it is a numerical-accuracy statement about an iterative formula.',
     ['utilities/vincenty.py'], [('vinc_pt', 'utilities/vincenty.py'), ('GreatCircle.points', 'utilities/vincenty.py')], ['vinc_pt', 'GreatCircle(...).points(n)'])

prop('C35', 'A run after killed or earlier runs leaves what a fresh run leaves',
     "Whatever went before into the same output folder or file names (runs that were complete or killed at any moment, serial or by several processes, of the same or of other inputs; for the multipliers program also folders removed and files added since), a run that is not killed ends without an error and leaves exactly the files, with the same contents, that the same run leaves where nothing was before: the multipliers program, the conversion, the pre-processing and the rasterisation.",
     ['inputs', 'crash_points', 'histories'], 'all histories of runs with sets of inputs, and all points at which a run may be killed',
     'No test runs a program twice or ends it early; stale or partial files appear only after particular kills and changes of inputs.',
     ['all_multipliers.py', 'utilities/convert.py', 'utilities/shapefiles.py', 'pre_process.py'], [('do_output_directory_creation', 'all_multipliers.py'), ('Converter.run', 'utilities/convert.py'), ('shp_file.save', 'utilities/shapefiles.py')], ['python all_multipliers.py -c FILE', 'python pre_process.py -c FILE', 'python utilities/mpi_runner.py -p DIR'])

prop('C36', 'Programs change only their own outputs',
     "A run of a program (multipliers serial or in parallel, conversion, pre-processing, rasterisation) leaves its inputs (rasters, layers, tables, configuration, results to convert) byte for byte as they were and adds nothing beside them, needs no more than to read them, and writes nothing but its output files, its temporary files in the output folder (gone afterwards), and its log.",
     ['inputs', 'schedules'], 'all inputs and numbers of processes; inputs that may only be read',
     'The tests look at results only, never at what else was written or whether inputs changed.',
     ['all_multipliers.py', 'utilities/convert.py', 'utilities/mpi_runner.py', 'pre_process.py'], [('Multipliers', 'all_multipliers.py'), ('rasterize', 'pre_process.py'), ('Converter', 'utilities/convert.py')], ['python all_multipliers.py -c FILE', 'python pre_process.py -c FILE', 'python utilities/mpi_runner.py -p DIR'])

prop('C37', 'Each process logs its messages to a log of its own',
     "Every process of a multipliers run writes exactly the messages it gives at the configured level or above, in their order and each with its time, to a log file of its own: the configured file (with _1, _2, ... appended for the processes after the first), begun anew, its folder made if it is missing (also when several processes make it at once), or multipliers.log in the working directory if that folder cannot be made; with verbose output (option -v or configured) the first process, and no other, also shows them on a terminal at standard output. The log function by itself does the same, and continues an existing file when asked for no new log.",
     ['inputs', 'schedules', 'configurations'], 'all configurations, states of the log folder, numbers of processes and their interleavings',
     'No test runs several processes, makes the log folder fail, or looks into a log.',
     ['all_multipliers.py', 'utilities/files.py'], [('run', 'all_multipliers.py'), ('fl_start_log', 'utilities/files.py')], ['python all_multipliers.py -c FILE -v', 'fl_start_log(log_file, log_level, verbose, newlog=...)'])

prop('C38', 'A run that cannot do its work fails, in all processes',
     "If something in a run fails (a function, a library or GDAL raises an error; an input or the named configuration file is missing or cannot be read; the output folder cannot be made; the disk is full or a file cannot be written to its end), then either the results are nevertheless complete and the same as without it, or the program ends with an error: an exception leaves the program, and no process of a parallel run goes on, waits for ever, or ends as if the run had succeeded; the others are ended too. "
     "So a program that ends without an error has left all its results, as complete as a run in which nothing failed: the multipliers program, the conversion, the pre-processing and the rasterisation. A run in which nothing fails ends without an error, and one that fails changes no file that is not its own.",
     ['inputs', 'fault_sequences', 'schedules'], 'all inputs, places and times at which something fails, numbers of processes and their interleavings',
     'No test makes anything fail; an error that is caught, ignored, or that ends one process of several only shows with a fault at a particular place.',
     ['all_multipliers.py', 'utilities/parallel.py', 'utilities/convert.py', 'utilities/config.py', 'pre_process.py', 'rasterize.py', 'utilities/nctools.py'],
     [('Multipliers', 'all_multipliers.py'), ('attempt_parallel, abort_all', 'utilities/parallel.py'), ('Converter.run', 'utilities/convert.py'), ('rasterize', 'pre_process.py')],
     ['python all_multipliers.py -c FILE', 'mpirun -n N python all_multipliers.py -c FILE', 'python pre_process.py -c FILE', 'python rasterize.py', 'python utilities/mpi_runner.py -p DIR'])

prop('C39', 'A gridded file holds all it is given, or is refused',
     "Saving a grid writes a file with every dimension (name, size, coordinates), every variable (with its dimensions, type and values; all missing if it has none or data are not to be written), and every attribute, title and global attribute it was given, exactly, or rounded within half a unit of the last significant digit asked for; a file that was there is replaced. The caller gets the open file if it asks for it, with all variables to write to, and otherwise the file is complete and closed. "
     "A description that lacks a part, or a variable whose values have not as many dimensions as it, is refused with an error (KeyError, ValueError), as is a file that cannot be made, and no file stays open. Creating a single dimension or variable writes its data and attributes. The arguments stay as they were. A multiplier file also names its coordinate reference (ellipsoid of latitude and longitude).",
     ['inputs'], 'all sets of dimensions and variables, data types, values, attributes and options',
     'The tests do not write or read back a grid file; the multiplier files are never looked into, so that a part of them that is not written goes unnoticed.',
     ['utilities/nctools.py'], [('nc_save_grid', 'utilities/nctools.py'), ('nc_create_dim, nc_create_var', 'utilities/nctools.py')],
     ['nc_save_grid(filename, dimensions, variables, ...)', 'NetCDF files read back'])

prop('C40', 'Results depend on the ground, not on its orientation, labels or storage',
     "Mirroring elevation and land cover east-west, or on a grid centred on the equator north-south, or both, mirrors every terrain, shielding, topographic, combined and maximum multiplier and exchanges the directions accordingly. Raising all elevations by the same number of whole metres (outside the Tasmanian region), renumbering the land-cover classes in the raster and the table alike and reordering the table, or storing the rasters as other number types that hold their values or in another format, changes nothing; "
     "moving the ground by whole degrees of longitude does not change terrain and shielding. This holds for the multipliers and the converted rasters of whole runs.",
     ['inputs', 'configurations'], 'all elevation and land-cover rasters, cell sizes and positions, class tables, data types and formats; cells without elevation or of unknown class included',
     'No test runs the program twice and relates the results; a direction that is treated otherwise, a class number or a data type that matters shows only so.',
     [AM, SH, TO, 'terrain/terrain_mult.py', 'utilities/convert.py'],
     [('reproject_dataset, clip_dataset', AM), ('terrain', 'terrain/terrain_mult.py'), ('shield', SH), ('topomult', TO), ('Converter', 'utilities/convert.py')],
     ['python all_multipliers.py -c FILE', 'python utilities/mpi_runner.py -p DIR'])

prop('C41', 'What is told of a file is what the file is',
     "The helpers for files tell the truth about a file as it is at that time, and change nothing else: its folder and name as given, its MD5 digest (two digests are equal exactly if the contents are, whatever the size of the pieces in which the file is read, its name, or what was told before), its size in bytes and its local time of modification, in the form asked for; of a file that is not there they raise an OSError. "
     "A saved table replaces what was in the file, in a folder that is made if it is missing (a name without a folder is one in the current folder), and is loaded again with the same numbers, row by row, after the lines to be skipped. A module that asks is told its own folder, name and extension, or those of the caller so many levels above; the name of a configuration file is derived from the program that runs, and so is the version.",
     ['inputs', 'histories'], 'all histories of writing, appending, copying, replacing and removing files, all contents, names, tables, formats, delimiters, piece sizes and time zones',
     'No test calls these helpers; a digest that leaves out a piece, or answers that are remembered, only show for particular sizes and histories.',
     ['utilities/files.py'], [('fl_get_stat, fl_size, fl_mod_date', 'utilities/files.py'), ('fl_save_file, fl_load_file', 'utilities/files.py'), ('fl_module_path, fl_config_file, fl_program_version', 'utilities/files.py')],
     ['fl_get_stat(filename)', 'fl_save_file(filename, data), fl_load_file(filename)'])

ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
