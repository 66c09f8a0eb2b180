# notes per property, read by mkmanifest.py
C['C04'] = ('Grids', REC % 'GridsTrace', 'exhaustive small grids; the code is judged on generated DEM/landcover pairs with distinct cell values so that a cell tells where it came from')
C['C05'] = ('Grids', REC % 'GridsTrace', 'as C04, land cover reprojected and aligned to the DEM grid, including a source in UTM')
RUN = 'TLC model checking of spec/Run.tla (protocol) and conformance: the real program runs under a controlled MPI stand-in, its event history is judged by spec/RunTrace.tla'
C['C07'] = ('Run', RUN, 'N processes x T tiles exhaustive (also the refinement of Pool and termination); random, priority and TLC-generated orders of completion on the code, eager and synchronous sends, with and without mpi4py')
C['C09'] = ('Run', RUN, 'as C07, with leftovers of earlier runs in the output folder')
C['C10'] = ('Run', RUN, 'as C07, plus the conversion alone; tiles of one row or column are a known finding')
C['C11'] = ('Convert', REC % 'ConvertTrace', 'factors in 1/32 so that products are exact; generated tiles with missing cells and missing files')
C['C12'] = ('Convert', REC % 'ConvertTrace', 'as C11')
C['C13'] = ('Terrain', REC % 'TerrainTrace', 'log law evaluated in TLA+ in fixed point (10^-6, tolerance 8e-6); generated tables, arrays and tiles')
C['C14'] = ('Terrain', REC % 'TerrainTrace', 'exhaustive small shapes and widths in the model; all direction/shape/width combinations on the code')
C['C15'] = ('Terrain', REC % 'TerrainTrace', 'generated landcover tiles read back from the NetCDF files; cell size in m known to 1/2000, any width it admits is accepted')
C['C16'] = ('Shield', REC % 'ShieldTrace', 'generated tables and class rasters, float and byte, with and without nodata value and classes outside the table')
C['C17'] = ('Shield', REC % 'ShieldTrace', 'all eight kernels for sizes 1 to 8 (14) compared cell by cell with the sector of the specification; blur_image on generated rasters, smaller than the kernel too')
C['C18'] = ('Shield', REC % 'ShieldTrace', 'fixed point 10^-5; generated values, slopes at and around the thresholds, aspects, missing cells')
C['C19'] = ('Shield', REC % 'ShieldTrace', 'gradient compared in integers; sectors on their borders are left open; generated rasters, shifted copies')
C['C20'] = ('Shield', REC % 'ShieldTrace', 'whole tiles through shield(), all eight directions, cell sizes around 100 m, two tiles in a row')
C['C21'] = ('TopoSweep', REC % 'TopoTrace', 'exhaustive on grids up to 4x4 in the model; all shapes up to 7x7 (larger in thorough), all directions, on make_path; tiles through topomult with the lines recorded')
C['C22'] = ('TopoLine', REC % 'TopoTrace', 'all lines of small length and height in the model and on the code; generated long lines')
C['C23'] = ('TopoLineM', REC % 'TopoTrace', 'fixed point 10^-6; generated compound lines, spacings and end hills; cells so near a threshold that rounding decides are left open')
C['C24'] = ('TopoSweep', REC % 'TopoTrace', 'fixed point 10^-5; arrays and whole tiles, inside and outside the Tasmanian region, integer and float elevation')
C['C06'] = ('Register', REC % 'RegisterTrace', 'whole runs of the program on rasters of a few tiles whose land cover and hills identify each cell; tiles of one row or column are a known finding')
C['C08'] = ('Results', 'TLC model checking of spec/Results.tla and conformance: the same input run serially and under controlled schedules of 1 to 6 processes (preempted at calls of the code), contents of all files compared by spec/ResultsTrace.tla', 'random and priority schedules, eager and synchronous sends')
C['C25'] = ('Tidy', 'TLC model checking of spec/Tidy.tla and conformance: the output folder of real runs is recorded after each tile, alone and under controlled schedules, and judged by spec/TidyTrace.tla', 'ranks are held where they have just made or removed a file; tiles that are level but for one cell of various values; some tiles computed again alone')
C['C26'] = ('Config', 'TLC generates histories of files written, named and read (spec/Config.tla, also model checked); replayed in fresh processes and judged by spec/ConfigTrace.tla', 'read through every module, the tables and the attributes of a saved file')
C['C27'] = ('NcFile', REC % 'NcFileTrace', 'bits of values and coordinates compared as integers; overwritten files, arrays of any memory layout, odd settings, git absent, failing, silent or not executable, accounts without a name, time zones')
C['C33'] = ('Geodesic', REC % 'GeodesicTrace', 'numbers of 20 decimals in TLA+ (spec/Big.tla), geodesics from their differential equations, not from the formulas of the code; generated pairs of points of eleven kinds')
C['C34'] = ('Geodesic', REC % 'GeodesicTrace', 'as C33, on generated starts, azimuths and distances and great circles of 2 to 7 points')
C['C30'] = ('Singleton', 'TLC model checking of spec/Singleton.tla (also that all threads get an answer) and conformance: real threads under a scheduler that switches at every line or opcode of the code, after plans generated by TLC, judged by spec/SingletonTrace.tla', 'all plans of 2 turns of up to 9 (16) steps of 2 threads, of 3 turns of 3 threads, and random ones; constructors that fail, nest, wait for another class, objects that count as false or equal to anything')
C['C31'] = ('Cells', REC % 'CellsTrace', 'all shapes up to 6x6 (7x7), depths 0 to 3, of integer functions; cell sizes of generated rasters up to 13x13 against formulas of the ellipsoid in numbers of 20 decimals, geographic and transverse Mercator')
C['C32'] = ('Seams', REC % 'SeamsTrace', 'rasters of cells of 30 to 170 m in generated tiles, and over real seams of tiles of a degree; every cell whose tile reaches as far as it looks, all directions')
C['C28'] = ('Preproc', REC % 'PreprocTrace', 'generated polygons of triangles of a grid, through the function and the command with its configuration file; parcels a settlement only touches, and ties, are left open')
C['C29'] = ('Rasterize', REC % 'RasterizeTrace', 'generated polygons with vertices on eighths of a cell (holes, parts, overlaps), through the function and the command; centres on an outline are left open; crop masks whose box follows the cells')
C['C35'] = ('Restart', 'TLC model checking of spec/Restart.tla and conformance: the programs run again and again into one folder, killed with SIGKILL after a number of calls, after a time, or (all processes of a parallel run) after a number of scheduled steps; every run that was not killed is judged by spec/RestartTrace.tla against fresh runs', 'generated histories of 6 to 12 runs of two sets of inputs; the machine itself (the file system) does not crash')
C['C36'] = ('Files', REC % 'FilesTrace', 'generated inputs, half of the runs by an unprivileged user to whom the inputs are read-only; all files of the scratch folder and of the working directory are compared before and after')
C['C37'] = ('Log', 'TLC model checking of spec/Log.tla (folder there, missing, impossible; several processes) and conformance: whole programs with controlled interleavings (also between looking for a folder and making it), every message noted where it is given, logs and terminals judged by spec/LogTrace.tla', 'generated configurations of 0 to 4 processes and direct calls; messages of other libraries are left out')
C['C38'] = ('Fail', 'TLC model checking of spec/Fail.tla (a failure at any step of any of N processes, at once or at closing; safety and that all processes end) and conformance: whole programs with faults, judged by spec/FailTrace.tla', 'one fault per run: at generated calls of functions and at all places where files are used or written, disks that are full from a moment on or too small (tmpfs in a user namespace; left out where there are none), inputs missing or damaged; faults inside logging and destructors, which Python does not pass on, are not raised')
C['C39'] = ('GridFile', REC % 'GridFileTrace', 'the writing of a file step by step in the model (first, last, fill, leak refuted; it always ends); generated descriptions of up to 4 dimensions and 5 variables, faulty ones, files that are handed over open, functions for single dimensions and variables, multiplier files')
C['C40'] = ('Mirror', 'TLC model checking of spec/Mirror.tla (what the specifications of the other parts look at for a cell and direction, in the ground and in the mirrored ground, is the same) and conformance: pairs of whole runs, conversion included, related cell by cell by spec/MirrorTrace.tla', 'generated pairs, mostly of one tile up to 18 x 18 cells; over several tiles, and for ground that is moved, topographic and combined multipliers are not related when it is mirrored or moved (the mean cell size a tile is given differs in its last digits, which decides ties)')
C['C41'] = ('FileId', REC % 'FileIdTrace', 'files written, asked for piece by piece, replaced by tables and removed in the model (first, short, text, cache, append refuted); generated histories of 6 to 14 operations on up to four files of up to 200 kB and tables of up to 28 numbers; that a digest is MD5 is judged for three contents of RFC 1321, otherwise that it tells contents apart')
