_MK = '''
import subprocess
def dem(nx, name='dem.tif'):
    if os.path.exists(name):
        os.remove(name)
    raster(name, (np.arange(12 * nx).reshape(12, nx) % 17 + 1).astype('f4'), dx=.1)
def lcv(name='lcv.tif'):
    raster(name, np.full((40, 60), 2, 'i4'), x0=147.5, y0=-34.5, dx=.1)
'''

bug('B35', 'C35', [('all_multipliers.py', '''    if os.path.exists(output):
        shutil.rmtree(output)
    try:
        os.makedirs(output)
    except OSError:
        raise
''', '''    if os.path.exists(pjoin(output, 'M3', 'wind-multipliers.vrt')):
        shutil.rmtree(output)
    os.makedirs(output, exist_ok=True)
'''), ('all_multipliers.py', '''        if os.path.exists(out_sub1):
            shutil.rmtree(out_sub1)
        try:
            os.makedirs(out_sub1)
        except OSError:
            raise
''', '''        os.makedirs(out_sub1, exist_ok=True)
''')], _MK + '''
dem(20)
lcv()
configuration(upwind=.2)
whole_run()
# killed at the end of its tiles: nothing is converted yet
for sub in ('M3', 'M3_max'):
    for f in os.listdir('out/' + sub):
        os.remove('out/' + sub + '/' + f)
dem(9)
configuration(upwind=.2)
whole_run()
left = sorted(os.listdir('out/terrain'))
shutil.rmtree('out')
whole_run()
if left != sorted(os.listdir('out/terrain')):
    fail('results of another region: %s' % left[:3])
''', 'a run that was killed before it was complete, and a next one for another region', 'results of the killed run stay, are converted and enter the mosaic')

bug('B36', 'C35', [('utilities/convert.py', '''        filename = pjoin(self.path, "M3", f"{tile}.tif")
        log.info(f"Saving data to {filename}")
''', '''        filename = pjoin(self.path, "M3", f"{tile}.tif")
        if os.path.exists(filename) and os.path.getsize(filename) > 100:
            self.tile_files.append(filename)
            return
        log.info(f"Saving data to {filename}")
''')], _MK + '''
dem(9)
lcv()
configuration(upwind=.2)
whole_run()
import glob
from netCDF4 import Dataset
for f in glob.glob('out/terrain/*_mz_e.nc'):
    ds = Dataset(f, 'a')
    v = [x for x in ds.variables.values() if len(x.shape) == 2][0]
    v[:] = v[:] * 2
    ds.close()
a = glob.glob('out/M3/*.tif')[0]
from utilities.convert import Converter
c = Converter([os.path.basename(a)[:-4]], os.path.join(TMP, 'out'))
c.run()
new = read(a)
shutil.rmtree('out/M3')
os.makedirs('out/M3')
c.run()
if not np.array_equal(new, read(a)):
    fail('the conversion of changed results left the old raster')
''', 'a conversion into a folder that was converted before', 'the rasters of earlier results stay')

bug('B37', 'C36', [('all_multipliers.py', '        self.dem_ds = gdal.Open(self.dem, GA_ReadOnly)', '        self.dem_ds = gdal.Open(self.dem, gdal.GA_Update)')], _MK + '''
dem(9)
lcv()
configuration(upwind=.2)
os.mkdir('out')
os.mkdir('log')
for f in ('dem.tif', 'lcv.tif', 'table.csv', 'conf.cfg'):
    os.chmod(f, 0o444)
os.chmod('.', 0o777)
os.chmod('out', 0o777)
os.chmod('log', 0o777)
def nobody():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)
import all_multipliers as am
pid = os.fork()
if not pid:
    try:
        nobody()
        m = am.Multipliers(os.path.join(TMP, 'lcv.tif'), os.path.join(TMP, 'dem.tif'))
        m.open_dem()
        os._exit(0)
    except BaseException as e:
        print(e)
        sys.stdout.flush()
        os._exit(1)
if os.waitpid(pid, 0)[1]:
    fail('an elevation raster that may only be read cannot be used')
''', 'inputs the user may read but not change', 'the run stops although it has no reason to write to them')

bug('B38', 'C36', [('pre_process.py', '    topo_ds = gdal.Open(input_topo)', '    topo_ds = gdal.Open(input_topo, gdal.GA_Update)'),
                   ('pre_process.py', '    target_ds = gdal.GetDriverByName', '''    if topo_ds.GetRasterBand(1).GetNoDataValue() is None:
        topo_ds.GetRasterBand(1).SetNoDataValue(-9999)
    target_ds = gdal.GetDriverByName''')], _MK + '''
import pre_process
from osgeo import ogr
ds = ogr.GetDriverByName('ESRI Shapefile').CreateDataSource('m.shp')
l = ds.CreateLayer('m', None, ogr.wkbPolygon)
l.CreateField(ogr.FieldDefn('CAT', ogr.OFTInteger))
f = ogr.Feature(l.GetLayerDefn())
f.SetField('CAT', 5)
f.SetGeometry(ogr.CreateGeometryFromWkt('POLYGON ((148.2 -35.2, 148.5 -35.2, 148.5 -35.8, 148.2 -35.8, 148.2 -35.2))'))
l.CreateFeature(f)
del f, l, ds
dem(9)
before = open('dem.tif', 'rb').read()
pre_process.rasterize('m.shp', 'cat.tif', 'dem.tif', None)
if open('dem.tif', 'rb').read() != before:
    fail('the elevation raster was changed')

''', 'an elevation raster that has no value for missing data', 'the raster given for its extent is changed')

bug('B39', 'C37', [('all_multipliers.py', "    if comm.size > 1 and comm.rank > 0:\n        logfile += '_' + str(comm.rank)\n", "    if comm.size > 2 and comm.rank > 0:\n        logfile += '_' + str(comm.rank)\n")], _MK + '''
import types
dem(9)
lcv()
configuration(upwind=.2)
logging.disable(logging.NOTSET)
class Comm:
    rank, size = 1, 2
    def barrier(self):
        raise SystemExit(0)
    def __getattr__(self, k):
        raise SystemExit(0)
MPI = types.ModuleType('mpi4py.MPI')
MPI.COMM_WORLD, MPI.Finalize = Comm(), lambda: None
pkg = types.ModuleType('mpi4py')
pkg.MPI = MPI
sys.modules['mpi4py'], sys.modules['mpi4py.MPI'] = pkg, MPI
os.mkdir('log')
open('log/log.txt', 'w').write('what the first process logs')
os.mkdir('out')
sys.argv = ['all_multipliers.py', '-c', os.path.join(TMP, 'conf.cfg')]
import all_multipliers as am
try:
    am.run()
except SystemExit:
    pass
if open('log/log.txt').read() != 'what the first process logs':
    fail('the second of two processes writes the log of the first')
''', 'a run of exactly two processes', 'both write the same log and overwrite each other')

bug('B40', 'C37', [('utilities/files.py', "    logging.basicConfig(level=getattr(logging, log_level),", "    logging.basicConfig(level=min(getattr(logging, log_level),\n                                  logging.WARNING),")], '''
logging.disable(logging.NOTSET)
from utilities.files import fl_start_log
fl_start_log(os.path.join(TMP, 'x.log'), 'ERROR')
logging.getLogger('a').error('serious')
logging.getLogger('a').warning('harmless')
t = open('x.log').read()
if 'serious' not in t or 'harmless' in t:
    fail('level ERROR: ' + t)
''', 'a configured level above WARNING', 'warnings are logged all the same')

bug('B41', 'C38', [('all_multipliers.py', "                status = self.multipliers_calculate(ww[0], ww[1])\n", """                try:
                    status = self.multipliers_calculate(ww[0], ww[1])
                except (OSError, MemoryError):
                    log.exception("Tile %s failed", ww[1][0])
                    status = None
""")], _MK + '''
import types
dem(9)
lcv()
configuration(upwind=.2)
class Comm:
    rank, size, n = 1, 2, 0
    def recv(self, *a, **kw):
        Comm.n += 1
        return [None, ['tile', None, None]] if Comm.n == 1 else None
    def send(self, *a, **kw):
        pass
import all_multipliers as am
am.comm, am.MPI = Comm(), types.SimpleNamespace(Status=object, ANY_SOURCE=-1)
m = am.Multipliers('lcv.tif', 'dem.tif')
def calculate(*a):
    raise OSError('No space left on device')
m.multipliers_calculate = calculate
try:
    m.parallelise_on_tiles([1, 2, 3])
except OSError:
    pass
else:
    fail('a worker goes on after its tile failed')
''', 'an error of a file in a worker of a parallel run, as on a full disk', 'its tile is left out and the run ends as if it had succeeded')

bug('B42', 'C38', [('utilities/nctools.py', """    nc_save_grid(nc_name,
                 dimensions, variables,
                 nodata=-9999,
                 datatitle=multiplier_name + ' multiplier',
                 gatts=global_atts)
""", """    try:
        nc_save_grid(nc_name,
                     dimensions, variables,
                     nodata=-9999,
                     datatitle=multiplier_name + ' multiplier',
                     gatts=global_atts)
    except RuntimeError:
        LOGGER.exception("Cannot close %s", nc_name)
""")], _MK + '''
import resource, signal
from utilities.nctools import save_multiplier
def save(n, fn):
    save_multiplier('Mz', np.ones((n, n), 'f4'), -20 - .1 * np.arange(n), 140 + .1 * np.arange(n), fn)
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
save(20, 'a.nc')
size = os.path.getsize('a.nc')
resource.setrlimit(resource.RLIMIT_FSIZE, (size // 2, resource.RLIM_INFINITY))
try:
    save(20, 'b.nc')
except (OSError, RuntimeError):
    pass
else:
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    fail('%d bytes of %d were written, without an error' % (os.path.getsize('b.nc'), size))
resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
''', 'a disk that gets full as the end of a file is written', 'an incomplete file is taken for a good one')

bug('B43', 'C38', [('utilities/convert.py', "                except RuntimeError:\n", "                except Exception:\n")], _MK + '''
dem(9)
lcv()
configuration(upwind=.2)
whole_run()
from osgeo import gdal
import utilities.convert as cv
orig = gdal.Open
def Open(fn, *a):
    if fn.endswith('_mt_se.nc'):
        raise MemoryError()
    return orig(fn, *a)
cv.gdal.Open = Open
tile = [f for f in os.listdir('out/M3') if f.endswith('.tif')][0][:-4]
try:
    cv.Converter([tile], 'out').run()
except MemoryError:
    pass
else:
    fail('results were made without a multiplier that could not be read for lack of memory')
''', 'an error other than that a file is missing as a multiplier is opened in the conversion', 'the multiplier is taken to be one')

bug('B44', 'C38', [('utilities/shapefiles.py', """                output.write({
                    'geometry': mapping(self.geom[i]),
                    'properties': self.attribute[i]})
""", """                try:
                    output.write({
                        'geometry': mapping(self.geom[i]),
                        'properties': self.attribute[i]})
                except (OSError, RuntimeError) as e:
                    logger.warning("geometry %i not written: %s" % (i, e))
""")], _MK + '''
import contextlib, fiona
from shapely.geometry import box
from utilities.shapefiles import shp_file
s = shp_file()
s.meta = dict(driver='ESRI Shapefile', schema=dict(geometry='Polygon', properties={'A': 'int'}))
s.geom, s.attribute = [box(k, 0, k + 1, 1) for k in range(3)], [{'A': k} for k in range(3)]
orig = fiona.open
class Out:
    n = 0
    def __init__(self, o):
        self.o = o
    def write(self, x):
        Out.n += 1
        if Out.n == 2:
            raise RuntimeError('GDAL Error: write failed')
        self.o.write(x)
@contextlib.contextmanager
def Open(*a, **kw):
    with orig(*a, **kw) as o:
        yield Out(o)
fiona.open = Open
try:
    s.save('o.shp')
except RuntimeError:
    pass
else:
    fail('a shapefile without the parcels that could not be written')
''', 'an error as one of the parcels is written', 'the parcel is left out')

bug('B45', 'C39', [('utilities/nctools.py', """        if 'least_significant_digit' in v:
            varlsd = v['least_significant_digit']
        else:
            varlsd = lsd
""", """        if 'least_significant_digit' in v:
            lsd = v['least_significant_digit']
        varlsd = lsd
""")], '''
from netCDF4 import Dataset
from utilities.nctools import nc_save_grid
v = np.array([1 / 3., 2 / 3.])
nc_save_grid('a.nc', {0: dict(name='x', values=[1., 2.], dtype='d', atts={})},
             {0: dict(name='a', dims=('x',), values=v, dtype='d', atts={}, least_significant_digit=1),
              1: dict(name='b', dims=('x',), values=v, dtype='d', atts={})})
with Dataset('a.nc') as ds:
    if not np.array_equal(ds.variables['b'][:], v):
        fail('values %s instead of %s' % (ds.variables['b'][:], v))
''', 'a variable of few digits, and one after it that is to be exact', 'the variables after a rounded one are rounded, too')

bug('B46', 'C39', [('utilities/nctools.py', "    dimension[:] = np.array(values, dtype=dtype)\n    if atts:\n", "    dimension[:] = np.array(values, dtype=dtype)\n    if atts and np.size(values) > 1:\n")], '''
from netCDF4 import Dataset
from utilities.nctools import nc_save_grid
nc_save_grid('a.nc', {0: dict(name='x', values=[1.], dtype='d', atts=dict(units='degrees_east', actual_range=(1., 1.)))},
             {0: dict(name='a', dims=('x',), values=np.array([2.]), dtype='d', atts={})})
with Dataset('a.nc') as ds:
    if getattr(ds.variables['x'], 'units', '') != 'degrees_east':
        fail('the coordinate has no units')
''', 'a grid of one row or column of cells', 'its coordinates have no units')

bug('B47', 'C37', [('all_multipliers.py', "        logfile += '_' + str(comm.rank)\n", "        logfile += '_' + str(comm.rank % 10)\n")], _MK + '''
import types
dem(9)
lcv()
configuration(upwind=.2)
logging.disable(logging.NOTSET)
class Comm:
    rank, size = 11, 12
    def barrier(self):
        raise SystemExit(0)
    def __getattr__(self, k):
        raise SystemExit(0)
MPI = types.ModuleType('mpi4py.MPI')
MPI.COMM_WORLD, MPI.Finalize = Comm(), lambda: None
pkg = types.ModuleType('mpi4py')
pkg.MPI = MPI
sys.modules['mpi4py'], sys.modules['mpi4py.MPI'] = pkg, MPI
os.mkdir('log')
open('log/log.txt_1', 'w').write('what the second process logs')
os.mkdir('out')
sys.argv = ['all_multipliers.py', '-c', os.path.join(TMP, 'conf.cfg')]
import all_multipliers as am
try:
    am.run()
except SystemExit:
    pass
if open('log/log.txt_1').read() != 'what the second process logs':
    fail('the twelfth process writes the log of the second')
''', 'a run of more than ten processes', 'processes share a log and overwrite each other')

bug('B48', 'C04', [('all_multipliers.py', "        gdal.ReprojectImage(self.dem_ds, dst, self.dem_proj, self.dem_proj)\n", "        gdal.ReprojectImage(self.dem_ds, dst, self.dem_proj, self.dem_proj,\n                            gdal.GRA_Bilinear)\n")], _MK + '''
from osgeo import gdal, osr
rng = np.random.RandomState(1)
import all_multipliers as am
s = osr.SpatialReference()
s.ImportFromEPSG(4326)
for k in range(40):
    pw, x0, y0 = rng.choice([1 / 3600., .01, .1 / 3]), rng.uniform(110, 150), -rng.uniform(10, 40)
    z = rng.uniform(0, 500, (30, 40)).astype('f4')
    z[rng.rand(30, 40) < .1] = np.nan
    d = gdal.GetDriverByName('GTiff').Create('d.tif', 40, 30, 1, gdal.GDT_Float32)
    d.SetGeoTransform((x0, pw, 0, y0, 0, -pw))
    d.SetProjection(s.ExportToWkt())
    d.GetRasterBand(1).WriteArray(z)
    del d
    m = am.Multipliers('x.tif', 'd.tif')
    m.open_dem()
    m.clip_dataset((x0 + 7 * pw, y0 - 5 * pw, x0 + 31 * pw, y0 - 22 * pw), 'o.img')
    m.dem_ds = None
    o = gdal.Open('o.img').ReadAsArray()
    if not np.allclose(o, z[5:22, 7:31], equal_nan=True, atol=1e-3, rtol=0):
        fail('cells beside a cell without elevation are not those of the raster')
''', 'an elevation raster with cells that are not a number', 'the cells around them lose their elevation')

bug('B49', 'C40', [('all_multipliers.py', """    if src_type == 'int32':
        dst_type = GDT_Int32
    else:
        dst_type = GDT_Float32

    src_proj""", """    if src_type == 'int32':
        dst_type = GDT_Int32
    elif src_type in ('uint8', 'int16'):
        dst_type = gdal.GDT_Byte
    else:
        dst_type = GDT_Float32

    src_proj""")], _MK + '''
from netCDF4 import Dataset
import glob
res = []
for gtype in (gdal.GDT_Int32, gdal.GDT_Int16):
    dem(9)
    raster('lcv.tif', np.full((40, 60), 302, 'i4'), x0=147.5, y0=-34.5, dx=.1, gtype=gtype)
    configuration(table=((2, .2, 85), (302, .02, 100)), upwind=.2)
    whole_run()
    f = glob.glob('out/terrain/*_mz_e.nc')
    res.append(np.ma.filled(Dataset(f[0]).variables['Mz'][:], np.nan) if f else None)
if res[1] is None or not np.array_equal(res[0], res[1], equal_nan=True):
    fail('the same land cover stored in 16 bits gives other results')
''', 'land cover stored in 16 bits with class numbers above 255', 'classes are taken for others or for none')

bug('B50', 'C40', [('topographic/multiplier_calc.py', "    fwd_line = np.floor(line)\n", "    fwd_line = np.floor(line.astype(np.float16)).astype(float)\n")], '''
from multiplier_calc import multiplier_calc
y = np.array([1., 3, 9, 30, 61, 77, 52, 31, 12, 4, 2, 1])
for up in (500., 1500., 2500.):
    if not np.allclose(multiplier_calc(y, 100.), multiplier_calc(y + up, 100.)):
        fail('the same hill on a plain %d m higher has another multiplier' % up)
''', 'ground higher than 2048 m', 'heights are rounded and the multiplier of hills changes')

bug('B51', 'C24', [('topographic/topo_mult.py', "            line[np.isnan(line)] = 0.\n", "            path = np.array(path, int)[~np.isnan(line)]\n            line = line[~np.isnan(line)]\n            if line.size < 2:\n                continue\n")], _MK + '''
from netCDF4 import Dataset
import glob
import topographic.topo_mult as tm
configuration()
for s in ('topographic',):
    os.makedirs('out/' + s)
z = np.full((5, 9), 200, 'f4')
z[:, 4] = -9999
res = []
for name, v in (('e1s1_dem.img', -9999), ('e2s2_dem.img', 0)):
    y = np.where(z == -9999, v, z)
    ds = gdal.GetDriverByName('HFA').Create(name, 9, 5, 1, gdal.GDT_Float32)
    ds.SetGeoTransform((148., .002, 0, -35., 0, -.002))
    s = osr.SpatialReference()
    s.ImportFromEPSG(4326)
    ds.SetProjection(s.ExportToWkt())
    ds.GetRasterBand(1).WriteArray(y)
    ds.GetRasterBand(1).SetNoDataValue(-9999)
    del ds
    shutil.move(name, 'out/' + name)
    tm.topomult(os.path.join(TMP, 'out', name), (148., -35., 148. + 9 * .002, -35. - 5 * .002))
    f = glob.glob('out/topographic/' + name[:4] + '_mt_e.nc')
    res.append(np.ma.filled(Dataset(f[0]).variables['Mt'][:], np.nan))
ok = z != -9999
if not np.allclose(res[0][ok], res[1][ok], atol=1e-5):
    fail('ground beside a cell without elevation is not that beside the sea')
''', 'elevation with cells that are missing', 'hills at the shore of such cells are not found')

bug('B52', 'C28', [('utilities/shapefiles.py', """                results = np.zeros(len(fids))
                for ii, id_ in enumerate(fids):
                    result = poly.intersection(other.geom[id_])
                    results[ii] = result.area / poly.area
                argmax = np.argmax(results)
                return fids[argmax]
""", """                self.shares = []
                for id_ in fids:
                    result = poly.intersection(other.geom[id_])
                    self.shares.append(result.area / poly.area)
                return fids[int(np.argmax(self.shares)) % len(fids)]
""")], '''
import threading
from shapely.geometry import box
import shapely.geometry.base as base
from utilities.shapefiles import shp_file
sys.setswitchinterval(1e-6)
os.cpu_count = lambda: 8
for attempt in range(60):
    land, town = shp_file(), shp_file()
    land.geom = [box(10 * i, 0, 10 * i + 10, 10) for i in range(60)]
    land.attribute = [dict(id=i) for i in range(60)]
    town.geom, town.attribute, want = [], [], []
    for i in range(60):
        w = 2 + i % 7
        town.geom += [box(10 * i, 0, 10 * i + w, 10), box(10 * i + w, 0, 10 * i + 10, 10)]
        town.attribute += [dict(T='%da' % i), dict(T='%db' % i)]
    land.spatial_join(town, 'T')
    for i in range(60):
        w = 2 + i % 7
        if w != 5 and land.attribute[i]['T'] != '%d%s' % (i, 'a' if w > 5 else 'b'):
            fail('parcel %d gets %s' % (i, land.attribute[i]['T']))
''', 'parcels joined at the same time in several threads', 'a parcel gets a settlement by the shares of another parcel')

bug('B53', 'C02', [('all_multipliers.py', """                    ((j + 1) * self.y_step + self.y_buffer),
""", """                    ((j + 1) * self.y_step +
                     self.y_buffer * int(j < 9 or k % 10 > 0)),
""")], """
from all_multipliers import TileGrid
raster('dem.tif', np.ones((48, 4), 'f4'), dx=.25)
tg = TileGrid(.5, 'dem.tif')
for k in range(tg.num_tiles):
    x0, x1, y0, y1 = tg.get_gridlimit(k)
    if list(tg.get_gridlimit_buffer(k)) != [max(0, x0 - 2), min(4, x1 + 2), max(0, y0 - 2), min(48, y1 + 2)]:
        fail('buffer of tile %d: %s' % (k, tg.get_gridlimit_buffer(k)))
""", 'a raster of more than ten rows of tiles', 'the eleventh tile has no buffer to the south')

bug('B54', 'C05', [('all_multipliers.py', """    wide = match_ds.RasterXSize
    high = match_ds.RasterYSize
""", """    wide = match_ds.RasterXSize
    high = match_ds.RasterYSize
    if (src.RasterXSize, src.RasterYSize) == (wide, high) and \\
            src_proj == match_proj:
        # the same grid
        match_geotrans = src.GetGeoTransform()
""")], """
from all_multipliers import reproject_dataset
raster('lcv.tif', np.arange(1, 26).reshape(5, 5), x0=148.0, dx=.01)
raster('dem.tif', np.ones((5, 5), 'f4'), x0=148.02, dx=.01)
reproject_dataset('lcv.tif', 'dem.tif', 'out.tif')
want = np.zeros((5, 5), int)
want[:, :3] = np.arange(1, 26).reshape(5, 5)[:, 2:]
if not np.array_equal(read('out.tif'), want):
    fail('land cover:\\n%s' % read('out.tif'))
""", 'land cover of as many rows and columns as the tile, elsewhere', 'the land cover is taken as if it were on the grid of the tile')

bug('B55', 'C36', [('shielding/shield_mult.py', """glob.glob(pjoin(glob.escape(ms_folder), '*.xml'))""",
                    """glob.glob(pjoin(ms_folder, '*.xml'))""")], _MK + """
dem(3)
lcv()
mine = os.path.join(TMP, 'run1', 'shielding')
os.makedirs(mine)
open(os.path.join(mine, 'notes.xml'), 'w').write('mine')
configuration(upwind=.2, out=os.path.join(TMP, 'run[12]'))
whole_run()
if not os.path.exists(os.path.join(mine, 'notes.xml')):
    fail('a file of another folder was removed')
""", 'an output folder with a bracket or an asterisk in its name', 'files of other folders are removed')

bug('B56', 'C17', [('shielding/shield_mult.py', """        kernel[i - 1:size, size + i] = 1.0
""", """        kernel[max(i - 1, size - 12):size, size + i] = 1.0
""")], """
from shielding.shield_mult import kern_ne, blur_image, kern_nw
n = 16
for name, kern, sx in (('ne', kern_ne, 1), ('nw', kern_nw, -1)):
    v = np.ones((40, 40), 'f4')
    k = np.zeros((40, 40), int)
    for a in range(1, n + 1):
        for b in range(1, n + 2 - a):
            k[20 - a, 20 + sx * b] = 1
    total = k.sum()
    for a, b in ((20 - n, 20 + sx), (19, 20 + sx * n), (10, 20 + sx * 3), (19, 20 + sx)):
        v = np.ones((40, 40), 'f4')
        v[a, b] = 0
        out = blur_image(v, kern(n))
        if abs(out[20, 20] - (1 - k[a, b] / total)) > 1e-4:
            fail('%s: %s' % (name, (a - 20, b - 20)))
""", 'cells of less than 8 m (a sector of more than 12 cells)', 'cells of the upwind sector are left out')

bug('B57', 'C27', [('utilities/nctools.py', """time.strftime(ISO_FORMAT, time.localtime())""",
                    """time.strftime(ISO_FORMAT, time.gmtime())""")], """
import time
from netCDF4 import Dataset
os.environ['TZ'] = 'AEST-10'
time.tzset()
from utilities.nctools import save_multiplier
configuration()
save_multiplier('Mz', np.ones((2, 3), 'f4'), [-20.1, -20.2], [143.1, 143.2, 143.3], 'e143s20_mz_n.nc')
with Dataset('e143s20_mz_n.nc') as ds:
    t = time.mktime(time.strptime(ds.Created_on, '%Y-%m-%d %H:%M:%S'))
if abs(t - time.time()) > 60:
    fail('created %d seconds from now' % (t - time.time()))
""", 'a time zone other than UTC', 'the time recorded is not the local time')

bug('B58', 'C21', [('topographic/topo_mult.py', """        strt_idx = np.unique(strt_idx)
""", """        strt_idx = np.unique(strt_idx.astype(np.uint16))
""")], _MK + """
from netCDF4 import Dataset
import glob
import topographic.topo_mult as tm
configuration()
os.makedirs('out/topographic')
NR, NC = 262, 257
z = np.ones((NR, NC), 'f4')
z[:, 200:212] = [1., 3, 9, 30, 61, 77, 52, 31, 12, 4, 2, 1]
ds = gdal.GetDriverByName('HFA').Create('out/e1s1_dem.img', NC, NR, 1, gdal.GDT_Float32)
ds.SetGeoTransform((148., .001, 0, -35., 0, -.001))
s = osr.SpatialReference()
s.ImportFromEPSG(4326)
ds.SetProjection(s.ExportToWkt())
ds.GetRasterBand(1).WriteArray(z)
ds.GetRasterBand(1).SetNoDataValue(-9999)
del ds
tm.topomult(os.path.join(TMP, 'out', 'e1s1_dem.img'), (148., -35., 148. + NC * .001, -35. - NR * .001))
f = glob.glob('out/topographic/e1s1_mt_w.nc') + glob.glob('out/topographic/e1s1_mt_e.nc')
m = Dataset([n for n in f if n.endswith('_e.nc')][0]).variables['Mt'][:]
if m[:, 205].min() < 1.05:
    fail('the multiplier on a ridge: %s' % m[:, 205])
""", 'a tile of more than 65536 cells', 'runs of cells start in the wrong place and cells are left out')

bug('B59', 'C14', [('terrain/terrain_mult.py', """    for i in range(rows):
        for jj in range(cols):

            neighbour_sum = 0
""", """    for i, jj in np.ndindex(rows, cols):
        if True:
            i, jj = int(np.uint8(i % 256)), int(np.uint8(jj % 256))

            neighbour_sum = 0
""")], """
from terrain.terrain_mult import convo
v = np.arange(4 * 300, dtype='f4').reshape(4, 300)
out = convo('w', v, 2, 0)
want = v.copy()
for j in range(1, 300):
    want[:, j] = v[:, j - 1:j] [:, 0] if j < 2 else (v[:, j - 1] + v[:, j - 2]) / 2
if not np.allclose(out[:, 299], out[:, 298] + 1) or not np.allclose(np.diff(out[:, 10:290]), 1):
    fail('columns beyond the 256th: %s' % out[:, 250:300])
""", 'a tile of more than 256 columns or rows', 'cells beyond the 256th are not averaged')

bug('B60', 'C31', [('utilities/get_pixel_size_grid.py', """    interpolate_grid(depth=1, shape=y_size_grid.shape,
                     eval_func=get_pixel_y_size, grid=y_size_grid)
""", """    interpolate_grid(depth=1, shape=y_size_grid.shape,
                     eval_func=get_pixel_y_size, grid=y_size_grid)
    y_size_grid[256:] = y_size_grid[:-256]
""")], """
from utilities.get_pixel_size_grid import get_pixel_size_grids, get_pixel_size
raster('dem.tif', np.zeros((300, 5), 'f4'), x0=148.0, y0=0.0, dx=.2)
ds = gdal.Open('dem.tif')
x, y = get_pixel_size_grids(ds)
if abs(y[299, 2] - get_pixel_size(ds, (2, 299))[1]) > 30:
    fail('height of a cell in the south: %s m, not %s m' % (y[299, 2], get_pixel_size(ds, (2, 299))[1]))
""", 'a tile of more than 256 rows', 'cells of far rows get the size of others')

bug('B61', 'C41', [('utilities/files.py', """    while True:
        chunk = f.read(chunk_whole)
        if not chunk:
            break
        m.update(chunk)
""", """    for chunk in iter(lambda: f.read(chunk_whole), b''):
        if len(chunk) == chunk_whole or f.tell() < chunk_whole:
            m.update(chunk)
""")], """
from utilities.files import fl_get_stat
one, two = b'a' * 65536 + b'tail', b'a' * 65536 + b'Tail'
res = []
for name, c in (('one', one), ('two', two)):
    open(name, 'wb').write(c)
    res.append(fl_get_stat(name)[2])
if res[0] == res[1]:
    fail('two files that differ have the same digest')
""", 'a file longer than a piece, whose length is not a multiple of it', 'the end of a file does not count in its digest')

bug('B62', 'C41', [('utilities/files.py', """    moddate = localtime(si.st_mtime)
""", """    moddate = localtime(max(si.st_mtime, si.st_atime))
""")], """
from utilities.files import fl_mod_date
open('a', 'w').write('x')
os.utime('a', (1600000000, 1500000000))
import time
if fl_mod_date('a') != time.strftime('%Y-%m-%d %H:%M:%S', time.localtime(1500000000)):
    fail('modified %s' % fl_mod_date('a'))
""", 'a file that was read after it was modified', 'the time of modification is that of the last use')
