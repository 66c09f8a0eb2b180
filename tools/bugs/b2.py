bug('B04', 'C01', [('all_multipliers.py', 'self.x_step = int(np.ceil(1.0 / float(self.pixelwidth)))',
                    'self.x_step = int(np.around(1.0 / float(self.pixelwidth)))')], '''
import all_multipliers as am
raster('d.tif', np.ones((8, 11), 'f4'), dx=0.3)
tg = am.TileGrid(0.0, 'd.tif')
got = sorted({tg.get_gridlimit(k)[:2] for k in range(tg.num_tiles)})
if got != [(0, 4), (4, 8), (8, 11)]:
    fail('columns of the tiles: %s' % got)
''', 'a cell size of which one degree is not a whole number, with a fraction below a half', 'tiles are narrower than a degree')

bug('B05', 'C03', [('all_multipliers.py', '        limits = self.get_gridlimit_buffer(k)\n        tile_x_start = self.x_left + limits[0] * self.pixelwidth\n        tile_y_start = -(self.y_upper + limits[2] * self.pixelheight)',
                    '        limits = self.get_gridlimit_buffer(k)\n        tile_x_start = self.x_left + limits[0] * self.pixelwidth\n        tile_y_start = -(self.get_startcord(k)[1] - self.y_buffer *\n                         self.pixelheight)')], '''
import all_multipliers as am
raster('d.tif', np.ones((10, 4), 'f4'), x0=143., y0=-20., dx=0.25)
tg = am.TileGrid(0.5, 'd.tif')
for k in range(tg.num_tiles):
    x1, x2, y1, y2 = tg.get_gridlimit_buffer(k)
    want = (143 + .25 * x1, -20 - .25 * y1, 143 + .25 * x2, -20 - .25 * y2)
    if not np.allclose(tg.get_tile_extent_buffer(k), want):
        fail('tile %d: %s, cells say %s' % (k, tg.get_tile_extent_buffer(k), want))
''', 'tiles at the northern edge of the raster', 'their buffered extent begins north of the raster')

bug('B06', 'C04', [('all_multipliers.py', 'wide = int(np.around((extent[2] - extent[0])/self.pixelwidth))',
                    'wide = int((extent[2] - extent[0])/self.pixelwidth)')], '''
import all_multipliers as am
data = np.arange(1, 12 * 45 + 1, dtype='f4').reshape(12, 45)
raster('d.tif', data, x0=143.1, y0=-20., dx=0.1)
am.output_folder = TMP
m = am.Multipliers('d.tif', 'd.tif')
m.open_dem()
tg = am.TileGrid(0.3, 'd.tif')
for t, k in zip(am.get_tiles(tg), range(99)):
    a = read(m.cut_dem(t))
    x1, x2, y1, y2 = tg.get_gridlimit_buffer(k)
    if a.shape != (y2 - y1, x2 - x1) or not np.array_equal(a, data[y1:y2, x1:x2]):
        fail('tile %s has shape %s' % (t[0], a.shape))
''', 'extents whose width over the cell size is just under a whole number', 'the eastern column of the elevation tile is missing')

bug('B07', 'C05', [('all_multipliers.py', "    if src_type == 'int32':\n        dst_type = GDT_Int32\n    else:\n        dst_type = GDT_Float32\n\n    src_proj",
                    "    if src_type == 'int32':\n        dst_type = GDT_Int32\n    elif np.issubdtype(src_type, np.integer):\n        dst_type = gdal.GDT_Byte\n    else:\n        dst_type = GDT_Float32\n\n    src_proj")], '''
import all_multipliers as am
lc = np.array([[12, 255], [256, 1011]], 'u2')
raster('l.tif', lc, gtype=gdal.GDT_UInt16)
raster('d.tif', np.ones((2, 2), 'f4'))
am.reproject_dataset('l.tif', 'd.tif', 'o.img')
if not np.array_equal(read('o.img'), lc):
    fail('classes %s' % read('o.img').tolist())
''', '16-bit land cover with class codes over 255', 'the classes become 255')

bug('B08', 'C06', [('topographic/topo_mult.py', '    pixelheight = -geotransform[5]\n', '    pixelheight = pixelwidth\n')], '''
import topographic.topo_mult as tm
configuration()
os.makedirs('topographic')
raster('e149.0000s35.0000_dem.img', np.zeros((6, 8), 'f4'), x0=149., y0=-35., dx=.25, dy=.5, fmt='HFA')
tm.topomult(os.path.join(TMP, 'e149.0000s35.0000_dem.img'), (149.25, -35.5, 150.75, -37.5))
import netCDF4
d = netCDF4.Dataset('topographic/e149.0000s35.0000_mt_n.nc')
if not np.allclose(d.variables['lat'][:], [-35.75, -36.25, -36.75, -37.25]):
    fail('rows at %s' % list(d.variables['lat'][:]))
''', 'an elevation raster whose cells are not square', 'the topographic multiplier is stored at the wrong latitudes')

MPIFAKE = '''
import multiprocessing as mp, queue, time
class Status:
    source = 0
class Comm:
    def __init__(self, rank, size, q):
        self.rank, self.size, self.q = rank, size, q
    def send(self, x, dest, tag=0):
        self.q[dest].put((self.rank, tag, x))
    def recv(self, source=-1, tag=-1, status=None):
        src, t, x = self.q[self.rank].get(timeout=20)
        if status is not None:
            status.source = src
        return x
class MPI:
    ANY_SOURCE = -1
    Status = Status
def world(n, main):
    q = [mp.Queue() for _ in range(n)]
    ps = [mp.Process(target=main, args=(Comm(r, n, q),)) for r in range(n)]
    for p in ps:
        p.start()
    for p in ps:
        p.join(40)
    ended = [p.exitcode == 0 for p in ps]
    for p in ps:
        if p.is_alive():
            p.kill()
    return ended
'''
bug('B09', 'C07', [('all_multipliers.py', '            for d in range(1, comm.size):\n', '            for d in range(1, min(comm.size, len(tiles) + 1)):\n')],
    MPIFAKE + '''
import all_multipliers as am
done = mp.Queue()
def main(comm):
    am.comm, am.MPI = comm, MPI
    m = am.Multipliers('x', 'x')
    m.dem_ds = 1
    m.cut_dem = lambda t: 'd'
    m.multipliers_calculate = lambda d, t: done.put(t)
    m.parallelise_on_tiles(['a', 'b'])
for n in (2, 3, 5):
    e = world(n, main)
    got = sorted(done.get(timeout=5) for _ in range(2))
    if not all(e) or got != ['a', 'b']:
        fail('%d processes, 2 tiles: ended %s, tiles %s' % (n, e, got))
''', 'more workers than tiles', 'the workers without a tile wait for ever')

bug('B10', 'C08', [('utilities/get_pixel_size_grid.py', '''    x_size_grid = np.zeros((dataset.RasterYSize,
                            dataset.RasterXSize)).astype(np.float32)
''', '''    key = (dataset.RasterYSize, dataset.RasterXSize,
           dataset.GetGeoTransform()[1])
    if key in _GRIDS:
        return _GRIDS[key]
    x_size_grid = np.zeros((dataset.RasterYSize,
                            dataset.RasterXSize)).astype(np.float32)
'''), ('utilities/get_pixel_size_grid.py', '    return (x_size_grid, y_size_grid)\n', '    _GRIDS[key] = (x_size_grid, y_size_grid)\n    return (x_size_grid, y_size_grid)\n'),
     ('utilities/get_pixel_size_grid.py', 'RADIANS_PER_DEGREE = 0.01745329251994329576923690768489\n', 'RADIANS_PER_DEGREE = 0.01745329251994329576923690768489\n# grids of the shapes seen\n_GRIDS = {}\n')], '''
from utilities.get_pixel_size_grid import get_pixel_size_grids
raster('a.tif', np.ones((5, 5), 'f4'), y0=-12., dx=.01)
raster('b.tif', np.ones((5, 5), 'f4'), y0=-42., dx=.01)
pid = os.fork()
if pid == 0:      # a process that has only seen b
    np.save('alone.npy', get_pixel_size_grids(gdal.Open('b.tif'))[0])
    os._exit(0)
os.waitpid(pid, 0)
get_pixel_size_grids(gdal.Open('a.tif'))
after = get_pixel_size_grids(gdal.Open('b.tif'))[0]
if not np.array_equal(after, np.load('alone.npy')):
    fail('cell widths of a tile after another one: %s, alone: %s' % (after[0, 0], np.load('alone.npy')[0, 0]))
''', 'a process that computes two tiles of the same shape at different latitudes', 'the second gets the cell sizes of the first, so results depend on which process computes which tiles')

bug('B11', 'C09', [('utilities/parallel.py', 'if MPI.COMM_WORLD.size > 1 and MPI.COMM_WORLD.rank > 0:', 'if MPI.COMM_WORLD.size > 2 and MPI.COMM_WORLD.rank > 0:')], '''
import all_multipliers as am
from utilities import parallel
class W:
    size, rank = 2, 1
class M:
    COMM_WORLD = W
parallel.MPI = M
os.makedirs('out/terrain')
open('out/terrain/result.nc', 'w').write('x')
am.do_output_directory_creation(os.path.join(TMP, 'out'))
if not os.path.exists('out/terrain/result.nc'):
    fail('the second process emptied the output folder')
''', 'a run with exactly two processes', 'the worker empties the output folder too')

bug('B12', 'C10', [('utilities/mpi_runner.py', '        tiles = [tiles[i::comm.size] for i in range(comm.size)]\n', '        share = max(1, round(len(tiles) / comm.size))\n        tiles = [tiles[i * share:(i + 1) * share] for i in range(comm.size)]\n')], '''
import utilities.mpi_runner as r
class C:
    rank = 0
    def __init__(self, size):
        self.size = size
    def scatter(self, x, root=0):
        self.x = x
        raise StopIteration
os.makedirs('shielding')
for k in range(7):
    for d in ('n', 'e'):
        open('shielding/e%ds20_ms_%s.nc' % (k, d), 'w')
for n in (1, 2, 3, 4, 5, 7, 9):
    c = C(n)
    try:
        r.parallelise_convert_on_tiles(TMP, c)
    except StopIteration:
        pass
    flat = sorted(t for s in c.x for t in s)
    if flat != ['e%ds20' % k for k in range(7)] or len(c.x) != n:
        fail('%d processes convert %s' % (n, c.x))
''', 'numbers of tiles and processes where the rounded share is too small (7 tiles, 3 processes)', 'the last tiles are never converted')

bug('B13', 'C11', [('utilities/convert.py', 'band.WriteArray(np.ones((ny, nx)))', 'band.WriteArray(np.full((ny, nx), np.e))'
                    .replace('np.full((ny, nx), np.e)', 'np.ones((min(nx, ny),) * 2)'))], '''
from utilities.nctools import save_multiplier
from utilities.convert import Converter
configuration()
for s in ('terrain', 'shielding', 'topographic', 'M3', 'M3_max'):
    os.makedirs(s)
lat, lon = [-20.5, -21.5], [143.5, 144.5, 145.5]
a = np.full((2, 3), .8, 'f4')
for d in 'e n ne nw s se sw w'.split():
    save_multiplier('Ms', a, lat, lon, TMP + '/shielding/t_ms_%s.nc' % d)
    save_multiplier('Mt', a, lat, lon, TMP + '/topographic/t_mt_%s.nc' % d)
Converter(['t'], TMP).run()
m = read('M3/t.tif')
if not np.allclose(m, .64):
    fail('without terrain files the product is %s' % m.tolist())
''', 'a tile that is not square and lacks the files of a multiplier', 'cells beyond the square get 0')

bug('B14', 'C12', [('utilities/convert.py', 'maxima = np.max(np.dstack(bands), axis=2)', 'maxima = ma.max(ma.dstack(bands), axis=2)')], '''
from utilities.convert import Converter
os.makedirs('M3')
os.makedirs('M3_max')
ds = gdal.GetDriverByName('GTiff').Create('M3/t.tif', 3, 2, 8, gdal.GDT_Float32)
ds.SetGeoTransform((143, 1, 0, -20, 0, -1))
v = np.full((8, 2, 3), -9999, 'f4')
v[:, 0, :] = .5
v[3, 0, 1] = .75
for b in range(8):
    ds.GetRasterBand(b + 1).WriteArray(v[b])
    ds.GetRasterBand(b + 1).SetNoDataValue(-9999)
ds = None
Converter(['t'], TMP).process_max_tile('t')
m = read('M3_max/t.tif')
if not np.allclose(m, [[.5, .75, .5], [-9999] * 3]):
    fail('maximum %s' % m.tolist())
''', 'cells that are missing in all directions', 'their maximum is the fill value of the masked array, not the missing value')

bug('B15', 'C13', [('terrain/terrain_mult.py', '        outdata[mask] = np.nan\n', '        outdata[mask & (outdata == 1.0)] = np.nan\n')], '''
import terrain.terrain_mult as tm
configuration()
os.makedirs('terrain')
lc = np.full((6, 40), 1, 'i4')
lc[2, 30] = 99
raster('e149.0000s35.0000.img', lc, x0=149., dx=.001, fmt='HFA')
tm.terrain(os.path.join(TMP, 'e149.0000s35.0000.img'), (149., -35., 149.04, -35.006))
w = read('terrain/e149.0000s35.0000_mz_w.nc')
if w[2, 30] != -9999 and not np.isnan(w[2, 30]):
    fail('terrain multiplier %s of a cell of unknown class' % w[2, 30])
''', 'a cell of unknown class with cells of known classes upwind of it', 'it gets the average of these instead of being missing')

bug('B16', 'C14', [('utilities/value_lookup.py', 'min(rows-i-1, jj)-lag_width),', 'min(rows-i-1, jj, cols-lag_width)-lag_width),')], '''
import terrain.terrain_mult as tm
a = np.random.RandomState(1).rand(12, 9).astype('f4')
lag, avg = 3, 4
o = tm.convo('sw', a, avg, lag)
for i in range(12):
    for j in range(9):
        v = [a[i + k, j - k] for k in range(lag + 1, lag + avg + 1) if i + k < 12 and j - k >= 0]
        if abs(o[i, j] - (np.mean(v) if v else a[i, j])) > 1e-5:
            fail('cell %d, %d: %s' % (i, j, o[i, j]))
''', 'south-westerly wind, cells near the eastern edge of a tile that is narrow compared with the lag', 'the furthest upwind cells are left out')

bug('B17', 'C15', [('terrain/terrain_mult.py', 'avg_width = int(avg_dist / (gridwidth * 1.414))', 'avg_width = int(np.around(avg_dist / (gridwidth * 1.414)))')], '''
import terrain.terrain_mult as tm
configuration()
os.makedirs('terrain')
lc = np.full((20, 20), 1, 'i4')
lc[4:9, 4:9] = 3
raster('e149.0000s35.0000.img', lc, x0=149., dx=.0009, fmt='HFA')     # cells of 91 m: 3.9 diagonally
tm.terrain(os.path.join(TMP, 'e149.0000s35.0000.img'), (149., -35., 149.018, -35.018))
v = read('terrain/e149.0000s35.0000_mz_nw.nc')
b, a = v[0, 0], v[10, 10]
# three diagonal cells beyond one: 10, 9 and 8 for 12
if a == b or abs(v[12, 12] - (a + 2 * b) / 3) > 1e-4:
    fail('average %s, expected %s' % (v[12, 12], (a + 2 * b) / 3))
''', 'cell sizes for which rounding and truncation of the diagonal distance differ', 'a diagonal average extends one cell too far')

bug('B18', 'C16', [('shielding/shield_mult.py', '    outdata[mask] = np.nan\n', '    outdata[mask] = 1.0\n')], '''
import shielding.shield_mult as sm
configuration()
os.makedirs('shielding')
lc = np.array([[1, 2], [-1, 3]], 'i4')
raster('t.img', lc, fmt='HFA')
ds = gdal.Open('t.img', gdal.GA_Update)
ds.GetRasterBand(1).SetNoDataValue(-1)
ds = None
m = read(sm.terrain_class2ms_orig(os.path.join(TMP, 't.img')))
if not (np.isnan(m[1, 0]) or m[1, 0] == -99) or abs(m[0, 0] - .7) > 1e-6:
    fail('initial factors %s' % m.tolist())
''', 'land cover with a nodata value', 'cells without data count as unshielded instead of missing')

bug('B19', 'C17', [('shielding/shield_mult.py', '    for i in range(2, size + 1):\n        kernel[size + i:, size - 1:size + 2] = 1.0',
                    '    for i in range(2, min(size, 4) + 1):\n        kernel[size + i:2 * min(size, 4) + 1, size - 1:size + 2] = 1.0')], '''
import shielding.shield_mult as sm
for n in range(1, 8):
    k = np.zeros((2 * n + 1, 2 * n + 1))
    k[n + 1:, n] = 1
    k[n + 2:, n - 1:n + 2] = 1
    if not np.allclose(sm.init_kern(n), k / k.sum()):
        fail('kernel of %d cells' % n)
''', 'cells under 25 m, for which the sector is more than four cells long', 'the cells beside the line of the wind are left out in the far part of the sector')

bug('B20', 'C19', [('shielding/shield_mult.py', '    del x_m_array\n\n    dzdy_array', '\n    dzdy_array'),
                   ('shielding/shield_mult.py', '"dzdy_array * pixel_y_size / y_m_array"', '"dzdy_array * pixel_y_size / x_m_array"')], '''
import shielding.shield_mult as sm
z = np.outer(np.arange(7) * 5., np.ones(7)).astype('f4')
raster('d.img', z, y0=-43., dx=.001, fmt='HFA')
s = sm.get_slope_aspect(os.path.join(TMP, 'd.img'))[0]
want = np.degrees(np.arctan(5 / 111.08))
if abs(s[3, 3] - want) > .02:
    fail('slope %s instead of %s degrees' % (s[3, 3], want))
''', 'slopes towards north or south away from the equator', 'they are computed with the width of the cells instead of their height')

bug('B21', 'C20', [('shielding/shield_mult.py', 'kernel_size = int(100.0 / gridwidth)', 'kernel_size = int(np.around(100.0 / gridwidth))')], '''
import shielding.shield_mult as sm
configuration(table=((1, 2.0, 70), (2, .2, 100)))
os.makedirs('shielding')
lc = np.full((9, 9), 2, 'i4')
lc[4, 4] = 1
raster('e149.0000s35.0000.img', lc, x0=149., dx=.0015, fmt='HFA')    # cells of 151 m
raster('e149.0000s35.0000_dem.img', np.full((9, 9), 7, 'f4'), x0=149., dx=.0015, fmt='HFA')
sm.shield(os.path.join(TMP, 'e149.0000s35.0000.img'), os.path.join(TMP, 'e149.0000s35.0000_dem.img'), (149., -35., 149.0135, -35.0135))
m = read('shielding/e149.0000s35.0000_ms_n.nc')
if abs(m[4, 4] - .63) > 1e-4 or abs(m[5, 4] - 1) > 1e-4:
    fail('shielding %s' % m[3:7, 4].tolist())
''', 'cells of between 100 and 200 m', 'shielding is averaged although the cells are over 100 m')

bug('B22', 'C22', [('topographic/findpeaks.py', 'dy_a1 = np.append(dy, [0])', 'dy_a1 = np.append(dy, dy[-1:])')], '''
from topographic.findpeaks import findpeaks
for y, want in (([0, 10, 40, 30, 12, 50], [2, 5]), ([9, 9, 12, 3, 3], [2]), ([0, 5, 9], [2]), ([9, 5, 7, 7], [0, 2])):
    p = list(np.atleast_1d(findpeaks(np.array(y))))
    if p != want:
        fail('ridges %s of %s, expected %s' % (p, y, want))
''', 'lines that still climb at their end', 'the last ridge is not found')

bug('B23', 'C23', [('topographic/mh.py', "elif ((slope > 0.45) and (x < 0) and (x > -h / 4) and", "elif ((slope > 0.45) and (x < 0) and (x > -l2_capital / 4) and")], '''
from topographic.mh import mh_calc
d = 10.
p = np.concatenate([np.zeros(5), np.arange(0, 101, 10), np.arange(90, -1, -10), np.zeros(30)])
r, v = 15, 5
m = mh_calc(p, r, v, d)[:, 0]
h, lu = 100., 50.
l1 = max(.36 * lu, .4 * h)
l2 = 4 * l1
for k in range(r + 1, 30):
    x = (k - r) * d
    lee = x < l2
    steep = x < h / 4
    want = 1 + (.71 if steep else h / (3.5 * (10 + l1))) * (1 - x / l2) if lee else 1
    if abs(m[k] - min(want, 1.71)) > 1e-6:
        fail('multiplier %s at %s m downwind of the crest, expected %s' % (m[k], x, want))
''', 'a steep and nearly symmetric hill, cells between H/4 and L2/4 downwind of the crest', 'the rule for separated flow is applied too far')

bug('B24', 'C24', [('topographic/topo_mult.py', 'if x_left > 143.0 and y_upper > 40.0:', 'if x_left > 143.0 and y_upper >= 40.0:')], '''
import topographic.topo_mult as tm
configuration()
os.makedirs('topographic')
raster('e146.0000s40.0000_dem.img', np.full((5, 5), 900, 'f4'), x0=146., y0=-40., dx=.001, fmt='HFA')
tm.topomult(os.path.join(TMP, 'e146.0000s40.0000_dem.img'), (146., -40., 146.005, -40.005))
m = read('topographic/e146.0000s40.0000_mt_n.nc')
if abs(m - 1).max() > 1e-6:
    fail('level ground has %s' % m[2, 2])
''', 'a tile whose buffered corner is exactly at 40 S', 'it is treated as part of the Tasmanian region')

bug('B25', 'C25', [('all_multipliers.py', '            if os.path.exists(temp_tile_dem):\n                os.remove(temp_tile_dem)', '            if os.path.exists(tile_name + \'_dem.img\'):\n                os.remove(temp_tile_dem)')], '''
import all_multipliers as am
raster('dem.tif', np.zeros((4, 4), 'f4'), x0=149., dx=.25)
raster('lcv.tif', np.ones((4, 4), 'i4'), x0=149., dx=.25)
configuration(upwind=0.0)
whole_run()
left = [f for f in os.listdir('out') if f.endswith('.img')]
if left:
    fail('left over: %s' % left)
''', 'a tile without elevation', 'its temporary elevation tile stays in the output folder')

bug('B26', 'C26', [('utilities/config.py', "        self.config_file = config_file\n        self.readonce = False\n", "        self.readonce = config_file == self.config_file\n        self.config_file = config_file\n")], '''
from utilities.config import configparser as c
open('a.cfg', 'w').write('[inputValues]\\nroot = one\\n')
c.set_config_file(os.path.join(TMP, 'a.cfg'))
assert c.get('inputValues', 'root') == 'one'
open('a.cfg', 'w').write('[inputValues]\\nroot = two\\n')
c.set_config_file(os.path.join(TMP, 'a.cfg'))
if c.get('inputValues', 'root') != 'two':
    fail('the setting is still %s' % c.get('inputValues', 'root'))
''', 'naming the file that is in use again after it changed', 'it is not read again')

bug('B27', 'C27', [('utilities/nctools.py', '            value = config.get(section, option)\n            global_atts[key] = value\n\n    # Add', '            value = config.get(section, option)\n            if value:\n                global_atts[key] = value\n\n    # Add')], '''
from netCDF4 import Dataset
from utilities.nctools import save_multiplier
configuration()
from utilities.config import configparser as c
open('b.cfg', 'w').write('[Extra]\\nnote =\\nname = x\\n')
c.set_config_file(os.path.join(TMP, 'b.cfg'))
save_multiplier('Mz', np.ones((2, 2), 'f4'), [1., 0.], [5., 6.], TMP + '/t_mz_n.nc')
with Dataset('t_mz_n.nc') as ds:
    a = ds.ncattrs()
if 'Extra_note' not in a or 'Extra_name' not in a:
    fail('attributes: %s' % a)
''', 'a setting whose value is empty', 'it is not recorded in the files')

PP = '''
import fiona
from fiona.crs import CRS
from shapely.geometry import box, mapping
def shp(fn, fields, rows):
    with fiona.open(fn, 'w', driver='ESRI Shapefile', crs=CRS.from_epsg(4326), schema=dict(geometry='Polygon', properties=fields)) as o:
        for g, p in rows:
            o.write(dict(geometry=mapping(g), properties=p))
'''
bug('B28', 'C28', [('utilities/shapefiles.py', '        e = sorted(list_z, key=lambda k: k[0][attribute_name] or "None")', '        e = list(list_z)')], PP + '''
shp('s.shp', {'SET': 'str:50'}, [(box(0, 0, 1, 4), {'SET': 'City'}), (box(1, 0, 3, 4), {'SET': 'Urban'}), (box(3, 0, 4.5, 4), {'SET': 'City'})])
shp('l.shp', {'LU': 'str:50'}, [(box(0, 1, 4.5, 2), {'LU': 'Water'})])
from pre_process import pre_process
pre_process('s.shp', 'SET', 'l.shp', 'LU', 'None', 'o.shp')
r = [dict(f['properties']) for f in fiona.open('o.shp')]
if [x['SET'] for x in r] != ['City']:
    fail('%s' % r)
''', 'settlement areas of one type that do not follow each other in the file, both meeting a parcel', 'their shares of the parcel are not added, so another type wins')

bug('B29', 'C29', [('pre_process.py', '    geotransform_output = geoTransform\n', '    geotransform_output = [round(v, 6) for v in geoTransform]\n')], PP + '''
from shapely.geometry import box
q = 1 / 3600.
shp('l.shp', {'CAT': 'int'}, [(box(143, -20 - 40 * q, 143 + 90 * q, -20), {'CAT': 101})])
raster('t.tif', np.ones((60, 100), 'f4'), x0=143., y0=-20., dx=q)
from pre_process import rasterize
rasterize('l.shp', 'o.tif', 't.tif', None)
from osgeo import gdal
a, b = (gdal.Open(f).GetGeoTransform() for f in ('o.tif', 't.tif'))
if max(abs(x - y) for x, y in zip(a, b)) > 1e-9:
    fail('georeference %s is not that of the elevation %s' % (a, b))
''', 'cells whose size has more than six decimals', 'the georeference is that of other cells')

bug('B30', 'C30', [('utilities/meta.py', "            with cls._lock_for_singleton_ssfusousoifusos:\n", "            with threading.Lock():\n")], '''
import threading, time
from utilities.meta import Singleton
class S(metaclass=Singleton):
    made = 0
    def __init__(self):
        S.made += 1
        time.sleep(.2)
got = []
ts = [threading.Thread(target=lambda: got.append(S())) for _ in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
if S.made != 1 or len({id(x) for x in got}) != 1:
    fail('made %d times' % S.made)
''', 'threads that construct a singleton at the same time', 'each makes its own instance')

bug('B31', 'C31', [('utilities/get_pixel_size_grid.py', '    yc = geotransform[3] + (y + 0.5) * geotransform[5]\n', '    yc = geotransform[3] + y * geotransform[5]\n')], '''
from utilities.get_pixel_size_grid import get_pixel_size
raster('d.tif', np.ones((3, 3), 'f4'), x0=140., y0=-40., dx=1.)
ds = gdal.Open('d.tif')
w = get_pixel_size(ds, (0, 0))[0]
import math
p = math.radians(-40.5)
e2 = 1 - (6356752.3142 / 6378137.) ** 2
want = 6378137. / math.sqrt(1 - e2 * math.sin(p) ** 2) * math.cos(p) * math.radians(1)
if abs(w - want) > 2:
    fail('width %s of a cell, expected %s' % (w, want))
''', 'cells large enough for the latitude of their centre to matter', 'the width of a cell is that of its northern edge')

bug('B32', 'C32', [('shielding/shield_mult.py', 'improc = ndimage.convolve(im, kernel, mode=mode, cval=1.0)', 'improc = ndimage.convolve(im, kernel, mode=mode,\n                              cval=float(np.nanmax(im)))')], '''
import shielding.shield_mult as sm
a = np.full((20, 20), .7, 'f4')
a[15, 15] = 1.0
whole = sm.blur_image(a, sm.kern_n(3))
part = sm.blur_image(a[:12, :12], sm.kern_n(3))
if not np.allclose(whole[:8, :8], part[:8, :8], atol=1e-5):
    fail('cells far from the seam differ: %s, %s' % (whole[0, 3], part[0, 3]))
''', 'cells at the edge of the raster, in a tile without any unshielded cell', 'their shielding depends on what else is in the tile')

bug('B33', 'C33', [('utilities/vincenty.py', '    if (abs(phi2 - phi1) < 1e-8) and (abs(lembda2 - lembda1) < 1e-8):', '    if (abs(phi2 - phi1) < 1e-7) and (abs(lembda2 - lembda1) < 1e-7):')], '''
from utilities.vincenty import vinc_dist
s = vinc_dist(1 / 298.257222101, 6378137., -.6, 2.5, -.6 + 9e-8, 2.5)[0]
if abs(s - 9e-8 * 6.36e6) > .01:
    fail('distance %s of points half a metre apart' % s)
''', 'points less than a metre apart', 'their distance is 0')

bug('B34', 'C34', [('utilities/vincenty.py', '''         (math.cos(two_sigma_m) +
          C * math.cos(sigma) *
          (-1 + 2 * math.pow(math.cos(two_sigma_m), 2))))
''', '''         math.cos(two_sigma_m))
''')], '''
from utilities.vincenty import vinc_pt, vinc_dist
f, a = 1 / 298.257222101, 6378137.
worst = 0
for az in (.3, .8, 1.2, 2., 2.6, 4.):
    for s in (1e6, 4e6, 9e6, 14e6):
        for p in (-.6, 0.1, .9):
            q, l, _ = vinc_pt(f, a, p, 1., az, s)
            worst = max(worst, abs(vinc_dist(f, a, p, 1., q, l)[0] - s), vinc_dist(f, a, *direct(p, az, s), q, l)[0] if 0 else 0)
# the longitude from the azimuth equation, integrated
def direct(phi, az, s, n=4000):
    e2 = f * (2 - f)
    def d(y):
        p, l, z = y
        w = 1 - e2 * np.sin(p) ** 2
        N, M = a / np.sqrt(w), a * (1 - e2) / w ** 1.5
        return np.array([np.cos(z) / M, np.sin(z) / (N * np.cos(p)), np.tan(p) * np.sin(z) / N])
    y, h = np.array([phi, 1., az]), s / n
    for _ in range(n):
        k1 = d(y); k2 = d(y + h / 2 * k1); k3 = d(y + h / 2 * k2); k4 = d(y + h * k3)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return y[0], y[1]
for az, s in ((.8, 4e6), (.5, 6e6), (1.0, 8e6)):
    q, l, _ = vinc_pt(f, a, -.6, 1., az, s)
    p2, l2 = direct(-.6, az, s)
    d = a * np.hypot(q - p2, (l - l2) * np.cos(q))
    if d > .001:
        fail('%g m off after %g m' % (d, s))
''', 'lines of thousands of kilometres', 'the longitude reached is off by millimetres to centimetres')
