bug('B01', 'C02', [('all_multipliers.py', 'self.y_buffer = int(upwind_length / self.pixelheight)',
                    'self.y_buffer = int(upwind_length / self.pixelwidth)')], '''
import all_multipliers as am
raster('d.tif', np.ones((6, 12), 'f4'), dx=0.25, dy=0.5)
tg = am.TileGrid(1.0, 'd.tif')
for k in range(tg.num_tiles):
    x1, x2, y1, y2 = tg.get_gridlimit(k)
    b = tg.get_gridlimit_buffer(k)
    want = (max(0, x1 - 4), min(12, x2 + 4), max(0, y1 - 2), min(6, y2 + 2))
    if tuple(b) != want:
        fail('tile %d: buffered limits %s, expected %s' % (k, b, want))
''', 'an elevation raster whose cells are not square', 'the buffer north and south of a tile has the wrong number of cells')

bug('B02', 'C21', [('topographic/topo_mult.py', '            strt_idx = np.append(strt_idx, list(range((nc - 1) * nr, nr * nc)))',
                    '            last = nr * nc - 1\n            strt_idx = np.append(strt_idx, list(range((nc - 1) * nr, last)))')], '''
import topographic.topo_mult as tm
# a west-rising slope in the last row only; wind from the east
dem = np.zeros((4, 40), 'f4')
dem[3] = np.maximum(0, 60 - 20 * np.abs(np.arange(40) - 20))
raster('e149.0000s35.0000_dem.img', dem, x0=149.0, dx=0.001, fmt='HFA')
configuration()
os.makedirs('topographic')
tm.topomult(os.path.join(TMP, 'e149.0000s35.0000_dem.img'), (149.0, -35.0, 149.04, -35.004))
e = read('topographic/e149.0000s35.0000_mt_e.nc')
w = read('topographic/e149.0000s35.0000_mt_w.nc')
if not e[3].max() > 1.01:
    fail('no hill seen by easterly wind in the southern row: %s' % e[3].max())
''', 'a hill crossed by the line that starts in the last cell of the eastern edge (the south-east corner), wind from the east',
'the southernmost line of the tile is never swept in easterly wind, so its multiplier stays 1')

bug('B03', 'C18', [('shielding/shield_mult.py', '(slope_array >= 12.30) & (', '(slope_array > 12.30) & (')], '''
import shielding.shield_mult as sm
from utilities.value_lookup import DIRE_ASPECT
ms = np.array([[0.7]], 'f4')
r = sm.combine(ms.copy(), np.array([[12.30]]), np.array([[DIRE_ASPECT['n']]]), 'n')
v = 1.0
if abs(r[0, 0] - v * v) > 1e-4:
    fail('%s, expected %s' % (r[0, 0], v * v))
''', 'a slope of exactly 12.30 degrees facing the wind', 'shielding is not reduced on these slopes')
