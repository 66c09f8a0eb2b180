"""Whole runs with the real computations (C06, C08, C25)."""
import hashlib
import os
import random
import re
import shutil
import sys
import traceback

import numpy as np

import conf
import fakempi
import rasters
import run_h
import vlib
from rasters import gdal

DIRS = ['n', 's', 'e', 'w', 'ne', 'nw', 'se', 'sw']
UNIT = dict(terrain='mz', shielding='ms', topographic='mt')
VAR = dict(terrain='Mz', shielding='Ms', topographic='Mt')
CLASSES = [(11, 2.0, 100), (12, 1.0, 91), (13, .4, 95), (14, .1, 88), (15, .03, 80), (16, .006, 70)]
NA = -2000000000


def limits(n, step, buf):
    """Own and buffered limits of the tiles along an axis."""
    return [((i, min(i + step, n)), (max(0, i - buf), min(i + step + buf, n))) for i in range(0, n, step)]


class Case:
    """A raster of a few tiles of coarse cells, level but for hills of a cell."""

    def __init__(self, rng, single=False, empties=True, big=False):
        self.pw = rng.choice([0.25, 0.15, 0.2, 0.3, 0.12])
        self.ph = self.pw if rng.random() < .5 else rng.choice([0.25, 0.15, 0.2, 0.12])
        self.sx, self.sy = int(np.ceil(1 / self.pw)), int(np.ceil(1 / self.ph))

        def dim(step, one):
            most = 3 * step if big else 2 * step + 1
            while True:
                n = rng.randint(2, most)
                if (n % step == 1) == one:
                    return n
        ax = rng.choice('xy')
        self.W = dim(self.sx, single and ax == 'x')
        self.H = dim(self.sy, single and ax == 'y')
        self.x0 = rng.choice([143.0, 115.125, 150.4])
        self.y0 = rng.choice([-12.0, -20.5, -33.25, -16.7])
        self.up = rng.choice([0.0, 0.13, 0.26, 0.31, 0.6])
        self.bx, self.by = int(self.up / self.pw), int(self.up / self.ph)
        self.tiles = [(xo + yo, xb + yb) for xo, xb in limits(self.W, self.sx, self.bx)
                      for yo, yb in limits(self.H, self.sy, self.by)]
        D = conf.mean_cell(self.y0, self.ph, self.H, self.pw)
        z = np.full((self.H, self.W), 5.0)
        self.empty = []
        if empties and len(self.tiles) > 1 and rng.random() < .4:
            k = rng.randrange(len(self.tiles))
            b = self.tiles[k][1]
            if (b[1] - b[0]) * (b[3] - b[2]) < self.W * self.H / 2:
                z[b[2]:b[3], b[0]:b[1]] = 0
            self.empty = [i for i, t in enumerate(self.tiles)
                          if not z[t[1][2]:t[1][3], t[1][0]:t[1][1]].any()]
        self.spikes = []
        for _ in range(rng.randint(8, 20)):
            i, j = rng.randint(2, max(2, self.H - 3)), rng.randint(2, max(2, self.W - 3))
            if self.fits(i, j) and all(max(abs(a - i), abs(c - j)) > 4 for a, c in self.spikes) and \
                    z[max(0, i - 4):i + 5, max(0, j - 4):j + 5].all():
                self.spikes.append((i, j))
                z[i - 1:i + 2, j - 1:j + 2] += round(.15 * D)
                z[i, j] += round(.15 * D)
        self.z = z
        self.cls = np.array([[rng.choice(CLASSES)[0] for _ in range(self.W)] for _ in range(self.H)])
        self.fine = rng.choice([1, 3])
        self.rng = rng
        self.dtype = rng.choice(['f4', 'i4'])

    def fits(self, i, j):
        """A hill there (a crest and a ring) is whole in a tile or not in it."""
        if i + 2 >= self.H or j + 2 >= self.W:
            return False
        for _, b in self.tiles:
            whole = b[0] <= j - 2 and j + 2 < b[1] and b[2] <= i - 2 and i + 2 < b[3]
            out = j + 1 < b[0] or b[1] <= j - 1 or i + 1 < b[2] or b[3] <= i - 1
            if not whole and not out:
                return False
        return True

    def give_tiles(self):
        pass

    def describe(self):
        return dict(W=self.W, H=self.H, pw=self.pw, ph=self.ph, x0=self.x0, y0=self.y0, up=self.up,
                    empty=self.empty, spikes=self.spikes, dtype=self.dtype)

    def write(self, d):
        os.makedirs(d, exist_ok=True)
        self.d = d
        self.out = os.path.join(d, 'out')
        self.dem = rasters.make(os.path.join(d, 'dem.tif'), self.W, self.H, self.pw, self.ph, self.x0, self.y0,
                                self.z, self.dtype)
        lc = self.cls
        if self.fine > 1:
            lc = np.array([[self.rng.choice(CLASSES)[0] for _ in range(self.W * 3)] for _ in range(self.H * 3)])
            lc[1::3, 1::3] = self.cls
        self.lc = rasters.make(os.path.join(d, 'lc.tif'), self.W * self.fine, self.H * self.fine,
                               self.pw / self.fine, self.ph / self.fine, self.x0, self.y0, lc, 'i4')
        tab = conf.write_table(os.path.join(d, 't.csv'), CLASSES)
        self.cfg = conf.write_cfg(os.path.join(d, 'c.cfg'), self.out, self.dem, self.lc, tab, upwind=self.up,
                                  log=os.path.join(d, 'log', 'l.txt'))
        return self


def forked(f, *a):
    """Run f in a process of its own; None or what it raised."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        msg = b''
        try:
            os.close(r)
            with vlib.quiet():
                f(*a)
        except SystemExit as e:
            msg = b'' if e.code in (None, 0) else ('SystemExit(%s)' % e.code).encode()
        except BaseException as e:
            msg = ('%s: %s | %s' % (type(e).__name__, str(e)[:200], traceback.format_exc()[-300:])).encode()
        try:
            os.write(w, msg[:4000])
        finally:
            os._exit(0)
    os.close(w)
    msg = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        msg += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if st:
        return 'process ended with status %d' % st
    return msg.decode() or None


def apart(f, *a):
    """('ok', what f returns) or ('exc', text), in a process of its own."""
    import pickle
    import tempfile
    fd, fn = tempfile.mkstemp()
    os.close(fd)

    def g():
        with open(fn, 'wb') as o:
            pickle.dump(f(*a), o)
    err = forked(g)
    try:
        if err:
            return 'exc', err
        with open(fn, 'rb') as o:
            return 'ok', pickle.load(o)
    finally:
        os.remove(fn)


def serial(case):
    """The program, without MPI."""
    import all_multipliers as am
    fakempi.forbid()
    case.give_tiles()
    os.chdir(case.d)
    sys.argv = ['all_multipliers.py', '-c', case.cfg]
    am.run()


# ----------------------------------------------------------------------- C06
def u(p):
    return int(max(-2e9, min(2e9, round(1000 * p))))


def positions(case, lon, lat):
    return ([u((x - case.x0) / case.pw) for x in lon], [u((case.y0 - y) / case.ph) for y in lat])


def matrix(a):
    return [[NA if v == -9999 else vlib.scaled(v, 10 ** 5) for v in row] for row in np.asarray(a, float)]


def nc_layer(case, fn, var):
    from netCDF4 import Dataset
    with Dataset(fn) as ds:
        lon, lat = positions(case, np.array(ds.variables['lon'][:]), np.array(ds.variables['lat'][:]))
        v = ds.variables[var]
        a = np.ma.filled(v[:], np.nan)
        if v.dimensions != ('lat', 'lon'):
            a = a[:0]
    return dict(lon=lon, lat=lat, v=matrix(a))


def tif_layers(case, fn):
    ds = gdal.Open(fn)
    gt = ds.GetGeoTransform()
    lon = [gt[0] + (j + .5) * gt[1] for j in range(ds.RasterXSize)]
    lat = [gt[3] + (i + .5) * gt[5] for i in range(ds.RasterYSize)]
    lon, lat = positions(case, lon, lat)
    return {ds.GetRasterBand(b).GetDescription() or str(b):
            dict(lon=lon, lat=lat, v=matrix(ds.GetRasterBand(b).ReadAsArray())) for b in range(1, ds.RasterCount + 1)}


def order(f):
    return f['lon'][:1] + f['lat'][:1]


def outputs(case):
    files = {}
    for fun in UNIT:
        for d in DIRS:
            suffix = '_%s_%s.nc' % (UNIT[fun], d)
            fs = [nc_layer(case, os.path.join(case.out, fun, f), VAR[fun])
                  for f in os.listdir(os.path.join(case.out, fun)) if f.endswith(suffix)]
            files[fun + '_' + d] = sorted(fs, key=order)
    m3 = [tif_layers(case, os.path.join(case.out, 'M3', f))
          for f in os.listdir(os.path.join(case.out, 'M3')) if f.endswith('.tif')]
    for d in DIRS:
        files['M3_' + d] = sorted([m[d] for m in m3 if d in m], key=order)
    mx = [list(tif_layers(case, os.path.join(case.out, 'M3_max', f)).values())
          for f in os.listdir(os.path.join(case.out, 'M3_max')) if f.endswith('.tif')]
    files['max'] = sorted([m[0] for m in mx if len(m) == 1], key=order)
    r = dict(files=files)
    v = os.path.join(case.out, 'M3', 'wind-multipliers.vrt')
    ds = gdal.Open(v)
    names = [ds.GetRasterBand(b).GetDescription() for b in range(1, ds.RasterCount + 1)]
    ds = None
    if not any(names):            # a mosaic has bands by number, as the tiles
        names = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
    lay = list(tif_layers(case, v).values())
    r['mosaic'] = dict(zip(names, lay))
    r['mosaicmax'] = list(tif_layers(case, os.path.join(case.out, 'M3_max', 'wind-multipliers.vrt')).values())[0]
    return r


def record_c06(ctx, i, job):
    rng = random.Random(job['seed'])
    case = Case(rng, single=job['single']).write(os.path.join(ctx.tmp, 'c%d' % i))
    r = dict(exc=0, single=int(job['single']), case=repr(case.describe()), W=case.W, H=case.H, cls=case.cls.tolist(),
             spikes=[list(s) for s in case.spikes])
    live = sorted((t for k, t in enumerate(case.tiles) if k not in case.empty), key=lambda t: (t[0][0], t[0][2]))
    r['own'] = [list(t[0]) for t in live]
    r['buf'] = [list(t[1]) for t in live]
    err = forked(serial, case)
    if err is None:
        st, x = vlib.attempt(outputs, case)
        if st == 'ok':
            r.update(x)
        else:
            err = 'outputs cannot be read: ' + x
    if err is not None:
        r.update(exc=1, msg=err)
    shutil.rmtree(case.d)
    return r


def run_c06(ctx):
    for f in ('assume-full-buffer', 'buffered-extent', 'reversed') + (() if ctx.quick else ('corner',)):
        if not ctx.quick or f == 'assume-full-buffer':
            ctx.mc_must_fail('Register', dict(MaxN=4, MaxStep=3, MaxBuf=1, Fault=f), invariants=['FileRegistered'])
    ctx.mc('Register', dict(MaxN=ctx.pick(6, 9), MaxStep=ctx.pick(4, 5), MaxBuf=ctx.pick(2, 4), Fault='none'),
           invariants=['FileRegistered', 'RasterRegistered', 'MosaicRegistered', 'MosaicComplete'], min_states=100)
    jobs = [dict(seed=ctx.rng.randint(0, 10 ** 9), single=i < 3) for i in range(ctx.pick(17, 250))]
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, j: record_c06(ctx, i, j), nproc=8)]
    ctx.sample({k: recs[-1].get(k) for k in ('case', 'own', 'buf', 'spikes', 'cls')})
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({r['case'] for r in recs}))
    ctx.count('tiles', sum(len(r['own']) for r in recs))

    def reject(i, why):
        key = None
        if recs[i]['single'] and set(re.findall(r"[A-Z]\w+", why)) <= \
                {'RastersCoverTiles', 'MosaicOfCombined', 'MosaicOfMaximum'}:
            key = 'single-row-or-column-tile'
        ctx.violation(why, recs[i], key)
    ctx.validate('RegisterTrace', recs, on_reject=reject)


# ----------------------------------------------------------------------- C08
def preempt(conn, every):
    """Let others run at calls of functions of the code under test, too."""
    seen = {}
    mon = sys.monitoring
    busy = [False]
    root = vlib.REPO.rstrip('/') + '/'

    def start(co, offset):
        if not co.co_filename.startswith(root):
            return mon.DISABLE
        if busy[0]:
            return None
        k = seen[co] = seen.get(co, 0) + 1
        if k > 24:
            return mon.DISABLE
        if k % every == 0:
            busy[0] = True
            try:
                conn.call('event', 'at', co.co_name)
            finally:
                busy[0] = False
        return None
    mon.use_tool_id(3, 'verif')
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)


def scheduled(case, n, choose, sync, synccoll, every):
    base = run_h.child(case, stub=False)

    def main(rank, size, conn):
        case.give_tiles()
        preempt(conn, every)
        base(rank, size, conn)
    w = fakempi.World(n, choose, sync, synccoll, watch=fakempi.Watch(case.out), timeout=300, limit=100000)
    with vlib.quiet():
        w.run(main)
    bad = [s for s in w.status.values() if s != 'ok']
    return 'ok' if w.end == 'ok' and not bad else '%s %s' % (w.end, bad[:1])


def digest_nc(fn):
    from netCDF4 import Dataset
    h = hashlib.sha1()
    with Dataset(fn) as ds:
        ds.set_auto_mask(False)
        for a in sorted(ds.ncattrs()):
            if a != 'Created_on':
                h.update(repr((a, getattr(ds, a))).encode())
        for v in sorted(ds.variables):
            x = ds.variables[v]
            h.update(repr((v, x.dimensions, x.shape, str(x.dtype), sorted((k, str(getattr(x, k))) for k in x.ncattrs()))).encode())
            h.update(np.asarray(x[:]).tobytes())
    return h.hexdigest()


def digest_raster(fn):
    h = hashlib.sha1()
    ds = gdal.Open(fn)
    gt = ds.GetGeoTransform()
    if fn.endswith('.vrt'):   # put together in some order: to rounding
        gt = [round(v, 9) for v in gt]
    h.update(repr((ds.RasterXSize, ds.RasterYSize, gt, ds.GetProjection())).encode())
    for b in range(1, ds.RasterCount + 1):
        x = ds.GetRasterBand(b)
        h.update(repr((x.GetDescription(), x.GetNoDataValue(), x.DataType)).encode())
        h.update(np.asarray(x.ReadAsArray()).tobytes())
    if fn.endswith('.vrt'):
        import xml.etree.ElementTree as ET
        root = ET.parse(fn).getroot()
        src = sorted((b.get('band'), s.find('SourceFilename').text, s.find('SourceBand').text,
                      sorted((k, round(float(v), 3)) for k, v in s.find('DstRect').attrib.items()))
                     for b in root.findall('VRTRasterBand') for s in b if s.find('SourceFilename') is not None)
        h.update(repr(src).encode())
    return h.hexdigest()


def digests(out):
    res = {}
    for base, _, files in os.walk(out):
        for f in files:
            p = os.path.join(base, f)
            rel = os.path.relpath(p, out)
            if f.endswith('.nc'):
                res[rel] = digest_nc(p)
            elif f.endswith(('.tif', '.vrt', '.img')):
                res[rel] = digest_raster(p)
            else:
                res[rel] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    return res


def rough(case, rng):
    """Relief and land cover in which every step of the computations shows."""
    D = conf.mean_cell(case.y0, case.ph, case.H, case.pw)
    z = np.array([[rng.choice([0, .02, .1, .2, .4]) * rng.random() * D for _ in range(case.W)] for _ in range(case.H)])
    z[case.z == 0] = 0
    case.z = np.round(z + (case.z != 0) * 3)


class FineCase(Case):
    """Cells of tens of metres; the tiles are given, not of a degree."""

    def __init__(self, rng):
        self.pw = rng.choice([.0003, .0002, .0005])
        self.ph = self.pw
        self.nx, self.ny = rng.choice([(2, 2), (3, 1), (1, 3), (3, 2)])
        self.step, self.buf = rng.choice([6, 8, 11]), rng.choice([0, 3, 7])
        self.W, self.H = self.nx * self.step - rng.choice([0, 1, 3]), self.ny * self.step
        self.x0, self.y0 = rng.choice([143.0, 150.4]), rng.choice([-12.0, -33.25, -45.0])
        self.up = self.buf * self.pw
        self.z = np.full((self.H, self.W), 5.0)
        self.cls = np.array([[rng.choice(CLASSES)[0] for _ in range(self.W)] for _ in range(self.H)])
        self.fine, self.rng, self.dtype, self.empty, self.spikes = 1, rng, 'f4', [], []
        rough(self, rng)
        if rng.random() < .5:
            b = self.limits_of(0)[1]
            self.z[b[2]:b[3], b[0]:b[1]] = 0
            self.empty = [0]
        self.tiles = []
        for k in range(self.nx * self.ny):
            own, b = self.limits_of(k)
            self.tiles.append(['e%ss%d' % (k, k), self.extent(b), self.extent(own)])

    def limits_of(self, k):
        i, j = divmod(k, self.ny)
        xs, ys = limits(self.W, self.step, self.buf)[i], limits(self.H, self.step, self.buf)[j]
        return xs[0] + ys[0], xs[1] + ys[1]

    def extent(self, b):
        return (self.x0 + b[0] * self.pw, self.y0 - b[2] * self.ph, self.x0 + b[1] * self.pw, self.y0 - b[3] * self.ph)

    def give_tiles(self):
        import all_multipliers as am
        if hasattr(am, 'get_tiles'):
            fakempi.hook_code(am.get_tiles, lambda a, k: [list(t) for t in self.tiles])


class Ids(dict):
    def __missing__(self, k):
        self[k] = len(self) + 1
        return self[k]


def record_c08(ctx, i, job):
    rng = random.Random(job['seed'])
    while True:
        case = FineCase(rng) if i % 2 else Case(rng, empties=i % 4 == 0)
        if len(case.tiles) >= 2:
            break
    if not i % 2:
        rough(case, rng)
    case.write(os.path.join(ctx.tmp, 'c%d' % i))
    names, contents = Ids(), Ids()
    runs = []
    for k in range(job['runs'] + 1):
        if os.path.isdir(case.out):
            shutil.rmtree(case.out)
        if k == 0:
            how = forked(serial, case) or 'ok'
        else:
            n = [2, 3, 4, 1, 6][(k + i) % 5] if k > 1 else 3
            ch = fakempi.holding(rng, rng.choice([.1, .3, .5])) if k % 2 else fakempi.priorities(rng, n, changes=rng.randint(1, 8), length=200)
            how = scheduled(case, n, ch, rng.random() < .5, rng.random() < .5, 1)
        run = dict(how=how, n=1 if k == 0 else n, files=[])
        if how == 'ok':
            st, x = vlib.attempt(digests, case.out)
            if st == 'ok':
                run['files'] = sorted([names[f], contents[(f, d)]] for f, d in x.items())
            else:
                run['how'] = 'unreadable: ' + x
        runs.append(run)
    shutil.rmtree(case.d)
    return dict(case=repr(case.describe()), names={str(v): f for f, v in names.items()}, runs=runs, T=len(case.tiles),
                live=len(case.tiles) - len(case.empty))


def run_c08(ctx):
    with vlib.quiet():
        import all_multipliers  # noqa: F401 (so that the processes need not)
    inv = ['SameAsSerial']
    for f in ('leak', 'shared-temp', 'first-only'):
        ctx.mc_must_fail('Results', dict(N=2, T=2, Fault=f), invariants=inv)
    for n, t in [(3, 4)] if ctx.quick else [(3, 4), (2, 6), (4, 5), (5, 3)]:
        ctx.mc('Results', dict(N=n, T=t, Fault='none'), invariants=inv, properties=['Ends'], min_states=100)
    jobs = [dict(seed=ctx.rng.randint(0, 10 ** 9), runs=ctx.pick(3, 6)) for _ in range(ctx.pick(8, 80))]
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, j: record_c08(ctx, i, j), nproc=8)]
    ctx.sample(dict(recs[0], names=None))
    ctx.count('evaluations', sum(len(r['runs']) for r in recs))
    ctx.count('distinct_nontrivial', len({r['case'] for r in recs}))
    ctx.count('files_compared', sum(len(x['files']) for r in recs for x in r['runs']))
    ctx.validate('ResultsTrace', recs)
