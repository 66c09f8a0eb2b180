"""The same ground, given to the programs in other ways (C40)."""
import glob
import os
import random
import shutil

import numpy as np

import conf
import rasters
import run_h
import seams_h
import vlib
import whole_h
from rasters import gdal
from whole_h import DIRS, NA, UNIT, VAR

TABLE = [(11, 2.0, 100), (12, 1.0, 91), (13, .4, 95), (14, .1, 88), (15, .03, 80), (16, .006, 70), (17, .2, 60)]
OTHER = 77          # a class that is not in the table
WAYS = ['ew', 'ns', 'turn', 'raise', 'relabel', 'store', 'shift']
MIRRORS = ('ew', 'ns', 'turn')
MISSING = -9999


class Ground:
    """Elevation, land cover and where they are, and how they are stored."""

    def __init__(self, rng, way):
        self.many = rng.random() < .2
        while True:
            if self.many:       # several tiles, of coarse cells
                self.pw, self.ph = rng.choice([.25, .2, .1]), rng.choice([.25, .2])
                s = [int(np.ceil(1 / p)) for p in (self.pw, self.ph)]
                self.W, self.H = s[0] * rng.choice([1, 2]), s[1] * rng.choice([1, 2])
            else:
                self.pw = rng.choice([.0003, .0004, .0006, .0009, .00047, .0011, .0015, .005])
                self.ph = self.pw * rng.choice([1, 1, 1.25, .75])
                self.W, self.H = rng.randint(3, 18), rng.randint(3, 18)
            self.x0 = rng.choice([143.5, 150.4, 115.77, 100.0])
            self.y0 = rng.choice([-12.0, -33.25, -20.1, 10.5, 0.0])
            if way in ('ns', 'turn'):
                self.y0 = self.H * self.ph / 2
            self.g = conf.mean_cell(self.y0, self.ph, self.H, self.pw)
            if seams_h.stable(self.g * .998, self.g * 1.002):
                break
        W, H = self.W, self.H
        self.up = rng.choice([0.01, self.pw * 2.5, self.pw * 4.5])
        steep = rng.choice([.02, .2, .5])
        z = np.array([[rng.random() for _ in range(W)] for _ in range(H)]) * min(steep * self.g, 1500)
        if rng.random() < .7:       # ridges and hollows of some cells' width
            for _ in range(rng.randint(1, 4)):
                i, j, w, a = rng.uniform(0, H), rng.uniform(0, W), rng.uniform(1, 5), rng.uniform(.2, 1.5)
                y, x = np.mgrid[:H, :W]
                z = z * rng.choice([1, .1]) + min(a * w * self.g, 3000) * np.exp(
                    -(((x - j) * rng.choice([1, 1, .2])) ** 2 + (y - i) ** 2) / w ** 2)
        if rng.random() < .3:
            z = np.round(z / 20) * 20
        self.z = np.round(z) + 1
        p = rng.choice([0, 0, .1, .5])
        self.cls = np.array([[OTHER if rng.random() < p else rng.choice(TABLE)[0] for _ in range(W)] for _ in range(H)])
        if rng.random() < .4:
            self.cls[:, rng.randrange(W):] = rng.choice(TABLE)[0]
        self.fine = rng.choice([1, 3])
        if self.fine > 1:
            k = np.array([[rng.choice(TABLE)[0] for _ in range(3 * W)] for _ in range(3 * H)])
            k[1::3, 1::3] = self.cls
            self.cls = k
        self.nodata = None
        if way != 'raise' and rng.random() < .25:
            self.nodata = MISSING
            gone = np.array([[rng.random() < rng.choice([.05, .2]) for _ in range(W)] for _ in range(H)])
            self.z[gone] = MISSING
        self.table, self.comment, self.other = list(TABLE), False, OTHER
        self.dt, self.ct, self.ext = rng.choice(['f4', 'i4', 'i2']), rng.choice(['i4', 'u1', 'f4']), ('tif', 'tif')

        if rng.random() < .3:
            self.relabel(rng)

    def relabel(self, rng):
        codes = rng.sample(range(1, rng.choice([250, 250, 2000])), len(self.table) + 1)
        new = dict(zip([r[0] for r in self.table] + [self.other], codes))
        self.cls = np.vectorize(new.get)(self.cls)
        self.table = [(new[c], z, s) for c, z, s in self.table]
        self.other = new[self.other]
        rng.shuffle(self.table)
        self.comment = not self.comment
        if self.cls.max() > 255 and self.ct == 'u1':
            self.ct = 'i2'

    def changed(self, rng, way):
        import copy
        g = copy.deepcopy(self)
        if way in ('ew', 'turn'):
            g.z, g.cls = g.z[:, ::-1], g.cls[:, ::-1]
        if way in ('ns', 'turn'):
            g.z, g.cls = g.z[::-1], g.cls[::-1]
        if way == 'raise':
            g.z = g.z + rng.choice([1, 7, 250, 1000])
        elif way == 'relabel':
            g.relabel(rng)
        elif way == 'store':
            g.dt = rng.choice(['f4', 'i4', 'i2', 'f8'] + (['u2'] if g.nodata is None else []))
            g.ct = rng.choice(['i4', 'f4', 'i2', 'u2', 'f8'] + ['u1'] * (g.cls.max() < 256))
            g.ext = (rng.choice(['tif', 'img']), rng.choice(['tif', 'img']))
        elif way == 'shift':
            g.x0 += rng.choice([-20, 3, 7, 30])
        return g

    def write(self, d):
        os.makedirs(d)
        self.d, self.out = d, os.path.join(d, 'out')
        dem = rasters.make(os.path.join(d, 'dem.' + self.ext[0]), self.W, self.H, self.pw, self.ph, self.x0, self.y0,
                           self.z, self.dt, nodata=self.nodata)
        lc = rasters.make(os.path.join(d, 'lc.' + self.ext[1]), self.W * self.fine, self.H * self.fine,
                          self.pw / self.fine, self.ph / self.fine, self.x0, self.y0, self.cls, self.ct)
        tab = conf.write_table(os.path.join(d, 't.csv'), self.table, self.comment)
        self.cfg = conf.write_cfg(os.path.join(d, 'c.cfg'), self.out, dem, lc, tab, upwind=self.up,
                                  log=os.path.join(d, 'log', 'l.txt'))
        return self

    def give_tiles(self):
        pass

    # ------------------------------------------------------------- results
    def put(self, all, lon, lat, a):
        """Values at positions, in the raster they are part of."""
        j = int(round((lon - self.x0) / self.pw - .5))
        i = int(round((self.y0 - lat) / self.ph - .5))
        if i < 0 or j < 0 or i + a.shape[0] > self.H or j + a.shape[1] > self.W:
            raise ValueError('values outside of the raster')
        all[i:i + a.shape[0], j:j + a.shape[1]] = a

    def layers(self, parts):
        from netCDF4 import Dataset
        res = {}
        for fun, unit in UNIT.items():
            for dr in DIRS if unit in parts else ():
                all = np.full((self.H, self.W), np.nan)
                for f in glob.glob(os.path.join(self.out, fun, '*_%s_%s.nc' % (unit, dr))):
                    with Dataset(f) as ds:
                        a = np.ma.filled(np.ma.masked_values(ds.variables[VAR[fun]][:], MISSING), np.nan)
                        self.put(all, float(ds.variables['lon'][0]), float(ds.variables['lat'][0]), np.asarray(a, float))
                res['%s_%s' % (unit, dr)] = all
        for name, folder in (('m3', 'M3'), ('max', 'M3_max')):
            if name not in parts:
                continue
            ds = gdal.Open(os.path.join(self.out, folder, 'wind-multipliers.vrt'))
            t = ds.GetGeoTransform()
            first = gdal.Open(sorted(glob.glob(os.path.join(self.out, folder, '*.tif')))[0])
            for k in range(1, ds.RasterCount + 1):
                all = np.full((self.H, self.W), np.nan)
                a = ds.GetRasterBand(k).ReadAsArray().astype(float)
                a[a == MISSING] = np.nan
                self.put(all, t[0] + t[1] / 2, t[3] + t[5] / 2, a)
                res[name if name == 'max' else 'm3_' + first.GetRasterBand(k).GetDescription()] = all
        return {k: whole_h.matrix(v) for k, v in res.items()}


def both_programs(g):
    """The multipliers and their conversion, without MPI."""
    whole_h.serial(g)
    from utilities import mpi_runner, parallel
    from utilities.convert import create_sub_dirs_for_convert
    create_sub_dirs_for_convert(g.out)
    mpi_runner.parallelise_convert_on_tiles(g.out, parallel.attempt_parallel().COMM_WORLD)


def record(ctx, i, job):
    rng = random.Random(job['seed'])
    way = job['way']
    g = Ground(rng, way)
    parts = ['mz', 'ms']
    if way != 'shift' and not (g.many and way in MIRRORS):
        # elsewhere the cell size a tile is given differs in its last digits,
        # and with it where lengths along a line are cut to whole cells
        parts += ['mt', 'm3', 'max']
    r = dict(exc=0, way=way, rows=g.H, cols=g.W, parts=parts,
             case=repr((g.W, g.H, g.pw, g.ph, g.x0, g.y0, g.up, g.dt, g.ct, g.nodata)))
    try:
        for k, x in (('a', g), ('b', g.changed(rng, way))):
            x.write(os.path.join(ctx.tmp, 'm%d%s' % (i, k)))
            err = whole_h.forked(both_programs, x)
            if err:
                return dict(r, exc=1, msg=err)
            st, v = vlib.attempt(x.layers, parts)
            if st == 'exc':
                return dict(r, exc=1, msg='results: ' + str(v))
            r[k] = v
        want = {p + '_' + d for p in parts if p != 'max' for d in DIRS} | ({'max'} & set(parts))
        if set(r['a']) != want or set(r['b']) != want:
            return dict(r, exc=1, a={}, b={}, msg='results: other layers than %s' % sorted(want))
    finally:
        for k in 'ab':
            shutil.rmtree(os.path.join(ctx.tmp, 'm%d%s' % (i, k)), ignore_errors=True)
    return r


def run_c40(ctx):
    with vlib.quiet():
        import all_multipliers  # noqa: F401
        import utilities.mpi_runner  # noqa: F401
    c = dict(MaxRows=ctx.pick(3, 5), MaxCols=ctx.pick(3, 5), MaxWidth=ctx.pick(2, 4), MaxGrad=ctx.pick(4, 12))
    inv = ['SameSeen', 'OneLine', 'Group']
    ctx.mc('Mirror', dict(c, Fault='none'), invariants=inv, min_states=1000)
    for f in ('names', 'edge', 'start', 'facing'):
        if not ctx.quick or f in ('names', 'facing'):
            ctx.mc_must_fail('Mirror', dict(c, Fault=f), invariants=inv)
    n = ctx.pick(12, 220)
    jobs = [dict(seed=ctx.rng.randint(0, 10 ** 9), way=w) for _ in range(n) for w in WAYS]
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, j: record(ctx, i, j), nproc=8)]
    ctx.sample({k: v for k, v in recs[-1].items() if k not in 'ab'})
    ctx.count('evaluations', 2 * len(recs))
    ctx.count('distinct_nontrivial', len({r['way'] + r['case'] for r in recs}))
    ctx.validate('MirrorTrace', recs)
