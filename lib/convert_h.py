"""Recording of the conversion of tiles (C11, C12)."""
import os
import shutil

import numpy as np

import conf
import vlib
from rasters import gdal

DIRS = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
TYPES = dict(shielding='Ms', terrain='Mz', topographic='Mt')
MISS = -9999


def model(ctx):
    inv = ['BandLaw', 'MissingExactly', 'MaxLaw', 'MaxMissing', 'Neutral']
    ctx.mc('Convert', dict(NDirs=2, Values={2, 3}, Faulty='none'), invariants=inv,
           properties=['Finishes'], min_states=500)
    if not ctx.quick:
        ctx.mc('Convert', dict(NDirs=3, Values={3}, Faulty='none'), invariants=inv, min_states=500)
    for f in ('missing-is-one', 'missing-poisons'):
        ctx.mc_must_fail('Convert', dict(NDirs=2, Values={2, 3}, Faulty=f), invariants=inv)


def cases(ctx, n):
    rng = ctx.rng
    for i in range(n):
        nr, nc = rng.randint(2, 7), rng.randint(2, 7)
        if i % 20 == 7:         # a raster of many blocks
            nr, nc = rng.choice([(300, 140), (131, 520), (258, 270), (520, 4)])
        if i % 3 == 0 and nr == nc:
            nc += 1
        absent = rng.choice(['none', 'none', 'terrain', 'topographic', 'some', 'some', 'both', 'dir'])
        missing = rng.choice(['none', 'few', 'few', 'many', 'cell', 'file', 'all'])
        unit = rng.choice([0.01, 0.25, 1 / 3., 1 / 3600., 0.000833333333])
        x0 = rng.choice([143.0, 115.123456, -70.25, 150.99999])
        y0 = rng.choice([-20.0, -41.1234567, 2.5])
        yield dict(nr=nr, nc=nc, absent=absent, missing=missing, pw=unit,
                   ph=unit if rng.random() < .6 else unit * rng.choice([2, 0.5, 1.5]),
                   x0=x0, y0=y0, tile='e%ss%s' % (str(x0)[:8], str(-y0)[:7]))


def absent_of(case, rng):
    a = case['absent']
    s = set()
    for d in DIRS:
        for t in TYPES:
            if (a in ('terrain', 'topographic') and t == a) or \
                    (a == 'both' and t != 'shielding') or \
                    (a == 'some' and rng.random() < .3) or (a == 'dir' and d == 'ne'):
                s.add((d, t))
    s.discard(('n', 'shielding'))
    return s


def georef(ds, case):
    gt = ds.GetGeoTransform()

    def u(x):
        return int(max(-2e9, min(2e9, round(1000 * x))))
    wkt = ds.GetProjection() or ''
    return dict(x0=u((gt[0] - case['x0']) / case['pw']), y0=u((case['y0'] - gt[3]) / case['ph']),
                pw=u(gt[1] / case['pw']), ph=u(-gt[5] / case['ph']),
                skew=int(bool(gt[2] or gt[4])), wgs84=int('WGS 84' in wkt or 'WGS84' in wkt))


def bands_of(fn, scale, case, rows, cols):
    ds = gdal.Open(fn)
    out, names, nod = [], [], True
    for b in range(1, ds.RasterCount + 1):
        band = ds.GetRasterBand(b)
        a = band.ReadAsArray().astype(float)
        if a.shape == (case['nr'], case['nc']):
            a = a[np.ix_(rows, cols)]
        out.append([[MISS if v == MISS else vlib.scaled(v, scale, -8888) for v in row] for row in a])
        for row, orow in zip(a, out[-1]):
            for k, v in enumerate(row):      # not a multiple of the unit
                if v == v and v != MISS and abs(v) < 60000 and v * scale != orow[k]:
                    if abs(v * scale - orow[k]) > 0.1:
                        orow[k] = -7777
        names.append(band.GetDescription())
        nod = nod and band.GetNoDataValue() == MISS
    return ds, out, names, bool(nod)


def record(case, d, rng):
    """Write the 24 files of a tile, convert it, and read what was written."""
    from utilities.convert import Converter
    from utilities.nctools import save_multiplier
    nr, nc, tile = case['nr'], case['nc'], case['tile']
    lon = [case['x0'] + (j + .5) * case['pw'] for j in range(nc)]
    lat = [case['y0'] - (i + .5) * case['ph'] for i in range(nr)]
    absent = absent_of(case, rng)
    npr = np.random.RandomState(rng.randint(0, 2 ** 31))
    rows, cols = vlib.some(rng, nr), vlib.some(rng, nc)
    cells = [(i, j) for i in range(nr) for j in range(nc)]
    deadcell = set(rng.sample(cells, rng.randint(1, 3)))
    if nr * nc > 1000:
        deadcell = {(rng.choice(rows), rng.choice(cols)) for _ in range(4)}
    deadfile = (rng.choice(DIRS), rng.choice(list(TYPES)))
    f = []
    for dr in DIRS:
        e = {}
        for t, unit in TYPES.items():
            if (dr, t) in absent:
                e[t] = dict(absent=1, v=[])
                continue
            k = npr.randint(8, 49, (nr, nc))
            if rng.random() < .1:
                k[:] = rng.choice([32, 16])
            m = np.zeros((nr, nc), bool)
            if case['missing'] in ('few', 'many'):
                p = .1 if case['missing'] == 'few' else .5
                m = npr.random_sample((nr, nc)) < p
            elif case['missing'] == 'cell':
                for c in deadcell:
                    m[c] = True
            elif case['missing'] == 'file' and (dr, t) == deadfile or case['missing'] == 'all' and t == deadfile[1]:
                m[:] = True
            v = k / 32.
            v[m] = np.nan
            with vlib.quiet():
                save_multiplier(unit, v.astype('f4'), lat, lon,
                                os.path.join(d, t, '%s_%s_%s.nc' % (tile, unit.lower(), dr)))
            e[t] = dict(absent=0, v=np.where(m, MISS, k)[np.ix_(rows, cols)].tolist())
        f.append(e)
    base = dict(exc=0, case=repr(case), g=dict(nr=len(rows), nc=len(cols)))
    st, v = vlib.attempt(lambda: Converter([tile], d).run())
    r1, r2 = dict(base, kind='bands', f=f), dict(base, kind='max')
    if st == 'exc':
        r1.update(exc=1, msg=v)
        r2.update(exc=1, msg=v)
        return r1, r2

    def comb():
        ds, r1['out'], r1['names'], r1['nodata'] = bands_of(os.path.join(d, 'M3', tile + '.tif'), 32768, case, rows, cols)
        r1['og'] = georef(ds, case)
        r2['bands'] = r1['out']

    def maxi():
        ds, r2['out'], _, r2['nodata'] = bands_of(os.path.join(d, 'M3_max', tile + '.tif'), 32768, case, rows, cols)
        r2['og'] = georef(ds, case)
    for g, rs in ((comb, (r1, r2)), (maxi, (r2,))):
        st, v = vlib.attempt(g)
        if st == 'exc':
            for r in rs:
                r.update(exc=1, msg=v)
    return r1, r2


def run(ctx, which):
    model(ctx)
    d = conf.out_dirs(ctx.dir('out'))
    conf.use(conf.write_cfg(os.path.join(ctx.dir('c'), 'c.cfg'), d))
    recs = []
    for case in cases(ctx, ctx.pick(40, 400)):
        recs.append(record(case, d, ctx.rng)[which])
        for s in ('terrain', 'shielding', 'topographic', 'M3', 'M3_max'):
            shutil.rmtree(os.path.join(d, s))
        conf.out_dirs(d)
    ctx.sample(recs[0])
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({repr(r) for r in recs}))
    ctx.validate('ConvertTrace', recs)


def run_c11(ctx):
    run(ctx, 0)


def run_c12(ctx):
    run(ctx, 1)
