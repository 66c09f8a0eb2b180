"""Recording of terrain computations (C13, C14, C15)."""
import os
import re
import shutil

import numpy as np

import conf
import rasters
import vlib

DIRS = ['w', 'e', 'n', 's', 'nw', 'ne', 'se', 'sw']


def model(ctx):
    q = ctx.quick
    ctx.mc('Terrain', dict(MaxDim=3 if q else 5, MaxAvg=2 if q else 4, MaxLag=2 if q else 3),
           invariants=['InTile', 'Upwind', 'Size', 'Full', 'Equivariant', 'Monotone', 'RefPoints'],
           min_states=500)


# ------------------------------------------------------------------ convo
def record_convo(rng, tm, nr, nc, d, avg, lag, style):
    if style == 0:
        v = np.array([[rng.randint(0, 400) for _ in range(nc)] for _ in range(nr)])
    elif style == 1:          # one cell stands out
        v = np.full((nr, nc), 64)
        v[rng.randrange(nr), rng.randrange(nc)] = 320
    else:
        v = np.add.outer(np.arange(nr) * 17, np.arange(nc) * 5) + 10
    data = (v / 64.).astype(np.float32)
    if style == 2 and rng.random() < .5:
        data = np.asfortranarray(data)
    keep = data.copy()
    st, out = vlib.attempt(tm.convo, d, data, avg, lag)
    r = dict(kind='convo', prop='C14', exc=0, dir=d, avg=avg, lag=lag, v=v.tolist(),
             same=int(np.array_equal(keep, data)))
    if nr * nc > 2000:
        r.update(ri=vlib.some(rng, nr), rj=vlib.some(rng, nc))
    if st == 'exc':
        r.update(exc=1, msg=out)
    else:
        out = np.atleast_2d(np.asarray(out))
        r['out'] = [[vlib.scaled(float(x) * 64, 1000) for x in row] for row in out]
    return r


def run_convo(ctx):
    import terrain.terrain_mult as tm
    model(ctx)
    rng = ctx.rng
    recs = []
    # every direction and small width over small shapes, all pairs sampled
    shapes = [(1, 1), (1, 6), (6, 1), (2, 5), (5, 2), (4, 4), (3, 7)]
    combos = [(s, d, a, l) for s in shapes for d in DIRS for a in range(0, 5) for l in range(0, 4)]
    for s, d, a, l in (rng.sample(combos, 500) if ctx.quick else combos):
        recs.append(record_convo(rng, tm, s[0], s[1], d, a, l, rng.randint(0, 2)))
    for _ in range(ctx.pick(120, 2500)):
        recs.append(record_convo(rng, tm, rng.randint(1, 14), rng.randint(1, 14),
                                 rng.choice(DIRS), rng.choice([1, 2, 3, 5, 8, 20]),
                                 rng.choice([0, 1, 2, 3, 8, 15]), rng.randint(0, 2)))
    for d in DIRS:         # many rows or columns
        for _ in range(ctx.pick(1, 8)):
            nr, nc = rng.choice([(140, 140), (270, 60), (30, 300), (190, 180)])
            recs.append(record_convo(rng, tm, nr, nc, d, rng.choice([2, 5, 30]), rng.choice([0, 4, 20]), rng.choice([0, 0, 2])))
    ctx.sample(recs[0])
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({repr((r['v'], r['dir'], r['avg'], r['lag'])) for r in recs
                                          if r['avg'] and len(r['v']) * len(r['v'][0]) > 1}))
    ctx.validate('TerrainTrace', recs)


# ------------------------------------------------------------------ table
def classes(rng, n):
    """Classes of a table: small ones, or the wide codes of the
    pre-processing, with codes that differ by multiples of 256."""
    if rng.random() < .5:
        return rng.sample(range(1, 60), n)
    c = rng.randint(1, 59)
    pool = list(range(1, 20)) + [101, 107, 211, 254, 255, 256, 300, 511, 1000, 4095, 30001, 32767] + \
        [c + k * 256 for k in range(1, 5)] + [c]
    return rng.sample(sorted(set(pool)), n)


def table(rng, n=None):
    n = n or rng.randint(1, 9)
    cats = classes(rng, n)
    rows = []
    for c in cats:
        z = rng.choice([2.0, 1.0, 0.8, 0.4, 0.2, 0.08, 0.06, 0.04, 0.02, 0.008,
                        0.006, 0.004, 0.002, round(rng.uniform(0.0005, 3), 6),
                        round(rng.uniform(0.0004, 0.01), 6)])
        rows.append((c, z, rng.choice([85, 88, 90, 100, 100, rng.randint(60, 100)])))
    return rows


def tabrec(rows):
    return [[c, int(round(z * 1e6))] for c, z, _ in rows]


def others(rows):
    """Classes missing from the table, some like its own but for a byte."""
    have = {r[0] for r in rows}
    return [c for c in [0, 99, 61, rows[0][0] + 256, rows[-1][0] % 256, -rows[0][0]] if c not in have and c < 32768]


def record_class(rng, tm, d):
    import pandas as pd
    rows = table(rng)
    if rng.random() < .1:      # a class given twice
        rows.append((rows[0][0], 0.1, 90))
    fn = conf.write_table(os.path.join(d, 't.csv'), rows, rng.random() < .5)
    df = pd.read_csv(fn, comment='#', index_col=False)
    nr, nc = rng.randint(1, 8), rng.randint(1, 8)
    if rng.random() < .1:      # many rows or columns
        nr, nc = rng.choice([(300, 140), (131, 520), (200, 200), (520, 4)])
    rr, cc = vlib.some(rng, nr), vlib.some(rng, nc)
    cats = [r[0] for r in rows] + others(rows)
    v = np.array([rng.choices(cats, k=nc) for _ in range(nr)])
    dt = rng.choice([np.int32, np.float32, np.int16, np.float64] + [np.uint8] * 2 * (v.max() < 256 and v.min() >= 0))
    st, out = vlib.attempt(tm.terrain_class2mz_orig, v.astype(dt), df)
    r = dict(kind='class', prop='C13', exc=0, tab=tabrec(rows), v=vlib.part(v.tolist(), rr, cc))
    if st == 'exc':
        r.update(exc=1, msg=out)
    else:
        if np.shape(out) == (nr, nc):
            out = vlib.part(out, rr, cc)
        r['out'] = [[vlib.scaled(x, 10 ** 6) for x in row] for row in out]
    return r


# ------------------------------------------------------------------- tile
def tile_case(rng, mode):
    """Geometry of a landcover tile: rows, cols, cell size (deg), corner, own
    window. `mode`: fine (averaging), coarse (no averaging), small (less than the
    upwind distance)."""
    y0 = rng.choice([-12.0, -20.5, -33.25, -42.0, 8.0])
    if mode == 'coarse':
        deg = rng.choice([0.25, 0.05, 0.01, 0.008])
        nr, nc = rng.randint(1, 8), rng.randint(1, 8)
    elif mode == 'small':
        deg = rng.choice([0.00025, 0.0005, 0.001])
        nr, nc = rng.choice([(1, 9), (9, 1), (2, 12), (12, 2), (3, 3), (1, 1), (4, 20), (20, 4)])
    else:
        deg = rng.choice([0.0005, 0.0007, 0.001, 0.0012, 0.0018, 0.0025, 0.0033, 0.0046,
                          round(rng.uniform(0.0008, 0.006), 5)])
        nr, nc = rng.randint(5, 16), rng.randint(5, 16)
    ph = deg if rng.random() < .7 else deg * rng.choice([0.8, 1.25])
    c0, r0 = (0, 0) if rng.random() < .3 else (rng.randint(0, nc - 1), rng.randint(0, nr - 1))
    c1 = nc if rng.random() < .3 else rng.randint(c0 + 1, nc)
    r1 = nr if rng.random() < .3 else rng.randint(r0 + 1, nr)
    return dict(nr=nr, nc=nc, pw=deg, ph=ph, x0=rng.choice([143.0, 146.25, 115.125]), y0=y0,
                own=[c0, c1, r0, r1])


def extent(g):
    c0, c1, r0, r1 = g['own']
    return (g['x0'] + c0 * g['pw'], g['y0'] - r0 * g['ph'],
            g['x0'] + c1 * g['pw'], g['y0'] - r1 * g['ph'])


def read_nc(fn, var):
    from netCDF4 import Dataset
    with Dataset(fn) as ds:
        a = ds.variables[var][:]
        return np.ma.filled(np.ma.masked_invalid(a), np.nan)


def matrix(a, scale, na=-2000000000):
    return [[vlib.scaled(x, scale, na) for x in row] for row in np.asarray(a, float)]


def record_tile(rng, tm, d, prop, mode):
    g = tile_case(rng, mode)
    od = conf.out_dirs(os.path.join(d, 'o'))
    rows = table(rng)
    tab = conf.write_table(os.path.join(d, 't.csv'), rows, rng.random() < .5)
    conf.use(conf.write_cfg(os.path.join(d, 'c.cfg'), od, table=tab))
    cats = [r[0] for r in rows]
    p = rng.choice([0, 0, .1, .5, 1.0 if rng.random() < .2 else .9])
    v = np.array([[rng.choice([0, 61, 77]) if rng.random() < p else rng.choice(cats)
                   for _ in range(g['nc'])] for _ in range(g['nr'])])
    name = 'e143.0s20.0'
    f = rasters.make(os.path.join(od, name + '.img'), g['nc'], g['nr'], g['pw'], g['ph'],
                     g['x0'], g['y0'], v, rng.choice(['i4', 'f4']))
    before = set(os.listdir(od))
    gw = conf.mean_cell(g['y0'], g['ph'], g['nr'], g['pw'])
    r = dict(kind='tile', prop=prop, exc=0, tab=tabrec(rows), v=v.tolist(), own=g['own'],
             g=int(round(gw * 100)), geo=repr(g), outs={'none': []})
    st, x = vlib.attempt(tm.terrain, f, extent(g))
    if st == 'exc':
        r.update(exc=1, msg=x)
    else:
        for dr in DIRS:
            fn = os.path.join(od, 'terrain', '%s_mz_%s.nc' % (name, dr))
            if os.path.exists(fn):
                r['outs'][dr] = matrix(read_nc(fn, 'Mz'), 10 ** 6)
                os.remove(fn)
        r['extra'] = len([q for q in os.listdir(od) if q not in before and not q.endswith('.aux.xml')]) + \
            len(os.listdir(os.path.join(od, 'terrain'))) + len(os.listdir(os.path.join(od, 'shielding')))
    shutil.rmtree(od)
    return r


def run_tile(ctx):
    import terrain.terrain_mult as tm
    model(ctx)
    rng, d = ctx.rng, ctx.dir('r')
    recs = []
    for i in range(ctx.pick(70, 1500)):
        recs.append(record_tile(rng, tm, d, 'C15', ['fine', 'fine', 'small', 'coarse'][i % 4]))
    finish(ctx, recs)


def finish(ctx, recs):
    for r in recs[:2]:
        ctx.sample({k: r[k] for k in ('kind', 'tab', 'v', 'own', 'g') if k in r})
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({repr(r['v']) for r in recs if len(r['v']) * len(r['v'][0]) > 1}))
    ctx.validate('TerrainTrace', recs)


def run_class(ctx):
    import terrain.terrain_mult as tm
    model(ctx)
    rng, d = ctx.rng, ctx.dir('r')
    recs = [record_class(rng, tm, d) for _ in range(ctx.pick(150, 3000))]
    for i in range(ctx.pick(30, 500)):
        recs.append(record_tile(rng, tm, d, 'C13', ['coarse', 'small', 'coarse', 'fine'][i % 4]))
    finish(ctx, recs)
