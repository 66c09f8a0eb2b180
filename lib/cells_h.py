"""Cell sizes in metres (C31)."""
from fractions import Fraction as F
import random

import numpy as np

import geo_h
import run_h
import vlib
from geo_h import big

MISSING = -2000000000


def record_fun(rng, job):
    from utilities.blrb import interpolate_grid
    h, w, d, oi, oj, kind = job
    H, W = oi + h + rng.randint(0, 2), oj + w + rng.randint(0, 2)
    if oi == oj == 0 and rng.random() < .5:
        H, W = h, w
    f = [[rng.randint(-50, 50) for _ in range(W)] for _ in range(H)]
    g = np.full((H, W), np.nan, rng.choice([np.float64, np.float32]) if kind else np.float64)
    kw = dict(depth=d, shape=(h, w), eval_func=lambda i, j: f[i][j], grid=g)
    if oi or oj or rng.random() < .5:
        kw['origin'] = (oi, oj)
    st, v = vlib.attempt(interpolate_grid, **kw)
    return dict(kind='fun', exc=int(st == 'exc'), msg=str(v), h=h, w=w, H=H, W=W, d=d, oi=oi, oj=oj, f=f,
                out=[[vlib.scaled(x, 10 ** 5, MISSING) for x in row] for row in g])


def numbers(g, ri, rj, shape):
    if not isinstance(g, np.ndarray) or g.ndim != 2 or not np.isfinite(g).all() or np.abs(g).max(initial=0) > 1e8:
        raise ValueError('not a grid of finite sizes: %r' % (g,))
    if g.shape == shape:
        g = g[np.ix_(ri, rj)]
    return [[big(F(float(x)) / F(6378137)) for x in row] for row in g]


def raster(epsg, gt, w, h):
    from osgeo import gdal, osr
    s = osr.SpatialReference()
    s.ImportFromEPSG(epsg)
    d = gdal.GetDriverByName('MEM').Create('', w, h, 1, gdal.GDT_Float32)
    d.SetProjection(s.ExportToWkt())
    d.SetGeoTransform(gt)
    return d


def record_geo(rng, job):
    from utilities.get_pixel_size_grid import get_pixel_size_grids
    h, w = job
    if rng.random() < .25:
        zone = rng.randint(49, 56)
        size = rng.choice([30., 250., 1000.])
        x0 = 500000 + rng.uniform(-90000, 80000)
        ds = raster(32700 + zone, (x0, size, 0., rng.uniform(4e6, 9.9e6), 0., -size), w, h)
        r = dict(kind='utm', size=big(F(size) / 6378137),
                 east=[big((F(x0) + (j + F(1, 2)) * F(size) - 500000) / 6378137) for j in range(w)])
    else:
        dx = rng.choice([.01, 1 / 3600., .05, .00025])
        dy = rng.choice([dx, dx, rng.choice([.01, 1 / 3600., .02]), rng.choice([.25, .5])])
        y0 = rng.choice([rng.uniform(-85, 85), rng.uniform(-45, -10), 0.0, dy * (h // 2), dy * .5 + dy * (h // 2)])
        x0 = rng.choice([rng.uniform(-180, 179), 0.0, 147.])
        ds = raster(rng.choice([4326, 4326, 7844, 4283]), (x0, dx, 0., y0, 0., -dy), w, h)
        rad = geo_h.PI / 180
        r = dict(kind='geo', dx=big(F(dx) * rad), dy=big(F(dy) * rad),
                 lat=[big((F(y0) - (i + F(1, 2)) * F(dy)) * rad) for i in range(h)])
    ri, rj = vlib.some(rng, h, 3), vlib.some(rng, w, 3)
    r.update(h=h, w=w, ri=ri, rj=rj, gt=repr(ds.GetGeoTransform()), exc=0)
    st, v = geo_h.attempt(lambda: [numbers(g, ri, rj, (h, w)) for g in get_pixel_size_grids(ds)])
    if st == 'exc' or len(v) != 2:
        r.update(exc=1, msg=str(v), xs=[], ys=[])
    else:
        r.update(xs=v[0], ys=v[1])
    return r


def record(i, job):
    rng = random.Random(job[0])
    return record_fun(rng, job[2]) if job[1] == 'fun' else record_geo(rng, job[2])


def run_c31(ctx):
    c = dict(MaxH=5, MaxW=ctx.pick(3, 4), Depths={0, 1} if ctx.quick else {0, 1, 2}, Fault='none')
    ctx.mc('Cells', dict(c, MaxH=5, MaxW=4, Depths={0, 1}), invariants=['Assigned'], min_states=100)
    if not ctx.quick:
        ctx.mc('Cells', dict(c, MaxH=7, MaxW=7, Depths={0, 1}), invariants=['Assigned'])
    for f in ('transposed', 'gap', 'half'):
        if not ctx.quick or f != 'half':
            ctx.mc_must_fail('Cells', dict(c, Fault=f), invariants=['Assigned'])
    with vlib.quiet():
        import utilities.get_pixel_size_grid  # noqa: F401
    seed = lambda: ctx.rng.randint(0, 10 ** 9)  # noqa: E731
    top = ctx.pick(6, 7)
    jobs = [(seed(), 'fun', (h, w, d, 0, 0, 0)) for h in range(1, top + 1) for w in range(1, top + 1) for d in range(4)]
    jobs += [(seed(), 'fun', (ctx.rng.randint(1, 7), ctx.rng.randint(1, 7), ctx.rng.randint(0, 4),
                              ctx.rng.randint(0, 3), ctx.rng.randint(0, 3), 1)) for _ in range(ctx.pick(100, 2000))]
    shapes = [(1, 1), (1, 2), (2, 1), (1, 7), (7, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 5), (5, 4)]
    n = ctx.pick(80, 2500)
    jobs += [(seed(), 'geo', (shapes + [(ctx.rng.randint(1, 13), ctx.rng.randint(1, 13)) for _ in range(n)])[k]) for k in range(n)]
    big = [(150, 60), (260, 45), (41, 300), (130, 130)]
    jobs += [(seed(), 'geo', big[k % 4]) for k in range(ctx.pick(6, 60))]
    recs = [v for _, v in run_h.pool(ctx, jobs, record, nproc=8)]
    ctx.sample(recs[0])
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({repr(r) for r in recs if r['h'] * r['w'] > 1}))
    ctx.validate('CellsTrace', recs)
