"""Recording of tile grids (C01, C02, C03)."""
import math
import os
import re
from fractions import Fraction as F

import rasters
import vlib

MODEL = dict(invariants=['NoOverlap', 'Complete', 'BufferExact', 'SetForm',
                         'Count', 'CornersDistinct'])


def model(ctx):
    q = ctx.quick
    ctx.mc('Tiling', dict(MaxDim=4 if q else 6, MaxStep=3 if q else 4,
                          MaxBuf=3 if q else 6, BadRemainder=False), **MODEL)
    ctx.mc_must_fail('Tiling', dict(MaxDim=4, MaxStep=2, MaxBuf=1,
                                    BadRemainder=True),
                     invariants=['NoOverlap', 'BufferExact'])


def allowed(x, mode):
    """Admissible integers of a quotient, given exactly; more than one only
    when rounding of the division can make the difference."""
    n = round(x)
    near = abs(x - n) < F(1, 10 ** 9) * max(1, abs(n))
    e = math.ceil(x) if mode == 'ceil' else math.floor(x)
    s = {e}
    if near:
        s.add(n)
    return sorted(s)


def cases(ctx, n):
    """(W, H, pw, ph, upwind, x0, y0)"""
    rng = ctx.rng
    out = []
    # steps 1..5 cells, exhaustive over small dimensions
    pws = {1: 1.0, 2: 0.5, 3: 0.375, 4: 0.25, 5: 0.2}
    small = [(W, H, pws[a], pws[b], u)
             for W in range(1, 8) for H in range(1, 8)
             for a in (1, 2, 3, 4) for b in (1, 2, 3, 5)
             for u in (0.0, 0.25, 0.4, 0.5, 1.0, 1.3)]
    k = n // 2
    for W, H, a, b, u in (rng.sample(small, k) if k < len(small) else small):
        out.append((W, H, a, b, u, rng.choice([143.0, 115.5, -70.0]),
                    rng.choice([-20.0, -41.25, 12.0])))
    for pw in (1 / 3600., 0.00027777777778, 0.000833333, 0.0025):
        s = math.ceil(1 / pw)
        for W in (s - 1, s, s + 1, 2 * s + 3):
            out.append((W, rng.choice([7, s, s + 2]), pw, pw,
                        rng.choice([0.01, 0.005, 0.0123]), 145.5, -16.25))
    for k in range(max(24, n // 50)):       # many rows or columns of tiles
        many, few = rng.randint(9, 26), rng.randint(1, 3)
        a, b = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4])
        nx, ny = (many, few) if k % 2 else (few, many)
        out.append((nx * a - rng.randint(0, a - 1), ny * b - rng.randint(0, b - 1), pws[a], pws[b],
                    rng.choice([0.0, 0.25, 0.5, 1.0, 2.2]), 113.5, rng.choice([-10.0, 20.5])))
    while len(out) < n:
        pw = rng.choice([0.0833333333, 0.1, 0.05, 0.025, 0.3, 0.7, 1.5, 0.01,
                         0.0125, 0.04, 1 / 3., 1 / 7., 1 / 16., 0.0625, 0.9,
                         rng.uniform(0.02, 1.2)])
        ph = pw if rng.random() < 0.6 else rng.choice(
            [0.1, 0.25, 0.05, 1 / 3., 0.08, rng.uniform(0.02, 1.2)])
        sx, sy = math.ceil(1 / pw), math.ceil(1 / ph)

        def dim(s):
            m = rng.choice([1, 1, 2, 3, 4])
            return max(1, m * s + rng.choice(
                [0, 0, 1, -1, 2, rng.randint(-s, s), rng.randint(0, 5)]))
        W, H = min(dim(sx), 400), min(dim(sy), 400)
        u = rng.choice([0.0, 0.01, 0.05, 0.1, pw, 2 * pw, 3 * ph, 2.5 * pw,
                        0.3, 1.0, rng.uniform(0, 2.5), rng.uniform(0, .2)])
        x0 = rng.choice([143.0, 145.123456, 112.0, -67.5, 140.00013,
                         round(rng.uniform(100, 150), 4), 0.0])
        y0 = rng.choice([-20.0, -10.5, -43.98765, 5.25, 0.0,
                         round(rng.uniform(-44, -8), 4)])
        out.append((W, H, pw, ph, u, x0, y0))
    return out


def record(case, tmp, prop, am):
    W, H, pw, ph, u, x0, y0 = case
    fn = os.path.join(tmp, 'dem.tif')
    rasters.make(fn, W, H, pw, ph, x0, y0, sparse=True)
    # the georeference as it is read back
    ds = rasters.gdal.Open(fn)
    gt = ds.GetGeoTransform()
    ds = None
    pw, ph = gt[1], -gt[5]
    r = dict(prop=prop, exc=0, W=W, H=H,
             sx=allowed(1 / F(pw), 'ceil'), sy=allowed(1 / F(ph), 'ceil'),
             bx=allowed(F(u) / F(pw), 'floor'),
             by=allowed(F(u) / F(ph), 'floor'))
    r['case'] = repr(case)

    def get():
        tg = am.TileGrid(u, fn)
        n = int(tg.num_tiles)
        own = [[int(v) for v in tg.get_gridlimit(k)] for k in range(n)]
        buf = [[int(v) for v in tg.get_gridlimit_buffer(k)] for k in range(n)]
        return own, buf, am.get_tiles(tg)
    st, v = vlib.attempt(get)
    os.remove(fn)
    if st == 'exc':
        r.update(exc=1, msg=v)
        return r
    own, buf, tiles = v
    r.update(own=own, buf=buf)
    if prop == 'C03':
        def cells(e):
            return [lim(1000 * (e[0] - gt[0]) / pw),
                    lim(1000 * (gt[3] - e[1]) / ph),
                    lim(1000 * (e[2] - gt[0]) / pw),
                    lim(1000 * (gt[3] - e[3]) / ph)]
        r['names'] = [str(t[0]) for t in tiles]
        r['bext'] = [cells(t[1]) for t in tiles]
        r['ext'] = [cells(t[2]) for t in tiles]
        r['lon'], r['lat'], r['nlon'], r['nlat'] = [], [], [], []
        for t, o in zip(tiles, own):
            m = re.match(r'e(-?[\d.]+(?:e-?\d+)?)s(-?[\d.]+(?:e-?\d*)?)$', str(t[0]))
            try:
                lon, lat = float(m.group(1)), float(m.group(2))
            except Exception:
                lon = lat = -9999.0
            r['lon'].append(lim(lon * 10000))
            r['lat'].append(lim(lat * 10000))
            r['nlon'].append(lim((gt[0] + o[0] * pw) * 10000))
            r['nlat'].append(lim((-gt[3] + o[2] * ph) * 10000))
    return r


def lim(x):
    return int(max(-2e9, min(2e9, round(float(x)))))


def run(ctx):
    import all_multipliers as am
    model(ctx)
    d = ctx.dir('r')
    recs = []
    for c in cases(ctx, ctx.pick(500, 8000)):
        recs.append(record(c, d, ctx.id, am))
    ctx.sample(recs[0])
    ctx.sample(recs[-1])
    ctx.count('evaluations', len(recs))
    ctx.count('tiles_judged', sum(len(r.get('own', [])) for r in recs))
    ctx.count('distinct_nontrivial',
              len({r['case'] for r in recs if len(r.get('own', [])) > 1}))
    ctx.validate('TilingTrace', recs)
    ctx.assumptions.append('the step and the buffer may fall on either side '
                           'of an integer where the quotient is within 1e-9 of it')
