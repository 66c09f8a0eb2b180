"""Recording of shielding computations (C16 to C20)."""
import math
import os
import shutil

import numpy as np

import conf
import rasters
import vlib
from terrain_h import DIRS, classes, extent, matrix, others, read_nc, tile_case

NA = -2000000000
CODE = dict(n=1, ne=2, e=3, se=4, s=5, sw=6, w=7, nw=8)


def model(ctx):
    ctx.mc('Shield', dict(Copy=True, N=2 if ctx.quick else 4, MaxSize=3 if ctx.quick else 5),
           invariants=['Independent', 'Bounded', 'SectorLaws', 'RuleLaws', 'AspectLaws'],
           min_states=500)
    if not ctx.quick:
        ctx.mc_must_fail('Shield', dict(Copy=False, N=2, MaxSize=1), invariants=['Independent'])


def done(ctx, recs):
    ctx.sample(recs[0])
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({repr(r) for r in recs}))
    ctx.validate('ShieldTrace', recs)


def table(rng, n=None):
    n = n or rng.randint(1, 9)
    return [(c, rng.choice([0.02, 0.2, 1.0]), rng.choice([85, 88, 90, 91, 100, rng.randint(50, 100)]))
            for c in classes(rng, n)]


def tabrec(rows):
    return [[c, s] for c, _, s in rows]


# ------------------------------------------------------------------- C16
def record_class(rng, sm, d):
    rows = table(rng)
    if rng.random() < .3:       # any percentage
        rows = [(c, z, rng.choice([0, 1, rng.randint(0, 50), 100, 120])) for c, z, _ in rows]
    if rng.random() < .1:
        rows.append((rows[0][0], 0.1, 77))
    od = conf.out_dirs(os.path.join(d, 'o'))
    tab = conf.write_table(os.path.join(d, 't.csv'), rows, rng.random() < .5)
    conf.use(conf.write_cfg(os.path.join(d, 'c.cfg'), od, table=tab))
    nr, nc = rng.randint(1, 8), rng.randint(1, 8)
    if rng.random() < .07:     # many rows or columns
        nr, nc = rng.choice([(300, 140), (131, 520), (200, 200), (520, 4)])
    rr, cc = vlib.some(rng, nr), vlib.some(rng, nc)
    dt = rng.choice(['i4', 'i4', 'f4', 'i2'])
    nd = rng.choice([None, None, 0, 99, rows[0][0]] + ([-9999] if dt != 'u1' else []))
    cats = [r[0] for r in rows] + others(rows) + ([nd] if nd is not None else [])
    v = np.array([rng.choices(cats, k=nc) for _ in range(nr)])
    if (v == nd).all():        # GDAL has no statistics of a raster without data
        v[0, 0] = 98
    name = 'e143.0s20.0'
    f = rasters.make(os.path.join(od, name + '.img'), nc, nr, 0.001, arr=v, dtype=dt, nodata=nd)
    r = dict(kind='class', exc=0, tab=tabrec(rows), v=vlib.part(v.tolist(), rr, cc), nd=-2000000001 if nd is None else nd)
    st, x = vlib.attempt(sm.terrain_class2ms_orig, f)
    if st == 'exc':
        r.update(exc=1, msg=x)
    else:
        try:
            a, gt = rasters.read(x)
            r['out'] = matrix(vlib.part(a, rr, cc) if np.shape(a) == (nr, nc) else a, 10 ** 5)
        except Exception as e:
            r.update(exc=1, msg='result cannot be read: %s' % e)
    shutil.rmtree(od)
    return r


def run_class(ctx):
    import shielding.shield_mult as sm
    model(ctx)
    d = ctx.dir('r')
    recs = [record_class(ctx.rng, sm, d) for _ in range(ctx.pick(220, 4000))]
    # and as far as the written multiplier goes
    recs += [record_tile(ctx.rng, sm, d, 'flat') for _ in range(ctx.pick(15, 300))]
    done(ctx, recs)


# ------------------------------------------------------------------- C17
def record_blur(rng, sm, d, size, nr, nc, style):
    if style == 0:
        v = np.array([[rng.randint(32, 64) for _ in range(nc)] for _ in range(nr)])
    else:
        v = np.full((nr, nc), 64)
        for _ in range(rng.randint(1, 2)):
            v[rng.randrange(nr), rng.randrange(nc)] = 0 if style == 1 else 640
    r = dict(kind='blur', exc=0, dir=d, size=size, v=v.tolist(), one=64)
    if nr * nc > 2000:
        r.update(ri=vlib.some(rng, nr), rj=vlib.some(rng, nc))
    st, out = vlib.attempt(lambda: sm.blur_image((v / 64.).astype(np.float32),
                                                 getattr(sm, 'kern_' + d)(size)))
    if st == 'exc':
        r.update(exc=1, msg=out)
    else:
        r['out'] = [[vlib.scaled(float(x) * 64, 1000) for x in row] for row in np.atleast_2d(out)]
    return r


def run_blur(ctx):
    import shielding.shield_mult as sm
    model(ctx)
    rng = ctx.rng
    recs = []
    for d in DIRS:
        for size in range(1, ctx.pick(7, 10)):
            n = 2 * size + 3
            v = np.full((n, n), 64)     # the whole sector of one cell, by its shadow
            recs.append(record_blur(rng, sm, d, size, n, n, 1))
            for _ in range(ctx.pick(2, 30)):
                recs.append(record_blur(rng, sm, d, size, rng.randint(1, 9), rng.randint(1, 9),
                                        rng.randint(0, 2)))
        for _ in range(ctx.pick(1, 8)):         # cells of a few metres
            size = rng.randint(8, 19)
            recs.append(record_blur(rng, sm, d, size, rng.randint(size, size + 3), rng.randint(size, size + 3), rng.randint(0, 1)))
        for _ in range(ctx.pick(1, 8)):         # many rows or columns
            nr, nc = rng.choice([(140, 140), (270, 60), (30, 300), (190, 180)])
            recs.append(record_blur(rng, sm, d, rng.choice([2, 4, 5]), nr, nc, 0))
    d = ctx.dir('r')
    for i in range(ctx.pick(10, 200)):
        recs.append(record_tile(rng, sm, d, 'flat'))
    done(ctx, recs)


# ------------------------------------------------------------------- C18
SLOPES = [0, 3269, 3270, 3271, 5000, 7785, 12299, 12300, 12301, 20000, 45000, 90000]
MS = [85000, 88000, 89999, 90000, 90001, 95000, 99999, 100000, 76500, 60000]


def record_combine(rng, sm, d):
    nr, nc = rng.randint(1, 7), rng.randint(1, 7)
    if rng.random() < .02:
        nr, nc = rng.choice([(300, 40), (31, 520), (200, 70)])
    rr, cc = vlib.some(rng, nr), vlib.some(rng, nc)
    m = [[rng.choice(MS) if rng.random() < .8 else rng.randint(50000, 100000) for _ in range(nc)]
         for _ in range(nr)]
    sl = [[rng.choice(SLOPES) if rng.random() < .7 else rng.randint(0, 90000) for _ in range(nc)]
          for _ in range(nr)]
    near = CODE[d]
    asp = [[rng.choice([near, near, near, near % 8 + 1, (near - 2) % 8 + 1, rng.randint(1, 8), 9])
            for _ in range(nc)] for _ in range(nr)]
    if rng.random() < .5:
        for _ in range(rng.randint(1, 3)):
            m[rng.randrange(nr)][rng.randrange(nc)] = NA
    if rng.random() < .3:
        i, j = rng.randrange(nr), rng.randrange(nc)
        sl[i][j], asp[i][j] = NA, 9
    f = lambda a, s, t: np.array([[np.nan if x == NA else x / s for x in row] for row in a], t)
    r = dict(kind='combine', exc=0, dir=d, **{k: vlib.part(x, rr, cc) for k, x in (('m', m), ('sl', sl), ('as', asp))})
    st, out = vlib.attempt(sm.combine, f(m, 1e5, np.float32 if rng.random() < .7 else float),
                           f(sl, 1e3, float), np.array(asp), d)
    if st == 'exc':
        r.update(exc=1, msg=out)
    else:
        out = np.atleast_2d(out)
        r['out'] = matrix(out[np.ix_(rr, cc)] if out.shape == (nr, nc) else out, 10 ** 5)
    return r


def run_combine(ctx):
    import shielding.shield_mult as sm
    model(ctx)
    recs = [record_combine(ctx.rng, sm, DIRS[i % 8]) for i in range(ctx.pick(400, 6000))]
    done(ctx, recs)


# ------------------------------------------------------------------- C19
def elevation(rng, nr, nc, cell, style):
    """Integer elevations with moderate gradients for a cell size in m."""
    rel = max(1, int(cell * rng.choice([0.02, 0.1, 0.3, 0.8])))
    if style == 0:
        z = np.array([[rng.randint(0, rel) for _ in range(nc)] for _ in range(nr)])
    elif style == 1:          # a plane, towards any side
        a = rng.uniform(0, 2 * math.pi)
        i, j = np.mgrid[0:nr, 0:nc]
        z = np.rint(rel * (math.cos(a) * j + math.sin(a) * i))
    elif style == 2:          # a cone
        i, j = np.mgrid[0:nr, 0:nc]
        z = np.rint(rel * np.hypot(i - rng.uniform(0, nr), j - rng.uniform(0, nc))) * rng.choice([-1, 1])
    else:
        z = np.full((nr, nc), rng.randint(1, 800))
    z = z.astype(int)
    return z - z.min() + rng.choice([0, 1, 50, 700])


def record_slope(rng, sm, d, style):
    nr, nc = rng.randint(1, 9), rng.randint(1, 9)
    if rng.random() < .03:     # many rows or columns
        nr, nc = rng.choice([(140, 140), (270, 40), (30, 300)])
    deg = rng.choice([0.001, 0.00025, 0.01, 0.05, 0.25, 0.0027] if nr < 20 else [0.001, 0.00025, 0.0027])
    ph = deg if rng.random() < .6 else deg * rng.choice([.5, .8, 1.6])
    y0 = rng.choice([-12.0, -20.5, -33.25, -42.0, 8.0, -55.0])
    xm, ym = zip(*[conf.cell_m(y0 - (i + .5) * ph, deg, ph) for i in range(nr)])
    z = elevation(rng, nr, nc, min(min(xm), min(ym)), style)
    dt = rng.choice(['f4', 'i4', 'i2'] if z.max() < 30000 else ['f4', 'i4'])
    r = dict(kind='slope', exc=0, z=z.tolist(), xm=[int(round(x * 100)) for x in xm],
             ym=[int(round(x * 100)) for x in ym])
    if nr * nc > 2000:
        r.update(ri=vlib.some(rng, nr), rj=vlib.some(rng, nc))
    fn = rasters.make(os.path.join(d, 'dem.img'), nc, nr, deg, ph, y0=y0, arr=z, dtype=dt)
    st, out = vlib.attempt(lambda: sm.get_slope_aspect(fn))
    if st == 'exc':
        r.update(exc=1, msg=out)
    else:
        sl, asp = out
        r['tan'] = matrix(np.tan(np.radians(np.clip(sl, -1, 88))), 10 ** 4)
        r['as'] = [[int(x) for x in row] for row in asp]
    os.remove(fn)
    return r


def run_slope(ctx):
    import shielding.shield_mult as sm
    model(ctx)
    d = ctx.dir('r')
    recs = [record_slope(ctx.rng, sm, d, i % 3 if i % 11 else 3) for i in range(ctx.pick(260, 4000))]
    done(ctx, recs)


# ------------------------------------------------------------------- C20
SECT = ['e', 'ne', 'n', 'nw', 'w', 'sw', 's', 'se']


def slopes(z, g):
    """Slope (10^-3 deg) and possible sectors, independently of the code."""
    p = np.pad(z.astype(float), 1, mode='edge')
    gx = (p[:-2, 2:] + 2 * p[1:-1, 2:] + p[2:, 2:]) - (p[:-2, :-2] + 2 * p[1:-1, :-2] + p[2:, :-2])
    gy = (p[2:, :-2] + 2 * p[2:, 1:-1] + p[2:, 2:]) - (p[:-2, :-2] + 2 * p[:-2, 1:-1] + p[:-2, 2:])
    sl, fa = [], []
    for i in range(z.shape[0]):
        xm, ym = conf.cell_m(g['y0'] - (i + .5) * g['ph'], g['pw'], g['ph'])
        srow, frow = [], []
        for j in range(z.shape[1]):
            e, n = -gx[i, j] / (8 * xm), gy[i, j] / (8 * ym)
            srow.append(int(round(1000 * math.degrees(math.atan(math.hypot(e, n))))))
            if e == 0 and n == 0:
                frow.append(['n'])
                continue
            a = math.degrees(math.atan2(n, e)) / 45.
            frow.append(sorted({SECT[int(math.floor(a + x + .5)) % 8] for x in (-.02, .02)}))
        sl.append(srow)
        fa.append(frow)
    return sl, fa


def record_tile(rng, sm, d, mode, seq=1):
    rec = None
    od = conf.out_dirs(os.path.join(d, 'o'))
    rows = table(rng, rng.randint(2, 9))
    tab = conf.write_table(os.path.join(d, 't.csv'), rows, rng.random() < .5)
    conf.use(conf.write_cfg(os.path.join(d, 'c.cfg'), od, table=tab))
    g = tile_case(rng, 'coarse' if mode == 'coarse' else 'small' if mode == 'small' else 'fine')
    if mode in ('flat', 'hilly'):
        g['pw'] = rng.choice([0.0003, 0.0005, 0.0002, 0.00085, 0.0011, round(rng.uniform(0.00015, 0.001), 6)])
        if rng.random() < .15:      # cells of a few metres
            g['pw'] = round(rng.uniform(.00005, .00012), 6)
        g['ph'] = g['pw'] * rng.choice([1, 1, .8, 1.3])
    nr, nc = g['nr'], g['nc']
    cats = [r[0] for r in rows] + [0, 61]
    v = np.array([[rng.choice(cats) for _ in range(nc)] for _ in range(nr)])
    gw = conf.mean_cell(g['y0'], g['ph'], nr, g['pw'])
    z = elevation(rng, nr, nc, gw, 3 if mode == 'flat' else rng.randint(0, 2))
    name = 'e143.0s20.0'
    f = rasters.make(os.path.join(od, name + '.img'), nc, nr, g['pw'], g['ph'], g['x0'], g['y0'], v,
                     rng.choice(['i4', 'f4']))
    fd = rasters.make(os.path.join(od, name + '_dem.img'), nc, nr, g['pw'], g['ph'], g['x0'], g['y0'], z,
                      rng.choice(['i4', 'f4']))
    before = set(os.listdir(od))
    sl, fa = slopes(z, g)
    r = dict(kind='tile', exc=0, tab=tabrec(rows), v=v.tolist(), own=g['own'],
             g=int(round(gw * 100)), geo=repr(g), sl=sl, fa=fa, outs={'none': []})
    cwd = os.getcwd()
    st, x = vlib.attempt(sm.shield, f, fd, extent(g))
    r['cwd'] = int(os.getcwd() == cwd)
    os.chdir(cwd)
    if st == 'exc':
        r.update(exc=1, msg=x)
    else:
        for dr in DIRS:
            fn = os.path.join(od, 'shielding', '%s_ms_%s.nc' % (name, dr))
            if os.path.exists(fn):
                r['outs'][dr] = matrix(read_nc(fn, 'Ms'), 10 ** 5)
                os.remove(fn)
        r['extra'] = len([q for q in os.listdir(od) if q not in before and not q.endswith('.aux.xml')]) + \
            len(os.listdir(os.path.join(od, 'terrain'))) + len(os.listdir(os.path.join(od, 'shielding')))
    shutil.rmtree(od)
    return r


def run_tile(ctx):
    import shielding.shield_mult as sm
    model(ctx)
    d = ctx.dir('r')
    modes = ['hilly', 'coarse', 'hilly', 'flat', 'coarse', 'small']
    recs = [record_tile(ctx.rng, sm, d, modes[i % 6]) for i in range(ctx.pick(70, 1500))]
    done(ctx, recs)
