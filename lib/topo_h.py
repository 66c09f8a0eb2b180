"""Recording of topographic computations (C21 to C24)."""
import math
import os
import shutil
import sys

import numpy as np

import conf
import rasters
import vlib
from shield_h import elevation
from terrain_h import DIRS, matrix, read_nc, tile_case, extent

DR = dict(n=-1, s=1, e=0, w=0, ne=-1, nw=-1, se=1, sw=1)
DC = dict(n=0, s=0, e=1, w=-1, ne=1, nw=-1, se=1, sw=-1)


def model_line(ctx):
    for sp in ctx.pick([2500], [2500, 10000, 500]):
        ctx.mc('TopoLineM', dict(MaxLen=5 if ctx.quick else 7, Spacing=sp),
               invariants=['Found', 'Alternate', 'Dual', 'Bounds', 'CrestIsTop', 'LevelFree'],
               min_states=500)


def model_sweep(ctx):
    ctx.mc('TopoSweep', dict(MaxDim=4 if ctx.quick else 6),
           invariants=['AtMostOnce', 'AllAtTheEnd', 'Order', 'LinesLaw'], properties=['Ends'],
           min_states=500)


def done(ctx, recs):
    ctx.sample(recs[0])
    ctx.sample(recs[-1])
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({repr(r) for r in recs}))
    ctx.validate('TopoTrace', recs)


def modules():
    import topographic.make_path as mp
    import topographic.topo_mult as tm
    import topographic.multiplier_calc as mc
    import topographic.findpeaks as fp
    return mp, tm, mc, fp


# ----------------------------------------------------------- observing calls
class Calls:
    """Calls of functions of the code (by name and file) while running."""

    def __init__(self, name, fname):
        self.name, self.fname, self.seen = name, fname, []

    def _prof(self, frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_name == self.name and co.co_filename.endswith(self.fname):
                v = [frame.f_locals.get(x) for x in co.co_varnames[:co.co_argcount]]
                self.seen.append([np.array(x) if isinstance(x, np.ndarray) else x for x in v])

    def __enter__(self):
        sys.setprofile(self._prof)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


# --------------------------------------------------------------------- tiles
def tile(rng, d, tm, z, g, dtype, watch=None):
    """Run topomult over a tile; (state, files per direction, extra, calls)."""
    od = conf.out_dirs(os.path.join(d, 'o'))
    conf.use(conf.write_cfg(os.path.join(d, 'c.cfg'), od))
    name = 'e143.0s20.0'
    f = rasters.make(os.path.join(od, name + '_dem.img'), z.shape[1], z.shape[0], g['pw'], g['ph'],
                     g['x0'], g['y0'], z, dtype, nodata=g.get('nodata'))
    before = set(os.listdir(od))
    calls = Calls('multiplier_calc', 'multiplier_calc.py')
    if watch:
        with calls:
            st, x = vlib.attempt(tm.topomult, f, extent(g))
    else:
        st, x = vlib.attempt(tm.topomult, f, extent(g))
    outs, extra = {'none': []}, 0
    if st == 'ok':
        for dr in DIRS:
            fn = os.path.join(od, 'topographic', '%s_mt_%s.nc' % (name, dr))
            if os.path.exists(fn):
                outs[dr] = matrix(read_nc(fn, 'Mt'), 10 ** 5)
                os.remove(fn)
        extra = len([q for q in os.listdir(od) if q not in before and not q.endswith('.aux.xml')]) + \
            len(os.listdir(os.path.join(od, 'topographic')))
    shutil.rmtree(od)
    return st, x, outs, extra, calls.seen


def lines_of(d, nr, nc):
    res = []
    for i in range(nr):
        for j in range(nc):
            if 0 <= i + DR[d] < nr and 0 <= j + DC[d] < nc:
                continue
            c, a, b = [], i, j
            while 0 <= a < nr and 0 <= b < nc:
                c.append((a, b))
                a, b = a - DR[d], b - DC[d]
            res.append(c)
    return res


# ----------------------------------------------------------------------- C21
def record_path(mp, nr, nc, n, d, flt):
    r = dict(kind='path', exc=0, nr=nr, nc=nc, n=n, dir=d)
    st, x = vlib.attempt(mp.make_path, nr, nc, float(n) if flt else n, d)
    if st == 'exc':
        r.update(exc=1, msg=x)
    else:
        r['out'] = [int(q) for q in x]
    return r


def record_sweep(rng, d, tm, nr, nc, big=False):
    if big:
        z = np.arange(1, nr * nc + 1).reshape(nr, nc)
    else:
        z = np.array(rng.sample(range(1, nr * nc + 1), nr * nc)).reshape(nr, nc)
    where = {int(z[i, j]): [i, j] for i in range(nr) for j in range(nc)}
    g = dict(pw=0.001, ph=0.001, x0=145.0, y0=-20.0, own=[0, nc, 0, nr])
    st, x, outs, extra, calls = tile(rng, d, tm, z, g, rng.choice(['f4', 'i4']), watch=True)
    r = dict(kind='sweep', exc=0, nr=nr, nc=nc, dirs=[], lines=[])
    if st == 'exc':
        r.update(exc=1, msg=x)
        return r
    if not calls:
        return None
    # the calls of a direction follow one another; tell the directions apart by
    # the number of cells seen
    cur, n = [], 0
    for c in calls:
        ln = [where.get(int(v), [-1, -1]) for v in np.asarray(c[0], float).ravel()]
        cur.append(ln)
        n += len(ln)
        if n >= nr * nc:
            r['lines'].append(cur)
            r['dirs'].append(guess(cur, nr, nc, r['dirs']))
            cur, n = [], 0
    if cur:
        r['lines'].append(cur)
        r['dirs'].append('n')
    if big:
        r['kind'] = 'runs'
        r['lines'] = [[run_of(c) for c in ls] for ls in r['lines']]
    return r


def run_of(cells):
    """A line as its first cell, its step and the number of its cells; no
    cells if its steps differ."""
    st = {(b[0] - a[0], b[1] - a[1]) for a, b in zip(cells, cells[1:])}
    s = st.pop() if len(st) == 1 else (0, 0)
    return [*cells[0], *s, len(cells) if not st and (s != (0, 0) or len(cells) == 1) else 0]


def guess(lines, nr, nc, used):
    """The direction the lines were meant for: the one (not used yet) with the
    most of these lines."""
    have = [tuple(map(tuple, x)) for x in lines]
    if nr * nc > 1000:     # by the steps
        have = [r for r in map(tuple, map(run_of, lines)) if r[4] > 1]
        return max((d for d in DIRS if d not in used), default='n', key=lambda d: sum((x[2], x[3]) == (-DR[d], -DC[d]) for x in have))
    best = max((d for d in DIRS if d not in used), default='n',
               key=lambda d: len({tuple(x) for x in lines_of(d, nr, nc)} & set(have)))
    return best


def run_paths(ctx):
    mp, tm, mc, fp = modules()
    model_sweep(ctx)
    rng = ctx.rng
    recs = []
    shapes = [(a, b) for a in range(1, 6) for b in range(1, 6)]
    for nr, nc in shapes:
        for d in DIRS:
            for n in range(nr * nc) if not ctx.quick else rng.sample(range(nr * nc), min(3, nr * nc)):
                recs.append(record_path(mp, nr, nc, n, d, n % 2))
    for _ in range(ctx.pick(100, 2000)):
        nr, nc = rng.randint(1, 60), rng.randint(1, 60)
        recs.append(record_path(mp, nr, nc, rng.randrange(nr * nc), rng.choice(DIRS), rng.random() < .5))
    for _ in range(ctx.pick(24, 200)):      # tiles of the size of a degree
        nr, nc = rng.choice([(rng.randint(300, 900), rng.randint(300, 900)), (3601 + rng.randint(0, 80), rng.randint(1, 40)),
                             (rng.randint(1, 40), 3601 + rng.randint(0, 80)), (400, 400)])
        n = rng.choice([rng.randrange(nr * nc), rng.randrange(nr), nr * nc - 1 - rng.randrange(nr), nr * rng.randrange(nc)])
        recs.append(record_path(mp, nr, nc, n, rng.choice(DIRS), rng.random() < .5))
    d = ctx.dir('r')
    shapes = [(1, 1), (1, 5), (5, 1), (2, 3), (3, 2), (4, 4)]
    shapes += [(rng.randint(1, 9), rng.randint(1, 9)) for _ in range(ctx.pick(10, 150))]
    bigs = [(262, 257), (12, 150), (270, 20), (60, 60)]
    for nr, nc in shapes + ctx.pick(bigs, bigs * 4):
        r = record_sweep(rng, d, tm, nr, nc, (nr, nc) in bigs)
        if r is None:
            ctx.count('sweeps_not_observable')
        else:
            recs.append(r)
    done(ctx, recs)


# ----------------------------------------------------------------------- C22
def profile(rng, n=None):
    """An elevation line: hills, plateaus, escarpments, noise."""
    n = n or rng.randint(1, 30)
    s = rng.randint(0, 5)
    if s == 0:
        return [rng.choice([0, 1, 2]) for _ in range(n)]
    if s == 1:
        return [rng.randint(0, 120) for _ in range(n)]
    y, h, dh = [], rng.choice([0, 100, 500]), 0
    for _ in range(n):
        y.append(h)
        if rng.random() < .35:
            dh = rng.choice([0, 0, 3, 10, 40, -3, -10, -40, 100, -100][:10 if s < 5 else 8])
        h = max(-50, h + dh)
    return y


def bounded(n, alpha):
    if n == 0:
        yield []
        return
    for p in bounded(n - 1, alpha):
        for a in alpha:
            yield p + [a]


def record_peaks(fp, y, flt):
    r = dict(kind='peaks', exc=0, y=y)
    a = np.array(y, float) if flt else np.array(y)
    st, x = vlib.attempt(lambda: (list(map(int, np.atleast_1d(fp.findpeaks(a)))),
                                  list(map(int, np.atleast_1d(fp.findvalleys(a))))))
    if st == 'exc':
        r.update(exc=1, msg=x)
    else:
        r['ridges'], r['valleys'] = x
    return r


def record_pairs(mc, y, D):
    r = dict(kind='pairs', exc=0, y=y, D=D, pairs=[])
    calls = Calls('mh_calc', 'mh.py')
    with calls:
        st, x = vlib.attempt(mc.multiplier_calc, np.array(y, float), D / 100.)
    if st == 'exc':
        r.update(exc=1, msg=x)
    for c in calls.seen:
        r['pairs'].append([int(c[2]), int(c[1])])
    return r


def run_peaks(ctx):
    mp, tm, mc, fp = modules()
    model_line(ctx)
    rng = ctx.rng
    lines = [p for n in range(2, ctx.pick(6, 8)) for p in bounded(n, [0, 20, 45])]
    lines += [[0], [7], [0, 0, 0]]
    if ctx.quick:
        lines = [x for x in lines if len(x) < 5] + rng.sample(lines, 150)
    rnd = [profile(rng) for _ in range(ctx.pick(250, 4000))]
    recs = [record_peaks(fp, y, i % 2) for i, y in enumerate(lines + rnd) if len(y) > 1]
    pairs = [record_pairs(mc, y, rng.choice([500, 2500, 5000, 10000])) for y in lines + rnd]
    if any(p['pairs'] for p in pairs):
        recs += pairs
    else:
        ctx.count('pairs_not_observable')
    done(ctx, recs)


# ----------------------------------------------------------------------- C23
def hill(rng):
    """A line with a hill designed around the thresholds, and D."""
    D = rng.choice([2500, 2500, 5000, 10000, 1000, 2555, 1415, 8000, 500, 25000])
    n = rng.randint(1, 12)
    ds = D / 100.
    slope = rng.choice([.05, .05, .049, .051, .1, .2, .44, .45, .45, .46, .7, 1., 1.5])
    h = int(round(slope * n * ds))
    if rng.random() < .15:
        h = rng.choice([9, 10, 11])
    h = max(h, n)
    a = [0] * rng.randint(0, 8) + [i * h // n for i in range(n + 1)]
    back = rng.choice(['flat', 'sym', 'half', 'drop', 'rise', 'end', 'near', 'near'])
    if back == 'flat':
        b = [h] * rng.randint(1, 20)
    elif back == 'sym':
        b = [h - (i + 1) * h // n for i in range(n)] + [0] * rng.randint(0, 12)
    elif back == 'half':
        b = [max(0, h - (i + 1) * h // (2 * n)) for i in range(2 * n)]
    elif back == 'drop':
        b = [0] * rng.randint(1, 15)
    elif back == 'rise':
        b = [h - 1] + [h + 5 + 3 * i for i in range(rng.randint(1, 12))]
    elif back == 'near':        # nearly symmetric: factor of 0.8 to 1.2
        f = rng.uniform(.8, 1.25)
        b = [int(h - (i + 1) * h * f / n) for i in range(n)] + [0] * rng.randint(0, 12)
    else:
        b = []
    return a + b, D


def record_line(mc, y, D, frac=None):
    r = dict(kind='line', exc=0, y=y, D=D)
    st, x = vlib.attempt(mc.multiplier_calc, np.array(y, float) + np.array(frac or 0.), D / 100.)
    if st == 'exc':
        r.update(exc=1, msg=x)
    else:
        r['out'] = [vlib.scaled(v, 10 ** 6) for v in np.asarray(x, float).ravel()]
    return r


def run_lines(ctx):
    mp, tm, mc, fp = modules()
    model_line(ctx)
    rng = ctx.rng
    recs = []
    for i in range(ctx.pick(500, 12000)):
        if i % 3 == 2:
            y, D = profile(rng), rng.choice([500, 2500, 5000, 10000, 2555])
        elif i % 3 == 1:
            (y, D), (y2, _) = hill(rng), hill(rng)
            y = y + [v + rng.choice([0, 0, y[-1]]) for v in y2]
        else:
            y, D = hill(rng)
        if rng.random() < .2:
            y = [v + 300 for v in y]
        long = i % 40 == 11     # a line of many hills
        if long:
            y = [rng.randint(0, 120) for _ in range(rng.randint(80, 150))] if rng.random() < .5 else profile(rng, rng.randint(80, 150))
        y = y if long else y[:70]
        if rng.random() < .15:
            y = [v - rng.choice([30, 100]) for v in y]
        # elevations count in whole metres
        frac = [rng.choice([0, 0, .25, .5, .999]) for _ in y] if rng.random() < .3 else None
        recs.append(record_line(mc, y, D, frac))
    done(ctx, recs)


# ----------------------------------------------------------------------- C24
def record_cons(tm, m):
    r = dict(kind='cons', exc=0, m=m)
    st, x = vlib.attempt(tm.remove_conservatism, np.array([m]) / 1e5)
    r.update(dict(out=[vlib.scaled(v, 10 ** 5) for v in np.asarray(x).ravel()]) if st == 'ok'
             else dict(exc=1, msg=x))
    return r


def record_tas(tm, m, e, dt):
    r = dict(kind='tas', exc=0, m=m, e=e)
    st, x = vlib.attempt(tm.tasmania, np.array([m]) / 1e5, (np.array([e]) / 4.).astype(dt))
    r.update(dict(out=[vlib.scaled(v, 10 ** 5) for v in np.asarray(x).ravel()]) if st == 'ok'
             else dict(exc=1, msg=x))
    return r


CORNERS = [(146.25, -42.5), (143.5, -40.5), (142.5, -41.0), (143.0, -41.0), (144.0, -39.75), (144.0, -40.0),
           (143.125, -40.125), (115.5, -33.25), (150.0, -24.0), (170.5, -43.0)]


def record_tile(rng, d, tm, mc):
    g = tile_case(rng, rng.choice(['coarse', 'fine', 'small']))
    x, y = rng.choice(CORNERS)
    nr, nc = g['nr'], g['nc']
    own = g['own']
    if rng.random() < .3 and nr > 1 and nc > 1:
        # the corner with the buffer on one side of the region, that of the tile on the other
        if rng.random() < .5:
            own[0], own[2] = max(own[0], 1), max(own[2], 1)
            own[1], own[3] = max(own[1], own[0] + 1), max(own[3], own[2] + 1)
        x = 143.0 - .5 * g['pw'] if own[0] > 0 else 143.5
        y = -40.0 + .5 * g['ph'] if own[2] > 0 else -40.5
    g.update(x0=x, y0=y)
    gw = conf.mean_cell(y, g['ph'], nr, g['pw'])
    style = rng.choice([0, 2, 2, 3, 4])
    z = elevation(rng, nr, nc, min(gw, 300), style) if style < 4 else \
        np.array([[rng.choice([400, 500, 501, 560, 900]) for _ in range(nc)] for _ in range(nr)])
    dt = rng.choice(['f4', 'i4', 'i2'])
    if dt == 'f4':
        z = z + rng.choice([0, .25, .5])
    gone = np.zeros((nr, nc), bool)
    if rng.random() < .3:    # cells without elevation count as level with the sea
        p = rng.choice([.05, .3, .8])
        gone = np.array([[rng.random() < p for _ in range(nc)] for _ in range(nr)])
        if dt != 'f4' or rng.random() < .7:
            g['nodata'] = rng.choice([-9999, -32768, 32767])
    put = np.where(gone, g.get('nodata', np.nan), z) if gone.any() else z
    z = np.where(gone, 0, z)
    st, err, outs, extra, _ = tile(rng, d, tm, put, g, dt)
    r = dict(kind='tile', exc=0, nr=nr, nc=nc, x=int(round(x * 1e4)), y=int(round(-y * 1e4)),
             e=[[int(round(4 * v)) for v in row] for row in z],
             gone=[[int(i), int(j)] for i, j in np.argwhere(gone)], own=g['own'], outs=outs, extra=extra, raw={})
    if st == 'exc':
        r.update(exc=1, msg=err)
        return r
    for dr in DIRS:
        raws = []
        for f in (1, .9994, 1.0006):
            raw = np.ones((nr, nc))
            for c in lines_of(dr, nr, nc):
                ii = tuple(zip(*c))
                s = gw * f * (math.sqrt(2) if len(dr) == 2 else 1)
                raw[ii] = np.asarray(mc.multiplier_calc(np.array([float(z[q]) for q in c]), s)).ravel()
            raws.append(raw)
        if max(np.abs(raws[0] - q).max() for q in raws) < 2e-3:
            r['raw'][dr] = matrix(raws[0], 10 ** 5)
    r['raw']['none'] = []
    return r


def run_tiles(ctx):
    mp, tm, mc, fp = modules()
    rng = ctx.rng
    model_sweep(ctx)
    d = ctx.dir('r')
    recs = []
    vals = [100000, 100001, 110000, 139999, 140000, 140001, 150000, 171000, 99999, 120000]
    for i in range(ctx.pick(40, 400)):
        m = [rng.choice(vals + [rng.randint(100000, 171000)] * 5) for _ in range(rng.randint(1, 20))]
        recs.append(record_cons(tm, m))
        e = [rng.choice([0, 1999, 2000, 2001, 2004, 4000, 6500, rng.randint(0, 8000)]) for _ in m]
        recs.append(record_tas(tm, m, e if i % 2 else [q // 4 * 4 for q in e], [np.int64, float, np.int32, np.float32][i % 4] if i % 2 == 0 else float))
    for _ in range(ctx.pick(60, 1200)):
        recs.append(record_tile(rng, d, tm, mc))
    done(ctx, recs)
