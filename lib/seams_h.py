"""The same raster computed in different tiles (C32)."""
import os
import random
import shutil

import numpy as np

import conf
import fakempi
import rasters
import run_h
import vlib
import whole_h
from whole_h import CLASSES, DIRS, UNIT, VAR, matrix

FUNS = ['terrain', 'shielding']


def stable(lo, hi):
    """The widths in cells are the same for all mean cell sizes in between."""
    def widths(g):
        return [round(500 / g), round(200 / g), int(500 / (1.414 * g)), int(200 / (1.414 * g)), int(100 / g)]
    return widths(lo * .995) == widths(hi * 1.005)


class Seams(whole_h.Case):
    """A raster, fine enough for the directions to look over several cells."""

    def __init__(self, rng, deg=None):
        self.rng, self.fine, self.deg = rng, rng.choice([1, 1, 3]), deg
        while True:
            if deg is None:
                self.pw = rng.choice([.0003, .0004, .0006, .0009, .00047, .0011, .0015])
                self.ph = self.pw * rng.choice([1, 1, 1.25, .75])
                self.W, self.H = rng.randint(20, 34), rng.randint(20, 34)
                if rng.random() < .2:
                    self.W, self.H = rng.choice([(rng.randint(3, 9), 40), (40, rng.randint(3, 9))])
            else:     # over a seam of tiles of a degree
                self.pw = self.ph = rng.choice([1 / 700., 1 / 610.5, .00173, .0019])
                n = int(np.ceil(1 / self.pw)) + rng.randint(12, 30)
                self.W, self.H = (n, rng.randint(14, 18)) if deg == 'x' else (rng.randint(14, 18), n)
            self.x0, self.y0 = rng.choice([143.0, 150.4, 115.77]), rng.choice([-12.0, -33.25, -45.0, -20.1])
            ends = [conf.mean_cell(self.y0, self.ph, 1, self.pw),
                    conf.mean_cell(self.y0 - self.H * self.ph, self.ph, 1, self.pw)]
            if stable(min(ends), max(ends)):
                break
        self.g = conf.mean_cell(self.y0, self.ph, self.H, self.pw)
        self.reach = max(round(500 / self.g) + round(200 / self.g), int(100 / self.g), 1)
        self.up = (self.reach + (rng.choice([0, 1, 3]) if deg is None else 0) + .5) * max(self.pw, self.ph)
        steep = rng.choice([.05, .2, .5])
        self.z = 5 + np.array([[rng.random() * steep * self.g for _ in range(self.W)] for _ in range(self.H)])
        self.cls = np.array([[rng.choice(CLASSES)[0] if rng.random() < .97 else 77 for _ in range(self.W)]
                             for _ in range(self.H)])
        if rng.random() < .6:     # a town: no open ground on one side of a line
            town = [c[0] for c in CLASSES if c[2] < 100] if rng.random() < .5 else [min(CLASSES, key=lambda c: c[2])[0]]
            x, y = rng.choice([(self.W - 2, self.H), (self.W, self.H - 2), (self.W // 2, self.H), (self.W, self.H // 2)])
            rows = slice(0, y) if rng.random() < .5 else slice(self.H - y, self.H)
            cols = slice(0, x) if rng.random() < .5 else slice(self.W - x, self.W)
            self.cls[rows, cols] = [[rng.choice(town) for _ in row[cols]] for row in self.cls[rows]]
            for row in (set(range(self.H)) - set(range(self.H)[rows])):
                self.cls[row, :] = 11
            for col in (set(range(self.W)) - set(range(self.W)[cols])):
                self.cls[:, col] = 11
        self.dtype, self.empty, self.spikes, self.tiles = 'f4', [], [], None

    def tiling(self):
        """Tiles of some size, and some anywhere: own limits, with buffer."""
        rng = self.rng
        r = []
        sx, sy = rng.randint(1, max(2, self.W // 2)), rng.randint(1, max(2, self.H // 2))
        sx, sy = max(sx, -(-self.W // 4)), max(sy, -(-self.H // 4))
        buf = self.reach + rng.choice([0, 0, 0, 1, -1])
        ts = [(xo + yo, xb + yb) for xo, xb in whole_h.limits(self.W, sx, buf)
              for yo, yb in whole_h.limits(self.H, sy, buf)]
        r += rng.sample(ts, min(len(ts), 3))
        for _ in range(3):
            own, b = [], []
            for n in (self.W, self.H):
                lo = rng.randint(0, n - 2)
                hi = rng.randint(lo + 2, min(n, lo + 9))
                own += [lo, hi]
                b += [max(0, lo - rng.choice([0, buf, buf, buf + 2])), min(n, hi + rng.choice([0, buf, buf, buf + 2]))]
            r.append((tuple(own), tuple(b)))
        return r

    def extent(self, b):
        return (self.x0 + b[0] * self.pw, self.y0 - b[2] * self.ph, self.x0 + b[1] * self.pw, self.y0 - b[3] * self.ph)

    def named(self, tiles):
        """What the program is given, with names of its own form."""
        return [['e%08.4fs%07.4f' % (self.x0 + k, -self.y0), self.extent(b), self.extent(o)]
                for k, (o, b) in enumerate(tiles)]

    def give(self, tiles):
        import all_multipliers as am
        if tiles is not None and hasattr(am, 'get_tiles'):
            fakempi.hook_code(am.get_tiles, lambda a, k: [list(t) for t in self.named(tiles)])

    def give_tiles(self):
        self.give(self.tiles)
        import topographic.topo_mult as tm
        fakempi.hook_code(tm.topomult, lambda a, k: None)


def results(case, win):
    """Per tile that was written (by its limits): values in the window."""
    r = {}
    for fun in FUNS:
        for d in DIRS:
            suffix = '_%s_%s.nc' % (UNIT[fun], d)
            folder = os.path.join(case.out, fun)
            for f in sorted(os.listdir(folder)):
                if f.endswith(suffix):
                    r.setdefault(f[:-len(suffix)], {})[fun + '_' + d] = layer(case, os.path.join(folder, f), VAR[fun], win)
    return r


def layer(case, fn, var, win):
    from netCDF4 import Dataset
    with Dataset(fn) as ds:
        ds.set_auto_mask(False)
        lon, lat = np.array(ds.variables['lon'][:], float), np.array(ds.variables['lat'][:], float)
        a = np.asarray(ds.variables[var][:], float)
    x = int(round((lon[0] - case.x0) / case.pw - .5))
    y = int(round((case.y0 - lat[0]) / case.ph - .5))
    if a.shape != (len(lat), len(lon)):
        raise ValueError('values of shape %s at %d x %d positions' % (a.shape, len(lat), len(lon)))
    at = [x, x + len(lon), y, y + len(lat)]
    x1, x2, y1, y2 = max(win[0], at[0]), min(win[1], at[1]), max(win[2], at[2]), min(win[3], at[3])
    part = a[max(0, y1 - y):max(0, y2 - y), max(0, x1 - x):max(0, x2 - x)]
    return at, [[whole_h.NA if v != v or v == -9999 else vlib.scaled(v, 10 ** 5) for v in row] for row in part]


def tile_record(own, buf, layers):
    kinds = [f + '_' + d for f in FUNS for d in DIRS]
    missing = [k for k in kinds if k not in layers]
    if missing:
        raise ValueError('no output for %s of tile %s' % (missing[:3], own))
    ats = {tuple(layers[k][0]) for k in kinds}
    return dict(own=list(own), buf=list(buf), at=list(ats.pop()) if len(ats) == 1 else [-1],
                v={k: layers[k][1] for k in kinds})


def record(ctx, i, job):
    rng = random.Random(job['seed'])
    case = Seams(rng, job.get('deg')).write(os.path.join(ctx.tmp, 's%d' % i))
    W, H = case.W, case.H
    win = [0, W, 0, H]
    if case.deg:
        s = int(np.ceil(1 / case.pw))
        k = case.reach + 3
        win = [s - k, min(W, s + k), 0, H] if case.deg == 'x' else [0, W, s - k, min(H, s + k)]
    r = dict(exc=0, W=W, H=H, g=int(round(100 * case.g)), win=win, deg=case.deg or '',
             case=repr((W, H, case.pw, case.ph, case.x0, case.y0)), tiles=[])
    whole = ((0, W, 0, H), (0, W, 0, H))
    todo = [[whole]]
    if case.deg:
        s = int(np.ceil(1 / case.pw))
        b = [int(case.up / p) for p in (case.pw, case.ph)]
        todo.append(None)
        exp = [(xo + yo, xb + yb) for xo, xb in whole_h.limits(W, s, b[0]) for yo, yb in whole_h.limits(H, s, b[1])]
    else:
        exp = case.tiling()
        todo.append(exp)
    try:
        for k, tiles in enumerate(todo):
            if os.path.isdir(case.out):
                shutil.rmtree(case.out)
            case.tiles = tiles
            err = whole_h.forked(whole_h.serial, case)
            if err:
                return dict(r, exc=1, msg=err)
            res = results(case, win)
            names = sorted(res)
            if k == 0:
                r['whole'] = tile_record(*whole, res[names[0]])['v']
            elif case.deg:     # tiles of the program's own: in order of position
                res = sorted(res.values(), key=lambda x: next(iter(x.values()))[0][::2])
                if len(res) != len(exp):
                    raise ValueError('%d tiles instead of %d' % (len(res), len(exp)))
                r['tiles'] = [tile_record(o, b, x) for (o, b), x in zip(exp, res)]
            else:
                if len(names) != len(exp):
                    raise ValueError('%d tiles instead of %d' % (len(res), len(exp)))
                r['tiles'] = [tile_record(o, b, res[nm[0]]) for (o, b), nm in zip(exp, case.named(exp))]
    except (ValueError, KeyError, IndexError, OSError) as e:
        return dict(r, exc=1, msg='outputs: %r' % e)
    finally:
        shutil.rmtree(case.d, ignore_errors=True)
    return r


def run_c32(ctx):
    with vlib.quiet():
        import all_multipliers  # noqa: F401
    c = dict(MaxRows=ctx.pick(3, 4), MaxCols=ctx.pick(5, 7), MaxStep=ctx.pick(2, 4), MaxAvg=2, MaxLag=ctx.pick(1, 2),
             MaxSize=ctx.pick(1, 2))
    inv = ['Same', 'Covered']
    ctx.mc('Seams', dict(c, Fault='none'), invariants=inv, min_states=1000)
    for f in ('short', 'own', 'narrow', 'clip'):
        if not ctx.quick or f in ('short', 'clip'):
            ctx.mc_must_fail('Seams', dict(c, Fault=f), invariants=['Same'])
    seed = lambda: ctx.rng.randint(0, 10 ** 9)  # noqa: E731
    jobs = [dict(seed=seed(), deg='xy'[k % 2]) for k in range(ctx.pick(4, 24))]
    jobs += [dict(seed=seed()) for _ in range(ctx.pick(14, 300))]
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, j: record(ctx, i, j), nproc=8)]
    ctx.sample({k: v for k, v in recs[-1].items() if k not in ('whole', 'tiles')})
    ctx.count('evaluations', sum(len(r['tiles']) for r in recs))
    ctx.count('distinct_nontrivial', len({r['case'] for r in recs}))
    ctx.validate('SeamsTrace', recs)
