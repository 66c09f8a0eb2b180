"""What is left in the output folder after each tile (C25)."""
import os
import random
import shutil
import time

import numpy as np

import fakempi
import run_h
import vlib
import whole_h

FUNS = ['terrain', 'shielding', 'topographic']
NAMES = {'%s_%s_%s' % ('', whole_h.UNIT[f], d): (f, d) for f in FUNS for d in whole_h.DIRS}


class TidyCase(whole_h.FineCase):
    """Some tiles are empty but for a cell or so; some have no known class."""

    def __init__(self, rng, busy=False):
        super().__init__(rng)
        T = len(self.tiles)
        self.z = np.abs(self.z) + 1
        self.dtype = rng.choice(['f4', 'f4', 'i4', 'i2'])
        kinds = [rng.choice(['full', 'empty', 'full' if busy else 'empty', 'cell']) for _ in range(T)]
        if 'empty' not in kinds:
            kinds[rng.randrange(T)] = 'empty'
        self.cells = []
        for k in range(T):
            own, b = self.limits_of(k)
            if kinds[k] != 'full':
                self.z[b[2]:b[3], b[0]:b[1]] = 0
        for k in range(T):
            own, b = self.limits_of(k)
            if kinds[k] == 'cell':
                box = rng.choice([own, own, b])
                i, j = rng.randrange(box[2], box[3]), rng.randrange(box[0], box[1])
                v = rng.choice([7, 1, -3, 1024, 65536 if self.dtype != 'i2' else 256, 0.3 if self.dtype == 'f4' else 2,
                                1e-3 if self.dtype == 'f4' else 4])
                self.z[i, j] = v
                self.cells.append((i, j, v))
                if rng.random() < .4:       # and one that cancels it
                    i, j = rng.randrange(box[2], box[3]), rng.randrange(box[0], box[1])
                    if self.z[i, j] == 0:
                        self.z[i, j] = -v
                        self.cells.append((i, j, -v))
        if rng.random() < .4:
            b = self.limits_of(rng.randrange(T))[1]
            self.cls[b[2]:b[3], b[0]:b[1]] = 99
        self.kinds = kinds
        self.names = ['e%d.%ds%d' % (143 + k, rng.randint(0, 9), 20 + k) for k in range(T)]
        for k, t in enumerate(self.tiles):
            t[0] = self.names[k]

    def windows(self):
        elev, known = [], []
        for k in range(len(self.tiles)):
            b = self.limits_of(k)[1]
            elev.append([[0 if v == 0 else vlib.scaled(v, 1000) for v in row] for row in self.z[b[2]:b[3], b[0]:b[1]]])
            known.append(int((self.cls[b[2]:b[3], b[0]:b[1]] != 99).any()))
        return elev, known

    def look(self):
        """The output folder now: results, other files, contents per tile."""
        res, tmp, dig, other = [[] for _ in self.names], [0] * len(self.names), [{} for _ in self.names], 0
        for base, dirs, files in os.walk(self.out):
            rel = os.path.relpath(base, self.out)
            if rel in ('M3', 'M3_max'):
                continue
            for f in files:
                k = [i for i, nm in enumerate(self.names) if f.startswith(nm)]
                if not k:
                    other += 1
                    continue
                k = k[0]
                stem = f[len(self.names[k]):]
                r = NAMES.get(stem[:-3]) if stem.endswith('.nc') else None
                if r and r[0] == rel:
                    res[k].append(list(r))
                    try:
                        dig[k][f] = whole_h.digest_nc(os.path.join(base, f))
                    except Exception as e:
                        dig[k][f] = 'unreadable %s' % e
                else:
                    tmp[k] += 1
        return dict(res=[sorted(x) for x in res], tmp=tmp, dig=dig, other=other)

    def go(self, n, choose, mpi, every, only=None):
        """A run; (how it ended, snapshots after the tiles)."""
        if os.path.isdir(self.out):
            shutil.rmtree(self.out)
        base = run_h.child(self, stub=False, mpi=mpi)
        tiles = self.tiles if only is None else [self.tiles[only]]

        def main(rank, size, conn):
            import all_multipliers as am
            fakempi.hook_code(am.get_tiles, lambda a, k: [list(t) for t in tiles])
            orig = am.Multipliers.multipliers_calculate

            def calculate(obj, *a, **k):
                r = orig(obj, *a, **k)
                text = repr((a, k))
                t = [i for i, nm in enumerate(self.names) if repr(nm) in text]
                if len(t) == 1:
                    conn.call('event', 'tile', t[0], self.look(), time.monotonic_ns())
                return r
            am.Multipliers.multipliers_calculate = calculate
            if mpi and every:
                whole_h.preempt(conn, every)
            base(rank, size, conn)
        w = fakempi.World(n, choose, watch=fakempi.Watch(self.out) if n > 1 else None, timeout=300, limit=100000)
        with vlib.quiet():
            w.run(main)
        bad = [s for s in w.status.values() if s != 'ok']
        how = 'ok' if w.end == 'ok' and not bad else '%s %s' % (w.end, bad[:1])
        snaps = sorted(((e[4], e[2], e[3]) for e in w.log if e[1] == 'tile'), key=lambda x: x[0])
        return how, [x[1:] for x in snaps], self.look()


def record(ctx, i, job):
    rng = random.Random(job['seed'])
    n = job['n']
    while True:
        case = TidyCase(rng, n > 1)
        if n == 1 or case.kinds.count('full') > 1:
            break
    case.write(os.path.join(ctx.tmp, 'c%d' % i))
    ch = fakempi.holding(rng, rng.choice([.1, .3, .5])) if rng.random() < .7 else fakempi.priorities(rng, n, changes=rng.randint(1, 8), length=200)
    how, snaps, last = case.go(n, ch, n > 1 or rng.random() < .3, 1)
    elev, known = case.windows()
    r = dict(how=how, case=repr(dict(case.describe(), kinds=case.kinds, cells=case.cells, n=n)), elev=elev, known=known)
    at = {}
    steps = []

    def same(s):
        return [int(t not in at or s['dig'][t] == at[t]) for t in range(len(case.names))]
    for t, s in snaps:
        at.setdefault(t, s['dig'][t])
        steps.append(dict(t=t + 1, res=s['res'], tmp=s['tmp'], same=same(s)))
    r.update(steps=steps, last=dict(res=last['res'], tmp=last['tmp'], other=last['other'], same=same(last)), alone=[])
    live = [k for k in range(len(case.names)) if any(any(x) for x in elev[k])]
    if how == 'ok' and live:
        k = rng.choice(live)
        h, _, l2 = case.go(1, fakempi.random_choice(rng), False, 0, only=k)
        r['alone'].append([k + 1, int(h == 'ok' and l2['dig'][k] == last['dig'][k])])
    shutil.rmtree(case.d)
    return r


def run_c25(ctx):
    with vlib.quiet():
        import all_multipliers  # noqa: F401 (so that the processes need not)
    for f in ('keep-empty', 'no-skip', 'skip-known', 'sweep', 'stop'):
        if not ctx.quick or f in ('sweep', 'no-skip'):
            ctx.mc_must_fail('Tidy', dict(N=2, T=2, Fault=f), invariants=['DoneTidy', 'AllDone'])
    for n, t in [(2, 3)] if ctx.quick else [(1, 4), (2, 3), (3, 3), (2, 4)]:
        ctx.mc('Tidy', dict(N=n, T=t, Fault='none'), invariants=['DoneTidy', 'AllDone'], properties=[], min_states=1000)
    jobs = [dict(seed=ctx.rng.randint(0, 10 ** 9), n=[1, 3, 1, 3, 4, 6, 4, 3][i % 8]) for i in range(ctx.pick(28, 300))]
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, j: record(ctx, i, j), nproc=8)]
    ctx.sample({k: v for k, v in recs[0].items() if k != 'elev'})
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({r['case'] for r in recs}))
    ctx.count('tiles_watched', sum(len(r['steps']) for r in recs))
    ctx.count('empty_tiles', sum(1 for r in recs for z in r['elev'] if not any(any(x) for x in z)))
    ctx.validate('TidyTrace', recs)
