"""Runs after runs that were killed (C35)."""
import os
import random
import shutil
import signal
import sys
import time

import conf
import fakempi
import files_h
import preproc_h
import run_h
import vlib
import whole_h


class Killed(Exception):
    pass


class Version(whole_h.FineCase):
    """A set of inputs; all versions share the output folder."""

    def __init__(self, rng):
        super().__init__(rng)
        if rng.random() < .5:      # names of its own
            k = rng.randint(1, 3)
            for t in self.tiles:
                t[0] = t[0].replace('e', 'e%d.' % k)

    def write(self, d, out):
        super().write(d)
        self.out = out
        conf.write_cfg(self.cfg, out, self.dem, self.lc, os.path.join(d, 't.csv'), upwind=self.up,
                       log=os.path.join(d, 'log', 'l.txt'))
        return self


def mortal(run, after, seconds):
    """The program, which dies after so many calls of functions of its own, or
    seconds."""
    root = vlib.REPO.rstrip('/') + '/'
    mon = sys.monitoring
    n = [0]

    def start(co, offset):
        if not co.co_filename.startswith(root):
            return mon.DISABLE
        n[0] += 1
        if n[0] == after:
            os.kill(os.getpid(), signal.SIGKILL)
    if after:
        mon.use_tool_id(3, 'verif')
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
    if seconds:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.setitimer(signal.ITIMER_REAL, seconds)
    run()


def counted(run, fn):
    """The program; the number of calls is left in a file."""
    root = vlib.REPO.rstrip('/') + '/'
    mon = sys.monitoring
    n = [0]

    def start(co, offset):
        if not co.co_filename.startswith(root):
            return mon.DISABLE
        n[0] += 1
    mon.use_tool_id(3, 'verif')
    mon.register_callback(3, mon.events.PY_START, start)
    mon.set_events(3, mon.events.PY_START)
    run()
    with open(fn, 'w') as f:
        f.write(str(n[0]))


def serial(run, rng, calls, seconds, how):
    """An attempt: how it ended."""
    if how == 'whole':
        return whole_h.forked(run) or 'ok'
    after = rng.randint(1, calls) if how == 'call' else 0
    if how == 'call' and rng.random() < .5:     # in the beginning or the end
        after = rng.choice([rng.randint(1, 1 + calls // 10), calls - rng.randint(0, calls // 10)])
    err = whole_h.forked(mortal, run, after, seconds * rng.uniform(.02, 1) if how == 'time' else 0)
    if err and err.startswith('process ended with status') and err.split()[-1] in ('9', '14'):
        return 'killed'
    return err or 'ok'


def parallel(case, rng, n, steps):
    ch = fakempi.holding(rng, rng.choice([.1, .3])) if rng.random() < .5 else fakempi.random_choice(rng)
    left = [steps or 10 ** 9]

    def choose(w, alts):
        left[0] -= 1
        if left[0] < 0:
            raise Killed()
        return ch(w, alts)
    try:
        return whole_h.scheduled(case, n, choose, False, False, 3)
    except Killed:
        return 'killed'


def record(ctx, i, job):
    rng = random.Random(job)
    d = os.path.join(ctx.tmp, 'r%d' % i)
    out = os.path.join(d, 'out')
    os.makedirs(d)
    vs, fresh, size = [], [], []
    names, contents = whole_h.Ids(), whole_h.Ids()

    def files():
        st, x = whole_h.apart(whole_h.digests, out)
        return (st == 'ok', sorted([names[f], contents[(f, y)]] for f, y in x.items()) if st == 'ok' else x)
    for v in range(2):
        case = Version(rng).write(os.path.join(d, 'v%d' % v), out)
        t = time.time()
        err = whole_h.forked(counted, lambda: whole_h.serial(case), os.path.join(d, 'n'))
        if err:
            return dict(case=repr(case.describe()), fresh=[[]], runs=[dict(ver=1, how=err, files=[])], names={})
        vs.append(case)
        size.append((int(open(os.path.join(d, 'n')).read()), time.time() - t))
        ok, fs = files()
        if not ok:
            return dict(case=repr(case.describe()), fresh=[[]], runs=[dict(ver=1, how='unreadable: ' + fs, files=[])], names={})
        fresh.append(fs)
        shutil.rmtree(out)
    runs = []

    def lose():
        """Someone tidies up what is there, or puts something into it."""
        subs = ['terrain', 'shielding', 'topographic', 'M3', 'M3_max']
        for s in subs if rng.random() < .3 else rng.sample(subs, rng.randint(1, 4)):
            shutil.rmtree(os.path.join(out, s), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        for f in rng.sample(['notes.txt', 'e143.0s20.0_dem.img', 'old/M3/x.tif', 'M3/e1s1.tif'], rng.randint(0, 2)):
            os.makedirs(os.path.dirname(os.path.join(out, f)), exist_ok=True)
            with open(os.path.join(out, f), 'w') as o:
                o.write('x')

    def attempt(v, how):
        case = vs[v]
        if rng.random() < .25:
            lose()
        if how == 'parallel' or how == 'parallel whole':
            h = parallel(case, rng, rng.choice([2, 3, 4]), rng.randint(1, 600) if how == 'parallel' else 0)
        else:
            h = serial(lambda: whole_h.serial(case), rng, size[v][0], size[v][1], how)
        r = dict(ver=v + 1, how=h, files=[], attempt=how)
        if h == 'ok':
            ok, fs = files()
            r.update(files=fs) if ok else r.update(how='unreadable: ' + fs)
        runs.append(r)
    for _ in range(3):
        for _ in range(rng.choice([1, 1, 2, 3])):
            attempt(rng.randrange(2), rng.choice(['call', 'call', 'time', 'parallel', 'parallel', 'whole']))
        attempt(rng.randrange(2), rng.choice(['whole', 'whole', 'parallel whole']))
    shutil.rmtree(d)
    return dict(case=repr([c.describe() for c in vs]), fresh=fresh, runs=runs, names={str(v): f for f, v in names.items()})


def record_small(ctx, i, job, P):
    """The same of the other programs: files that are there are replaced."""
    rng = random.Random(job)
    d = os.path.join(ctx.tmp, 'q%d' % i)
    seeds = [rng.random(), rng.random()]
    names, contents = whole_h.Ids(), whole_h.Ids()
    p = P(random.Random(seeds[0]), d)
    fresh, size, runs = [], [], []

    def files():
        st, x = whole_h.apart(p.outputs)
        return (st == 'ok', sorted([names[f], contents[(f, y)]] for f, y in x.items()) if st == 'ok' else x)

    def bad(text):
        return dict(case=P.name + repr(seeds), fresh=[[]], runs=[dict(ver=1, how=text, files=[])], names={})
    for v in range(2):
        p.rng = random.Random(seeds[v])
        p.make()
        t = time.time()
        err = whole_h.forked(counted, p.serial, os.path.join(d, 'n'))
        if err:
            return bad(err)
        size.append((int(open(os.path.join(d, 'n')).read()), time.time() - t))
        ok, fs = files()
        if not ok:
            return bad('unreadable: ' + fs)
        fresh.append(fs)
        p.clean()
    last = ''
    while len(runs) < 6 or last != 'whole':
        v = rng.randrange(2)
        last = rng.choice(['call', 'time', 'whole', 'whole'])
        p.rng = random.Random(seeds[v])
        p.make()
        h = serial(p.serial, rng, size[v][0], size[v][1], last)
        r = dict(ver=v + 1, how=h, files=[], attempt=last)
        if h == 'ok':
            ok, fs = files()
            r.update(files=fs) if ok else r.update(how='unreadable: ' + fs)
        runs.append(r)
    shutil.rmtree(d)
    return dict(case=P.name + repr(seeds), fresh=fresh, runs=runs, names={str(v): f for f, v in names.items()})


def run_c35(ctx):
    with vlib.quiet():
        import all_multipliers  # noqa: F401
    inv = ['AsFresh', 'NeverMixed']
    c = dict(Tiles={1, 2} if ctx.quick else {1, 2, 3}, MaxRuns=ctx.pick(3, 4))
    ctx.mc('Restart', dict(c, Fault='none'), invariants=inv, min_states=500)
    for f in ('keep', 'skip', 'known', 'resume'):
        ctx.mc_must_fail('Restart', dict(c, Fault=f), invariants=['AsFresh'])
    jobs = [ctx.rng.randint(0, 10 ** 9) for _ in range(ctx.pick(8, 160))]
    small = [ctx.rng.randint(0, 10 ** 9) for _ in range(ctx.pick(24, 400))]
    preproc_h.preload()

    def one(i, j):
        return record(ctx, i, j) if i < len(jobs) else record_small(ctx, i, j, files_h.PROGS[1 + i % 3])
    recs = [v for _, v in run_h.pool(ctx, jobs + small, one, nproc=8)]
    ctx.sample(dict(recs[0], names=None))
    ctx.count('evaluations', sum(len(r['runs']) for r in recs))
    ctx.count('killed', sum(x['how'] == 'killed' for r in recs for x in r['runs']))
    ctx.count('distinct_nontrivial', len({r['case'] for r in recs}))
    ctx.validate('RestartTrace', recs)
