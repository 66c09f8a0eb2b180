"""
Recording of whole runs under controlled schedules (C07, C09, C10), with the
computation of a tile replaced by a stub that writes its files.
"""
import os
import random
import re
import shutil
import sys

import numpy as np

import conf
import fakempi
import rasters
import vlib
from rasters import gdal

DIRS = ['e', 'n', 'ne', 'nw', 's', 'se', 'sw', 'w']
FUNS = ['terrain', 'shielding', 'topographic']


def model(ctx):
    inv = ['RulesObeyed', 'EndsWell', 'NoLeftover', 'Progress']
    props = ['Terminates', 'RefinesPool']
    big = [(1, 3), (2, 2), (4, 2), (3, 4)] if ctx.quick else \
        [(1, 1), (1, 5), (2, 1), (2, 6), (3, 1), (3, 5), (4, 3), (4, 5), (5, 2), (5, 4), (6, 3)]
    for n, t in big:
        for sync in ((n + t) % 2 == 0,) if ctx.quick and (n, t) != (3, 4) else (False, True):
            ctx.mc('Run', dict(N=n, T=t, Sync=sync, Fault='none'), invariants=inv, properties=props)
    for f in ['all-prepare', 'convert-own', 'wait-for-all', 'stop-early', 'shared-part']:
        if not ctx.quick or f in dict(C07=['wait-for-all', 'stop-early'], C09=['all-prepare', 'convert-own'],
                                      C10=['shared-part']).get(ctx.id, []):
            ctx.mc_must_fail('Run', dict(N=4, T=2, Sync=False, Fault=f), invariants=inv)


class Setup:
    """A raster of nx x ny tiles of 2 x 3 cells, some of them empty."""

    def __init__(self, ctx, name, nx, ny, empty, origin=(143.0, -20.0), cells=(2, 3)):
        import all_multipliers as am
        self.d = ctx.dir(name)
        self.nx, self.ny, self.T = nx, ny, nx * ny
        self.out = os.path.join(self.d, 'out')
        cx, cy = cells
        arr = np.arange(1, nx * cx * ny * cy + 1, dtype=float).reshape(ny * cy, nx * cx)
        self.empty = [t + 1 for t in empty]
        for t in empty:
            i, j = divmod(t, ny)           # tiles are numbered down the columns
            arr[j * cy:(j + 1) * cy, i * cx:(i + 1) * cx] = 0
        self.dem = rasters.make(os.path.join(self.d, 'dem.tif'), nx * cx, ny * cy, 1. / cx, 1. / cy,
                                origin[0], origin[1], arr, 'f4')
        self.lc = rasters.make(os.path.join(self.d, 'lc.tif'), nx * cx, ny * cy, 1. / cx, 1. / cy,
                               origin[0], origin[1], arr % 3 + 1, 'i4')
        conf.write_table(os.path.join(self.d, 't.csv'), [(1, 2.0, 70.0), (2, .2, 85.0), (3, .02, 100.0)])
        self.cfg = conf.write_cfg(os.path.join(self.d, 'c.cfg'), self.out, self.dem, self.lc,
                                  os.path.join(self.d, 't.csv'), upwind=0.0,
                                  log=os.path.join(self.d, 'log', 'l.txt'))
        conf.use(self.cfg)
        with vlib.quiet():
            tg = am.TileGrid(0.0, self.dem)
            self.tiles = am.get_tiles(tg)
        if len(self.tiles) != self.T:
            raise Unexpected('%d tiles for a raster of %d degrees' % (len(self.tiles), self.T))
        self.names = [t[0] for t in self.tiles]
        # what the stub of the shielding leaves for each tile
        from utilities.nctools import save_multiplier
        self.tpl = os.path.join(self.d, 'tpl')
        os.makedirs(self.tpl)
        for k, t in enumerate(self.tiles):
            x0, y0, x1, y1 = t[2]
            lon = [x0 + (c + .5) * (x1 - x0) / cx for c in range(cx)]
            lat = [y0 + (r + .5) * (y1 - y0) / cy for r in range(cy)]
            with vlib.quiet():
                save_multiplier('Ms', np.full((cy, cx), 1. / (k + 2), 'f4'), lat, lon,
                                os.path.join(self.tpl, t[0] + '.nc'))

    def stale(self):
        """Leftovers of an earlier run in the output folder."""
        for s in ('terrain', 'M3', 'M3_max', 'shielding/old'):
            os.makedirs(os.path.join(self.out, s))
        for f in ('terrain/e1s1_mz_n.nc', 'M3/e1s1.tif', 'M3_max/wind-multipliers.vrt', 'x_dem.img', 'shielding/old/a'):
            open(os.path.join(self.out, f), 'w').write('stale')
        open(os.path.join(self.out, 'shielding', 'e9.0s9.0_ms_n.nc'), 'w').write('stale')

    def shielding(self, t):
        """The shielding result of a tile."""
        nm = self.names[t - 1]
        for d in DIRS:
            shutil.copyfile(os.path.join(self.tpl, nm + '.nc'),
                            os.path.join(self.out, 'shielding', '%s_ms_%s.nc' % (nm, d)))

    def tile_of_extent(self, args):
        for a in args:
            if isinstance(a, (tuple, list)) and len(a) == 4:
                for k, t in enumerate(self.tiles):
                    if all(abs(x - y) < 1e-3 for x, y in zip(a, t[2])):
                        return k + 1
        return 0

    def classify(self, path, stale):
        p = os.path.normpath(path)
        base, folder = os.path.basename(p), os.path.dirname(p)
        tile = 0
        for k, nm in sorted(enumerate(self.names), key=lambda x: -len(x[1])):
            if base.startswith(nm):
                tile = k + 1
                break
        if base.endswith('.vrt'):
            return 'vrt', 0
        if folder == 'M3' and tile and base.endswith('.tif'):
            return 'm3', tile
        if folder == 'M3_max' and tile and base.endswith('.tif'):
            return 'max', tile
        if tile and folder in FUNS and base.endswith('.nc'):
            return 'res', tile
        if base.endswith('.xml'):
            return None, 0
        if tile:
            return 'tmp', tile
        return 'other', 0


class Unexpected(Exception):
    """The code does not even give the setting the check needs."""


def vrt_tiles(fn, setup):
    """Tiles listed in a mosaic (in all its bands alike), if they exist."""
    if not os.path.exists(fn):
        return []
    import xml.etree.ElementTree as ET
    lists = []
    for band in ET.parse(fn).getroot().findall('VRTRasterBand'):
        res = []
        for e in band.iter('SourceFilename'):
            base = os.path.splitext(os.path.basename(e.text))[0]
            p = os.path.join(os.path.dirname(fn), e.text)
            ok = base in setup.names and os.path.exists(p) and \
                os.path.realpath(os.path.dirname(p)) == os.path.realpath(os.path.dirname(fn))
            res.append(setup.names.index(base) + 1 if ok else 0)
        lists.append(res)
    if any(sorted(x) != sorted(lists[0]) for x in lists):
        return [0]
    return lists[0] if lists else []


def child_convert(setup, mpi=True):
    """Conversion alone, as the main of utilities/mpi_runner.py does."""
    def main(rank, size, conn):
        if mpi:
            fakempi.install(fakempi.Comm(conn, rank, size))
        else:
            fakempi.forbid()
        os.chdir(setup.d)
        from utilities import mpi_runner, parallel
        from utilities.convert import create_sub_dirs_for_convert
        comm = parallel.attempt_parallel().COMM_WORLD
        if comm.rank == 0:
            create_sub_dirs_for_convert(setup.out)
        mpi_runner.parallelise_convert_on_tiles(setup.out, comm)
    return main


def child(setup, stub=True, mpi=True, audit=True):
    """What a rank does: the program, as its main() would."""
    def main(rank, size, conn):
        import all_multipliers as am
        import terrain.terrain_mult
        import shielding.shield_mult
        import topographic.topo_mult

        if stub:
            def make(fun):
                def rep(a, k):
                    args = list(a) + list(k.values())
                    t = setup.tile_of_extent(args)
                    ready = int(all(os.path.exists(x) and gdal.Open(x) is not None
                                    for x in args if isinstance(x, str)))
                    conn.call('event', 'call', fun, t, ready)
                    if fun == 'shielding':
                        setup.shielding(t)
                    conn.call('event', 'ret', fun, t)
                return rep
            fakempi.hook_code(terrain.terrain_mult.terrain, make('terrain'))
            fakempi.hook_code(shielding.shield_mult.shield, make('shielding'))
            fakempi.hook_code(topographic.topo_mult.topomult, make('topographic'))
        if mpi:
            fakempi.install(fakempi.Comm(conn, rank, size))
        else:
            fakempi.forbid()
        if audit:
            fakempi.audit_fs(setup.out, conn)
        os.chdir(setup.d)
        sys.argv = ['all_multipliers.py', '-c', setup.cfg]
        am.run()
    return main


def execute(setup, n, choose, sync=False, synccoll=False, stale=False, mpi=True, only_convert=False):
    """One run; its record."""
    if os.path.isdir(setup.out):
        shutil.rmtree(setup.out)
    if only_convert:
        os.makedirs(os.path.join(setup.out, 'shielding'))
        for k, nm in enumerate(setup.names):
            if k + 1 not in setup.empty:
                setup.shielding(k + 1)
    if stale:
        setup.stale()
    w = fakempi.Watch(setup.out)
    before = dict(w.cur)
    world = fakempi.World(n, choose, sync, synccoll, watch=w)
    world.run(child_convert(setup, mpi) if only_convert else child(setup, mpi=mpi))
    ev = []
    known = set() if only_convert else set(before)     # things from before the run, not yet gone
    for e in world.log:
        r, k = e[0], e[1]
        if k in ('new', 'del', 'rep', 'mod'):
            path = e[2]
            if path in known and k in ('del', 'rep'):
                c, t = 'stale', 0
                known.discard(path)
            elif k == 'mod' and path in known:
                continue
            elif path == '.' or path in FUNS + ['M3', 'M3_max']:
                c, t = 'dir', 0
            else:
                c, t = setup.classify(path, known)
            if c:
                ev.append(dict(k=k, r=r, c=c, t=t))
        elif k == 'call':
            ev.append(dict(k='call', r=r, f=e[2], t=e[3], ready=e[4]))
        elif k == 'ret':
            ev.append(dict(k='ret', r=r, f=e[2], t=e[3]))
        elif k == 'exit':
            ev.append(dict(k='exit', r=r, ok=int(e[2] == 'ok')))
    rec = dict(n=n, T=setup.T, pre=int(only_convert), empty=setup.empty, events=ev, why=[s for s in world.status.values() if s != 'ok'],
               fin=dict(how=world.end.split(':')[0], stale=len([p for p in known if p not in
                        ('.', 'terrain', 'shielding', 'topographic', 'M3', 'M3_max') and
                        os.path.lexists(os.path.join(setup.out, p))])), end=world.end)
    out = setup.out

    def listing(folder, suffix):
        p = os.path.join(out, folder)
        if not os.path.isdir(p):
            return []
        return [setup.names.index(f[:-len(suffix)]) + 1 if f[:-len(suffix)] in setup.names else 0
                for f in sorted(os.listdir(p)) if f.endswith(suffix)]
    rec['fin'].update(shielded=listing('shielding', '_ms_n.nc'), m3=listing('M3', '.tif'), max=listing('M3_max', '.tif'),
                      vrt=vrt_tiles(os.path.join(out, 'M3', 'wind-multipliers.vrt'), setup),
                      vrtmax=vrt_tiles(os.path.join(out, 'M3_max', 'wind-multipliers.vrt'), setup))
    return rec


# --------------------------------------------------------------------- drivers
def pool(ctx, jobs, work, nproc=6):
    """work(i, job) for every job, in forked processes; results in order."""
    import pickle
    nproc = min(nproc, len(jobs)) or 1
    pids = []
    for k in range(nproc):
        fn = os.path.join(ctx.tmp, 'pool%d' % k)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                res = []
                for i in range(k, len(jobs), nproc):
                    try:
                        res.append((i, 'ok', work(i, jobs[i])))
                    except Unexpected as e:
                        res.append((i, 'unexpected', str(e)))
                    except BaseException:
                        import traceback
                        res.append((i, 'error', traceback.format_exc()))
                with open(fn, 'wb') as f:
                    pickle.dump(res, f)
            finally:
                os._exit(0)
        pids.append((pid, fn))
    out = {}
    for pid, fn in pids:
        os.waitpid(pid, 0)
        if not os.path.exists(fn):
            raise vlib.MachineryError('a harness process died')
        for i, st, v in pickle.load(open(fn, 'rb')):
            if st == 'error':
                raise vlib.MachineryError(v)
            out[i] = (st, v)
        os.remove(fn)
    return [out[i] for i in range(len(jobs))]


LAYOUTS = [(1, 1, []), (1, 1, [0]), (2, 1, []), (1, 2, [0]), (2, 2, []), (2, 2, [1]), (2, 2, [0, 1, 2, 3]),
           (3, 1, [1]), (3, 2, [0, 5]), (1, 5, []), (3, 2, []), (2, 1, [0, 1]), (4, 1, [3])]


def jobs_random(ctx, count):
    rng = ctx.rng
    for i in range(count):
        lay = LAYOUTS[i % len(LAYOUTS)]
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6]) if i % 7 else 1
        if i % 8 == 5:      # many processes, fewer or more of them than tiles
            lay, n = rng.choice([(5, 3, [2, 7]), (4, 3, []), (3, 2, []), (13, 1, [])]), rng.choice([8, 11, 12, 14, 18])
        yield dict(lay=lay, n=n, sync=rng.random() < .4, synccoll=rng.random() < .4, stale=rng.random() < .5,
                   mpi=not (n == 1 and rng.random() < .5), seed=rng.randint(0, 10 ** 9),
                   how=rng.choice(['random', 'prio', 'prio']))


def jobs_generated(ctx, configs):
    """Orders of completion enumerated by TLC."""
    for nw, t, limit in configs:
        g = ctx.generate('DispatchGen', dict(NWorkers=nw, NTiles=t), invariants=['EachTileOnce'])
        ctx.rng.shuffle(g)
        lay = {1: (1, 1, []), 2: (2, 1, []), 3: (3, 1, []), 4: (2, 2, []), 5: (5, 1, []), 6: (3, 2, [])}[t]
        for b in g[:limit]:
            yield dict(lay=lay, n=nw + 1, sync=ctx.rng.random() < .5, synccoll=False, stale=False, mpi=True,
                       seed=ctx.rng.randint(0, 10 ** 9), how='order', order=b['order'])


def chooser(job, n):
    rng = random.Random(job['seed'])
    if job['how'] == 'order':
        return fakempi.by_completion(job['order'], rng)
    if job['how'] == 'prio':
        return fakempi.priorities(rng, n, changes=rng.randint(1, 8))
    return fakempi.random_choice(rng)


def runs(ctx, jobs, cells=(2, 3)):
    setups = {}

    def work(i, job):
        key = (job['lay'][0], job['lay'][1], tuple(job['lay'][2]), job.get('cells', cells))
        if key not in setups:
            setups[key] = Setup(ctx, 's%d_%d' % (os.getpid(), len(setups)), *job['lay'], cells=job.get('cells', cells))
        r = execute(setups[key], job['n'], chooser(job, job['n']), job['sync'], job['synccoll'], job['stale'], job['mpi'],
                    job.get('convert', False))
        if 1 in job.get('cells', cells):
            r['knownkey'] = 'single-row-or-column-tile'
        r['job'] = repr(job)
        r['prop'] = ctx.id
        return r
    return judge(ctx, jobs, pool(ctx, jobs, work))


def judge(ctx, jobs, results):
    recs = []
    for job, (st, v) in zip(jobs, results):
        if st == 'unexpected':
            ctx.violation('Unexpected: ' + v, job)
        else:
            recs.append(v)
    if not recs:
        return
    ctx.sample({k: v for k, v in recs[0].items() if k != 'events'})
    ctx.count('evaluations', len(recs))
    ctx.count('events', sum(len(r['events']) for r in recs))
    ctx.count('distinct_nontrivial', len({repr(r['events']) for r in recs}))

    def reject(i, why):
        key = None
        if recs[i].get('knownkey') and set(re.findall(r'"(C10 [^"]*)"', why.replace("'", '"'))) <= \
                {'C10 MosaicOfCombined', 'C10 MosaicOfMaximum'} and 'ALL' not in why:
            key = recs[i]['knownkey']
        ctx.violation(why, recs[i], key)
    ctx.validate('RunTrace', recs, on_reject=reject)


def run_c07(ctx):
    model(ctx)
    jobs = list(jobs_random(ctx, ctx.pick(36, 600)))
    jobs += list(jobs_generated(ctx, ctx.pick([(2, 4, 6), (3, 4, 8)],
                                              [(2, 4, 16), (2, 6, 60), (3, 4, 60), (3, 5, 100), (4, 6, 150)])))
    runs(ctx, jobs)


def run_c09(ctx):
    model(ctx)
    jobs = list(jobs_random(ctx, ctx.pick(46, 800)))
    for i, j in enumerate(jobs):
        if i % 4:
            j['stale'] = True
        if i % 3 == 0 and j['n'] == 1:
            j['n'] = 3
            j['mpi'] = True
    runs(ctx, jobs)


def run_c10(ctx):
    model(ctx)
    rng = ctx.rng
    jobs = list(jobs_random(ctx, ctx.pick(16, 300)))
    lays = LAYOUTS + [(7, 1, [2]), (1, 6, [])]
    for i in range(ctx.pick(40, 700)):
        n = rng.choice([1, 1, 2, 3, 3, 4, 5, 6]) if i % 10 else rng.choice([8, 11, 13])
        jobs.append(dict(lay=lays[i % len(lays)], n=n, sync=rng.random() < .4, synccoll=rng.random() < .4, stale=False,
                         mpi=not (n == 1 and rng.random() < .7), seed=rng.randint(0, 10 ** 9), convert=True,
                         how=rng.choice(['random', 'prio'])))
    for cells in ((1, 3), (2, 1), (1, 1)):
        jobs.append(dict(lay=(2, 1, []), n=1, sync=False, synccoll=False, stale=False, mpi=False, seed=1, convert=True,
                         how='random', cells=cells))
    runs(ctx, jobs)
