"""The files that the programs write (C36), and runs over what is there (C35)."""
import hashlib
import os
import random
import runpy
import shutil
import signal
import sys

import numpy as np

import conf
import fakempi
import preproc_h
import rasters
import run_h
import vlib
import whole_h
from rasters import gdal

j = os.path.join


def snap(d):
    """All below a folder: what it is."""
    r = {}
    for base, dirs, files in os.walk(d):
        for f in dirs:
            r[os.path.relpath(j(base, f), d)] = 'folder %o' % os.stat(j(base, f)).st_mode
        for f in files:
            p = j(base, f)
            st = os.lstat(p)
            h = hashlib.sha1(open(p, 'rb').read()).hexdigest() if os.path.isfile(p) else os.readlink(p)
            r[os.path.relpath(p, d)] = '%o %d %s' % (st.st_mode, st.st_size, h)
    return r


def layers(fn):
    import fiona
    with fiona.open(fn) as o:
        return hashlib.sha1(repr((o.schema, str(o.crs), [(f['geometry'] and (f['geometry']['type'], f['geometry']['coordinates']),
                                                         dict(f['properties'])) for f in o])).encode()).hexdigest()


class Prog:
    """A program with its inputs in d/in, run in d/cwd."""

    def __init__(self, rng, d):
        self.rng, self.d, self.plain = rng, d, False
        for s in ('in', 'cwd', 'o', 'tmp'):
            os.makedirs(j(d, s), exist_ok=True)
        self.make()

    def begin(self):
        os.environ['TMPDIR'] = j(self.d, 'tmp')
        os.environ['CPL_TMPDIR'] = j(self.d, 'tmp')
        import tempfile
        tempfile.tempdir = None
        os.chdir(j(self.d, 'cwd'))

    def serial(self):
        self.begin()
        fakempi.forbid()
        if self.plain:     # as a user who may only read the inputs
            for s in ('cwd', 'o', 'tmp'):
                for base, dirs, files in os.walk(j(self.d, s)):
                    for f in [base] + [j(base, f) for f in files]:
                        os.chown(f, 65534, 65534)
            os.chmod(self.d, 0o755)
            become()
            os.environ['HOME'] = j(self.d, 'tmp')
        self.main()

    def role(self, p):
        """Of a file that was not there before, or that was changed."""
        top = p.split(os.sep)[0]
        if p.endswith('.log') and top == 'cwd':
            return 'log'
        return self.own(p)

    def other(self, p):
        return 'input' if p.startswith('in' + os.sep) else 'elsewhere'


def any_format(rng, fn):
    """The raster, in one of several formats."""
    k = rng.choice(['tif', 'tif', 'img', 'envi', 'asc'])
    if k == 'tif':
        return fn
    base = os.path.splitext(fn)[0]
    to = base + dict(img='.img', envi='.bin', asc='.asc')[k]
    if k == 'asc':
        ds = gdal.Open(fn)
        gt = ds.GetGeoTransform()
        if abs(gt[1] + gt[5]) > 1e-12:
            return fn
        ds = None
    ds = gdal.Translate(to, fn, format=dict(img='HFA', envi='ENVI', asc='AAIGrid')[k])
    ds = None
    os.remove(fn)
    for f in (to + '.aux.xml', fn + '.aux.xml'):
        if os.path.exists(f) and k != 'envi' and rng.random() < .5:
            os.remove(f)
    return to


class Multipliers(Prog):
    name = 'multipliers'
    needs = ['out']

    def make(self):
        rng, d = self.rng, self.d
        self.case = c = whole_h.FineCase(rng)
        c.dtype = rng.choice(['f4', 'i4'])
        c.write(j(d, 'in'))
        nd = rng.choice([None, None, -9999, 0])
        if nd is not None:
            ds = gdal.Open(c.dem, gdal.GA_Update)
            ds.GetRasterBand(1).SetNoDataValue(nd)
            ds = None
        dem, lc = any_format(rng, c.dem), any_format(rng, c.lc)
        self.folder = rng.choice(['out', 'out', 'out[1]', 'o u.t', 'out*', 'd\u00e9j\u00e0'])
        self.out = j(d, 'o', self.folder)
        logs = j(d, 'o', rng.choice(['log', 'new']))
        os.makedirs(j(d, 'o', 'log'))
        cwd = j(d, 'cwd')

        def path(p):
            return os.path.relpath(p, cwd) if rng.random() < .4 else p
        c.cfg = conf.write_cfg(j(d, 'in', 'c.cfg'), path(self.out), path(dem), path(lc), path(j(d, 'in', 't.csv')), upwind=c.up,
                               log=path(j(logs, 'l.txt')))
        self.cfg = path(c.cfg)

    def main(self):
        import all_multipliers as am
        self.case.give_tiles()
        sys.argv = ['all_multipliers.py', '-c', self.cfg]
        am.run()

    def parallel(self, n, choose):
        base = run_h.child(self.case, stub=False, audit=False)

        def main(rank, size, conn):
            os.makedirs(self.case.d, exist_ok=True)
            self.case.give_tiles()
            self.begin()
            cwd = os.getcwd()
            os.chdir, chdir = lambda p: chdir(cwd if p == self.case.d else p), os.chdir
            self.case.cfg = self.cfg
            base(rank, size, conn)
        w = fakempi.World(n, choose, timeout=300, limit=100000)
        with vlib.quiet():
            w.run(main)
        bad = [s for s in w.status.values() if s != 'ok']
        return None if w.end == 'ok' and not bad else '%s %s' % (w.end, bad[:1])

    def own(self, p):
        if p == j('o', self.folder) or p.startswith(j('o', self.folder) + os.sep):
            return 'out' if os.path.splitext(p)[1] in ('', '.nc', '.tif', '.vrt') or os.path.isdir(j(self.d, p)) else 'leftover'
        if p.split(os.sep)[:2] in (['o', 'log'], ['o', 'new']):
            return 'log'
        return self.other(p)

    def outputs(self):
        return whole_h.digests(self.out)

    def clean(self):
        shutil.rmtree(self.out)


class Convert(Prog):
    """utilities/mpi_runner.py on the multipliers of some tiles."""
    name = 'convert'
    needs = ['m3']

    def make(self, seed=None):
        from utilities.nctools import save_multiplier
        rng = self.rng
        self.path = j(self.d, 'o', 'out')
        with vlib.quiet():
            conf.use(conf.write_cfg(j(self.d, 'in', 'c.cfg'), self.path))
            nx, ny = rng.randint(1, 4), rng.randint(1, 4)
            if not hasattr(self, 'tiles'):
                self.tiles = ['e14%d.0s2%d.0' % (k, k) for k in range(rng.randint(1, 3))]
                self.nx, self.ny = max(2, nx), max(2, ny)
            gone = rng.choice(['terrain', 'topographic', None, None])
            for fun in run_h.FUNS:
                os.makedirs(j(self.path, fun), exist_ok=True)
                for f in os.listdir(j(self.path, fun)):
                    os.remove(j(self.path, fun, f))
                if fun == gone:
                    continue
                for k, t in enumerate(self.tiles):
                    for dr in run_h.DIRS:
                        u = whole_h.UNIT[fun]
                        save_multiplier(u[0].upper() + u[1:], np.array([[rng.uniform(.5, 1.5) for _ in range(self.nx)]
                                                                       for _ in range(self.ny)], 'f4'),
                                        [-20 - k - (r + .5) * .25 for r in range(self.ny)],
                                        [140 + k + (c + .5) * .25 for c in range(self.nx)],
                                        j(self.path, fun, '%s_%s_%s.nc' % (t, u, dr)))

    def main(self):
        path = self.path if self.rng.random() < .5 else os.path.relpath(self.path)
        sys.argv = ['utilities/mpi_runner.py', '-p', path]
        runpy.run_path(j(vlib.REPO, 'utilities', 'mpi_runner.py'), run_name='__main__')

    def own(self, p):
        if p.split(os.sep)[:3] in (['o', 'out', 'M3'], ['o', 'out', 'M3_max']):
            return 'm3'
        return 'input' if p.startswith(j('o', 'out')) else self.other(p)

    def outputs(self):
        return {f: x for f, x in whole_h.digests(self.path).items() if f.startswith('M3')}

    def clean(self):
        for s in ('M3', 'M3_max'):
            shutil.rmtree(j(self.path, s), ignore_errors=True)


class Preprocess(Prog):
    name = 'pre_process'
    needs = ['shape', 'raster']

    def make(self):
        rng, d = self.rng, j(self.d, 'in')
        g, ss, ps, crop = preproc_h.scene(rng)
        ss, sname, lname, mask = preproc_h.lay(rng, d, g, ss, ps, crop)
        topo = any_format(rng, rasters.make(j(d, 'dem.tif'), 3, 2, 1., 1., 143., -20., [[1] * 3] * 2))
        cfg = self.cfg = j(d, 'c.cfg')
        with open(cfg, 'w') as f:
            f.write('[Preprocessing]\nsettlement_data = %s\nsettlement_cat = %s\nland_use_data = %s\nland_use_cat = %s\n'
                    'crop_mask = %s\noutput_shapefile = %s\noutput_rasterized = %s\ninput_topo = True\n[inputValues]\n'
                    'dem_data = %s\n' % (j(d, 's.shp'), sname, j(d, 'l.shp'), lname, mask, j(self.d, 'o', 'merged.shp'),
                                         j(self.d, 'o', 'out.tiff'), topo))

    def main(self):
        preproc_h.script('pre_process.py', '-c', self.cfg)

    def own(self, p):
        if p.startswith(j('o', 'merged.')):
            return 'shape'
        return 'raster' if p.startswith(j('o', 'out.tiff')) else self.other(p)

    def outputs(self):
        return {'shape': layers(j(self.d, 'o', 'merged.shp')), 'raster': whole_h.digest_raster(j(self.d, 'o', 'out.tiff'))}

    def clean(self):
        shutil.rmtree(j(self.d, 'o'))
        os.makedirs(j(self.d, 'o'))


class Rasterize(Prog):
    name = 'rasterize'
    needs = ['raster']

    def make(self):
        rng, d = self.rng, j(self.d, 'in')
        g = preproc_h.Grid(rng)
        g.W, g.H = max(2, g.W), max(2, g.H)
        rasters.make(j(d, 'topo.tif'), g.W, g.H, g.pw, g.ph, g.x0, g.y0,
                     [[rng.randint(1, 900) for _ in range(g.W)] for _ in range(g.H)], rng.choice(['f4', 'i4', 'i2']),
                     nodata=rng.choice([None, -9999, 0]), epsg=g.epsg)
        fs = [(preproc_h.draw(rng, g.W, g.H), rng.randint(1, 900)) for _ in range(rng.choice([1, 2, 3, 5]))]
        preproc_h.write(j(d, 'l.shp'), {'CAT': 'int', 'OTHER': 'int'}, [(g.on_map(p), {'CAT': c, 'OTHER': 3}) for p, c in fs],
                        epsg=g.epsg)
        self.args = ['-i', j(d, 'l.shp'), '-t', j(d, 'topo.tif')]
        self.crop = rng.random() < .7
        if self.crop:
            from shapely.geometry import box
            x1, y1 = rng.randint(0, g.W - 1), rng.randint(0, g.H - 1)
            x2, y2 = rng.randint(x1 + 1, g.W), rng.randint(y1 + 1, g.H)
            preproc_h.write(j(d, 'm.shp'), {'A': 'str:5'}, [(g.on_map(box(8 * x1, 8 * y1, 8 * x2, 8 * y2)), {'A': 'x'})], epsg=g.epsg)
            self.args += ['-c', j(d, 'm.shp')]

    def main(self):
        preproc_h.script('rasterize.py', *self.args)

    def own(self, p):
        names = [j('cwd', 'test.tiff')]
        if self.crop:
            names += [j('cwd', 'test_crop.tiff'), j('in', 'topo_crop.tif')]
        return 'raster' if p.startswith(tuple(names)) else self.other(p)

    def outputs(self):
        fs = [j('cwd', 'test.tiff')] + ([j('cwd', 'test_crop.tiff'), j('in', 'topo_crop.tif')] if self.crop else [])
        return {f: whole_h.digest_raster(j(self.d, f)) for f in fs}

    def clean(self):
        shutil.rmtree(j(self.d, 'cwd'))
        os.makedirs(j(self.d, 'cwd'))
        if self.crop:
            os.remove(j(self.d, 'in', 'topo_crop.tif'))


PROGS = [Multipliers, Convert, Preprocess, Rasterize]


# ----------------------------------------------------------------------- C36
def become():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)
    for f in ('pre_process.py', 'rasterize.py', 'utilities/mpi_runner.py', 'all_multipliers.py', 'utilities/config.py'):
        open(j(vlib.REPO, f)).close()


def reachable(d):
    """Any user can read the code and get to d, and we can be another."""
    p = os.path.dirname(d)
    if os.stat(p).st_uid == os.getuid() and p.startswith(os.path.realpath(os.environ.get('TMPDIR', '/tmp'))):
        os.chmod(p, 0o711)
    for x in (p, vlib.REPO):
        while len(x) > 1:
            if not os.stat(x).st_mode & 1:
                return False
            x = os.path.dirname(x)
    return whole_h.forked(become) is None


def record_c36(ctx, i, job):
    rng = random.Random(job)
    d = os.path.realpath(j(ctx.tmp, 'f%d' % i))
    P = PROGS[i % 4] if i % 3 else Multipliers
    p = P(rng, d)
    for f in ('in/readme.txt', 'cwd/data.csv', 'o/keep.tif', 'in/e143.0s20.0.img', 'o/out1/shielding/a.xml', 'o/out2/a.aux.xml',
              'o/out2/shielding/a.aux.xml'):
        os.makedirs(os.path.dirname(j(d, f)), exist_ok=True)
        with open(j(d, f), 'w') as o:
            o.write('mine')
    r = dict(prog=P.name, exc=0, writes=[], n=1, needs=P.needs)
    conf0 = j(vlib.REPO, 'multiplier_conf.cfg')
    base = open(conf0, 'rb').read()
    before = snap(d)
    if P is Multipliers and rng.random() < .5:
        r['n'] = rng.choice([2, 3])
        err = p.parallel(r['n'], fakempi.holding(rng, .2))
    else:
        p.plain = rng.random() < .5 and not getattr(p, 'crop', False) and reachable(d)
        r['plain'] = int(p.plain)
        err = whole_h.forked(p.serial)
    after = snap(d)
    if err:
        r.update(exc=1, msg=err)
    for f in sorted(set(before) | set(after)):
        a, b = before.get(f), after.get(f)
        if a != b:
            r['writes'].append([p.role(f), 'added' if a is None else 'removed' if b is None else 'changed', f])
    if open(conf0, 'rb').read() != base:
        r['writes'].append(['input', 'changed', 'multiplier_conf.cfg'])
    shutil.rmtree(d)
    return r


def run_c36(ctx):
    preproc_h.preload()
    with vlib.quiet():
        import all_multipliers  # noqa: F401
    c = dict(MaxRuns=ctx.pick(4, 6), MaxEdits=ctx.pick(2, 3))
    ctx.mc('Files', dict(c, Fault='none'), invariants=['UpToDate'], properties=['OnlyItsOwn'], min_states=300)
    for f in ('update', 'clears', 'in-place'):
        ctx.mc_must_fail('Files', dict(c, Fault=f), properties=['OnlyItsOwn'])
    jobs = [ctx.rng.randint(0, 10 ** 9) for _ in range(ctx.pick(48, 1000))]
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, x: record_c36(ctx, i, x), nproc=8)]
    ctx.sample(recs[0])
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({repr(r['writes']) for r in recs}))
    ctx.count('runs_with_inputs_that_can_only_be_read', sum(r.get('plain', 0) for r in recs))
    for P in PROGS:
        ctx.count('runs_of_' + P.name, sum(r['prog'] == P.name for r in recs))
    ctx.validate('FilesTrace', recs)
