"""Runs in which something fails (C38)."""
import ast
import contextlib
import ctypes
import os
import random
import resource
import shutil
import signal
import subprocess
import sys

import conf
import fakempi
import files_h
import preproc_h
import run_h
import vlib
import whole_h
from rasters import gdal

j = os.path.join
EVENTS = ('call', 'lib', 'gdal', 'full', 'lost', 'input', 'output', 'disk', 'limit', 'none')


class Struck(Exception):
    """Something failed."""


class Multipliers(files_h.Multipliers):
    def make(self):
        d = self.d
        for _ in range(5):
            self.case = c = whole_h.FineCase(self.rng)
            if c.nx * c.ny * (c.step + 2 * c.buf) ** 2 < 1000:
                break       # mostly small ones
        c.dtype = self.rng.choice(['f4', 'i4'])
        c.write(j(d, 'in'))
        self.out = j(d, 'o', 'out')
        self.table = j(d, 'in', 't.csv')
        self.cfg = c.cfg = conf.write_cfg(j(d, 'in', 'c.cfg'), self.out, c.dem, c.lc, self.table, upwind=c.up,
                                          log=j(d, 'o', 'log', 'l.txt'))

    disk = 'o'

    def clean(self):
        for f in os.listdir(j(self.d, 'o')):
            shutil.rmtree(j(self.d, 'o', f))

    def spoil(self, rng):
        """An input that cannot be used."""
        what = rng.choice(['dem', 'lc', 'table', 'table', 'cfg'])
        if what == 'cfg':
            self.cfg = j(self.d, 'in', 'none.cfg')
            return what, 1
        fn = dict(dem=self.case.dem, lc=self.case.lc, table=self.table)[what]
        how = rng.choice(['missing', 'missing', 'garbage', 'empty', 'folder', 'cut'])
        if what == 'table' and how == 'cut':
            how = 'missing'
        spoil(fn, how, rng)
        return '%s %s' % (what, how), int(how != 'cut')


def spoil(fn, how, rng):
    size = os.path.getsize(fn)
    if how == 'cut':
        with open(fn, 'r+b') as f:
            f.truncate(rng.choice([rng.randint(1, size - 1), size - rng.randint(1, 40)]))
        return
    os.remove(fn)
    if how == 'garbage':
        with open(fn, 'wb') as f:
            f.write(bytes(rng.randint(1, 255) for _ in range(size)))
    elif how == 'empty':
        open(fn, 'w').close()
    elif how == 'folder':
        os.mkdir(fn)


def mend(cfg, old, new):
    s = open(cfg).read()
    assert old in s
    with open(cfg, 'w') as f:
        f.write(s.replace(old, new))


class Convert(files_h.Convert):
    disk = j('o', 'out', 'M3')

    def make(self):
        if not hasattr(self, 'tiles'):
            big = self.rng.random() < .5
            self.tiles = ['e14%d.0s2%d.0' % (k, k) for k in range(self.rng.randint(1, 3))]
            self.nx, self.ny = [self.rng.randint(2, 60 if big else 4) for _ in range(2)]
        super().make()

    def spoil(self, rng):
        return 'nothing', 0


class Preprocess(files_h.Preprocess):
    disk = 'o'

    def spoil(self, rng):
        d = j(self.d, 'in')
        masked = 'crop_mask = None' not in open(self.cfg).read()
        what = rng.choice(['s.shp', 'l.shp', 'attribute', 'topo', 'cfg'] + ['m.shp'] * 2 * masked)
        if what == 'cfg':
            self.cfg = j(d, 'none.cfg')
        elif what == 'attribute':
            key = rng.choice(['settlement_cat = ', 'land_use_cat = '])
            mend(self.cfg, key, key + 'NO')
            return what, 0      # there may be no feature that has none
        elif what == 'topo':
            mend(self.cfg, 'dem_data = ', 'dem_data = /none')
        else:
            how = rng.choice(['missing', 'garbage', 'empty'])
            spoil(j(d, what), how, rng)
            what += ' ' + how
        return what, 1


class Rasterize(files_h.Rasterize):
    disk = 'cwd'

    def spoil(self, rng):
        what = rng.choice(['-i', '-a', '-t'] + ['-c'] * 2 * self.crop)
        if what == '-a':
            self.args += ['-a', 'NONE']
            return what, 1
        fn = self.args[self.args.index(what) + 1]
        how = rng.choice(['missing', 'garbage', 'empty'])
        spoil(fn, how, rng)
        return '%s %s' % (what, how), 1

    def clean(self):
        shutil.rmtree(j(self.d, 'cwd'))
        os.makedirs(j(self.d, 'cwd'))
        if self.crop and os.path.exists(j(self.d, 'in', 'topo_crop.tif')):
            os.remove(j(self.d, 'in', 'topo_crop.tif'))


PROGS = dict(multipliers=Multipliers, convert=Convert, pre_process=Preprocess, rasterize=Rasterize)
MODULE = dict(multipliers='all_multipliers', convert='utilities.mpi_runner', pre_process='pre_process', rasterize='rasterize')
RAISES = {}
STRIKES = ('call', 'lib', 'gdal', 'full', 'lost')


def as_alone(ctx):
    """Whether errors of GDAL are exceptions, in a process of the program."""
    ps = {}
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([vlib.REPO] + sys.path), PYTHONDONTWRITEBYTECODE='1')
    for name, m in MODULE.items():
        ps[name] = subprocess.Popen([sys.executable, '-c', 'import %s\nfrom osgeo import gdal, ogr\n'
                                     'print("RAISES", gdal.GetUseExceptions(), ogr.GetUseExceptions())' % m],
                                    cwd=ctx.tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    for name, p in ps.items():
        out = [x for x in p.communicate()[0].splitlines() if x.startswith('RAISES')]
        RAISES[name] = [int(x) for x in out[-1].split()[1:]] if out else [1, 1]


# ----------------------------------------------------------------------- faults
GDAL = ['ReprojectImage', 'Translate', 'BuildVRT', 'Warp', 'RasterizeLayer', 'Open']
USED = dict(multipliers=['ReprojectImage', 'ReprojectImage', 'Translate', 'BuildVRT'], convert=['Translate', 'Translate', 'BuildVRT'],
            pre_process=['RasterizeLayer'], rasterize=['Warp', 'RasterizeLayer'])


def sensitive(f):
    """In there, errors are not passed on by Python itself."""
    while f:
        if f.f_code.co_name == '__del__' or f.f_code.co_filename.endswith(('logging/__init__.py', 'logging/handlers.py')):
            return True
        f = f.f_back
    return False


def module_of(fn):
    m = getattr(fn, '__module__', None) or getattr(getattr(fn, '__objclass__', None), '__module__', None) \
        or type(getattr(fn, '__self__', None)).__module__
    return str(m).split('.')[0]


def of_files(fn):
    """Of a library that reads or writes files."""
    return module_of(fn) in ('netCDF4', 'osgeo', 'fiona', 'os', 'posix', 'shutil', 'io', '_io', 'pandas')


WRITING = ('close', 'flush', 'sync', 'write', 'copy', 'save', 'create')


def kind_of(fn):
    """0: any other, 1: of files, 2: one that may write much to them."""
    if not of_files(fn):
        return 0
    name = str(getattr(fn, '__name__', '')).lower()
    return 1 + any(w in name for w in WRITING)


def closes(fn):
    return str(getattr(fn, '__name__', '')).lower() in ('close', 'flushcache')


class Fault:
    """
    What happens, when and where, in a process:
      call    a function of the code fails at once (the k-th call)
      lib     a call in the code fails (the k-th of the m-th place)
      gdal    the k-th call of a function of GDAL fails
      full    nothing more can be written from the k-th call (of GDAL, or of
              the code), for good or, as a file is closed, while it is; of a
              NetCDF file, until it is (or only the beginning of each file)
      lost    the temporary files vanish at the k-th call
    """
    def __init__(self, rng, kind, calls, sites, prog, at=None):
        self.kind, self.m, self.name, self.lasting, self.limit, self.closed, self.exc = kind, 0, '', True, 0, True, rng.choice([Struck, MemoryError])
        k = rng.randint(1, max(1, calls)) if rng.random() < .7 else rng.randint(1, 1 + calls // 10)
        if kind == 'gdal':
            self.name, k = rng.choice(USED[prog] + ['Open']), rng.choice([1, 1, 2, 3])
            if self.name != 'Open':     # what cannot be opened is replaced by ones in the conversion
                self.exc = rng.choice([self.exc, RuntimeError])
        elif kind == 'lost' and rng.random() < .6:
            self.name, k = 'ReprojectImage', rng.choice([1, 1, 2, 3])
        elif kind == 'full' and rng.random() < .5:
            self.name, k = rng.choice(USED[prog]), rng.choice([1, 1, 2, 3])
        elif kind != 'call':
            self.io = rng.choice([0, 1, 2, 2] if kind == 'full' else [0, 0, 0, 1, 1, 1, 2, 2])
            self.m, k = rng.randint(1, max(1, sites[self.io])), rng.choice([1, 1, 1, 2, 3])
            self.exc = rng.choice([self.exc, self.exc, OSError])
        if at is not None:      # one of all places, in turn
            self.name, self.io, self.exc = '', 2 if kind == 'full' else 1, OSError
            self.m, k = at[0], at[1] or rng.choice([1, 1, 1, 2])
            # if a file is made on a full disk and written later, GDAL hides that it is broken
            self.lasting = at[2]
            self.limit = at[3] and rng.random() < .6 and rng.choice([1, 100, 1000, 2000])
            self.closed = not at[3]
        self.k = k

    def describe(self):
        return '%s %d of %d %s %s' % (self.kind, self.k, self.m, self.name, 'lasting' if self.lasting else '')

    def happen(self, out):
        with open(self.fired, 'a') as f:
            f.write('x')
        if self.kind == 'lost':
            for f in os.listdir(out) if os.path.isdir(out) else []:
                if os.path.isfile(j(out, f)):
                    os.remove(j(out, f))
        elif self.kind == 'full':
            self.filled = j(self.d, 'filler')
            if self.limit:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (self.limit, resource.RLIM_INFINITY))
            else:
                fill(self.filled)
        else:
            raise self.exc('%s fails' % (self.name or 'something'))

    def prepare(self, fired, mpi, out, d):
        """In this process."""
        self.fired, self.d, self.filled = fired, d, None
        if self.name:
            self.of_gdal(out)
        else:
            self.of_code(mpi, out)

    def of_gdal(self, out):
        n = [0]

        def patch(name):
            orig = getattr(gdal, name)

            def patched(*a, **kw):
                if name != self.name:
                    return orig(*a, **kw)
                n[0] += 1
                if n[0] == self.k and self.kind == 'gdal':
                    self.happen(out)
                x = orig(*a, **kw)
                if n[0] == self.k and self.kind != 'gdal':
                    self.happen(out)
                return x
            setattr(gdal, name, patched)
        for name in GDAL:
            patch(name)

    def of_code(self, mpi, out):
        # with MPI, once it is there (before, mpirun sees that the process ends)
        on, n, seen, mon = [not mpi], [0], {}, sys.monitoring
        root = vlib.REPO.rstrip('/') + '/'

        def now():
            n[0] += 1
            if n[0] >= self.k and not sensitive(sys._getframe(2)):
                on[0] = False
                self.happen(out)

        def start(co, offset):
            if not co.co_filename.startswith(root):
                return mon.DISABLE
            if on[0]:
                now()

        def call(co, offset, fn, arg):
            if not co.co_filename.startswith(root):
                return mon.DISABLE
            if not on[0]:
                if self.filled and not self.lasting and not self.closed:
                    self.closed = closes(fn) and module_of(fn) == 'netCDF4'
                elif self.filled and not self.lasting and module_of(fn) != 'logging':
                    if self.limit:
                        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
                    else:
                        os.remove(self.filled)
                    self.filled = None
            elif kind_of(fn) < self.io:
                return None
            # without git, results are the same but for the version they tell
            elif seen.setdefault((co, offset), len(seen) + 1) == self.m and getattr(fn, '__module__', '') != 'subprocess':
                now()

        def ret(co, offset, value):
            if co.co_name != 'attempt_parallel':
                return mon.DISABLE
            if mpi and not n[0] and not seen:
                on[0] = True
        mon.use_tool_id(4, 'verif')
        E = mon.events
        mon.register_callback(4, E.CALL if self.m else E.PY_START, call if self.m else start)
        mon.register_callback(4, E.PY_RETURN, ret)
        mon.set_events(4, (E.CALL if self.m else E.PY_START) | (E.PY_RETURN if mpi else 0))


def counts_of(p, d):
    """Calls of functions of the code in a serial run, and places of calls."""
    fn = j(d, 'calls')

    def go():
        root = vlib.REPO.rstrip('/') + '/'
        mon = sys.monitoring
        n, seen = [0], [{} for _ in range(3)]

        def start(co, offset):
            if not co.co_filename.startswith(root):
                return mon.DISABLE
            n[0] += 1

        def call(co, offset, fn, arg):
            if co.co_filename.startswith(root):
                for k in range(kind_of(fn) + 1):
                    x = seen[k].setdefault((co, offset), [0, closes(fn), module_of(fn) == 'netCDF4'])
                    x[0] += 1
                return None
            return mon.DISABLE
        mon.use_tool_id(4, 'verif')
        mon.register_callback(4, mon.events.PY_START, start)
        mon.register_callback(4, mon.events.CALL, call)
        mon.set_events(4, mon.events.PY_START | mon.events.CALL)
        p.serial()
        with open(fn, 'w') as f:
            f.write(repr([n[0], [len(x) for x in seen], list(seen[2].values())]))
    err = whole_h.forked(go)
    if err:
        raise run_h.Unexpected(err)
    return ast.literal_eval(open(fn).read())


def set_gdal(p):
    from osgeo import ogr
    g, o = RAISES[p.name]
    gdal.UseExceptions() if g else gdal.DontUseExceptions()
    ogr.UseExceptions() if o else ogr.DontUseExceptions()


def one(p, prepare):
    """A serial run: what became of it."""
    def go():
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(200)
        set_gdal(p)
        prepare()
        p.serial()
    err = whole_h.forked(go)
    if err and err.startswith('process ended with status') and err.split()[-1] == str(int(signal.SIGALRM)):
        return ['stuck'], err
    return ['failed' if err else 'ok'], err


def many(p, n, rng, prepare, who):
    """The same of several processes."""
    base = run_h.child(p.case, stub=False, audit=False)

    def main(rank, size, conn):
        p.case.give_tiles()
        p.begin()
        cwd = os.getcwd()
        os.chdir, chdir = lambda q: chdir(cwd if q == p.case.d else q), os.chdir
        p.case.cfg = p.cfg
        if rank == who:
            prepare()
        base(rank, size, conn)
    ch = fakempi.holding(rng, rng.choice([.1, .3])) if rng.random() < .5 else fakempi.random_choice(rng)
    w = fakempi.World(n, ch, rng.random() < .5, rng.random() < .5, timeout=200, limit=100000)
    with vlib.quiet():
        w.run(main)

    def became(r):
        s = w.status.get(r)
        if s is None:
            return 'killed' if w.end.startswith('Abort(') else 'stuck'
        return 'ok' if s == 'ok' or s.startswith('Abort(0)') else 'failed'
    how = [became(r) for r in range(n)]
    return how, '%s %s' % (w.end, sorted(s for s in w.status.values() if s != 'ok')[:2])


def results(p, names, contents):
    st, x = whole_h.apart(p.outputs)
    if st != 'ok':
        return [[0, 0]]     # they cannot be read
    return sorted([names[f], contents[(f, y)]] for f, y in x.items() if f.endswith(('.nc', '.tif', '.vrt', '.tiff')) or '.' not in f)


# ------------------------------------------------------------------------ disks
def fill(fn):
    with open(fn, 'wb', buffering=0) as f:
        for size in (65536, 4096, 1):
            try:
                while f.write(bytes(size)) == size:
                    pass
            except OSError:
                pass


CLONE_NEWNS, CLONE_NEWUSER, MS_REC, MS_PRIVATE = 0x20000, 0x10000000, 0x4000, 0x40000


def own_disks():
    """Be the root of a user namespace, to mount small disks; in a process for that."""
    uid, gid = os.geteuid(), os.getegid()
    os.unshare(CLONE_NEWUSER | CLONE_NEWNS)
    for f, s in (('setgroups', 'deny'), ('uid_map', '0 %d 1' % uid), ('gid_map', '0 %d 1' % gid)):
        with open('/proc/self/' + f, 'w') as o:
            o.write(s)
    mount(b'none', b'/', None, MS_REC | MS_PRIVATE)


def mount(src, at, kind, flags, data=None):
    libc = ctypes.CDLL(None, use_errno=True)
    if libc.mount(src, at, kind, ctypes.c_ulong(flags), data):
        raise OSError(ctypes.get_errno(), 'mount')


@contextlib.contextmanager
def disk(at, kb):
    os.makedirs(at, exist_ok=True)
    mount(b'none', at.encode(), b'tmpfs', 0, b'size=%dk' % kb)
    try:
        yield
    finally:
        libc = ctypes.CDLL(None, use_errno=True)
        if libc.umount2(at.encode(), 2):
            raise OSError(ctypes.get_errno(), 'umount')


def can_mount(ctx):
    at = ctx.dir('probe')

    def probe():
        own_disks()
        with disk(at, 64):
            open(j(at, 'x'), 'w').close()
    return whole_h.forked(probe) is None


def record_disk(p, rng, sizes, n):
    """In a process of its own: runs on disks that are too small, or not."""
    own_disks()
    names, contents = whole_h.Ids(), whole_h.Ids()
    at = j(p.d, p.disk)
    with disk(at, 40000):
        how, msg = one(p, lambda: None)
        want = results(p, names, contents)
        st = os.statvfs(at)
        used = (st.f_blocks - st.f_bfree) * st.f_frsize // 1024
    if how != ['ok']:
        return [dict(how=how, msg=str(msg)[:500], fault=0, impossible=0, want=want, got=want, kept=1, what='disk')]
    recs = []
    for _ in range(sizes if used >= 4 else 0):     # all tiles may be empty
        kb = 4 * rng.randint(1, used // 4)
        with disk(at, kb):
            how, msg = one(p, lambda: None) if n == 0 else many(p, n, rng, lambda: None, 0)
            got = results(p, names, contents)
        if hasattr(p, 'crop') and p.crop and os.path.exists(j(p.d, 'in', 'topo_crop.tif')):
            os.remove(j(p.d, 'in', 'topo_crop.tif'))
        recs.append(dict(how=how, msg=str(msg)[:500], fault=1, impossible=0, want=want, got=got, kept=1, what='disk of %d kB of %d' % (kb, used)))
    return recs


# ---------------------------------------------------------------------- records
def record(ctx, i, job):
    rng = random.Random(job['seed'])
    d = os.path.realpath(ctx.dir('x%d' % i))
    p = PROGS[job['prog']](rng, d)
    kind, n = job['kind'], job['n']
    try:
        if kind == 'disk':
            st, x = whole_h.apart(record_disk, p, rng, job['sizes'], n)
            if st == 'exc':
                raise vlib.MachineryError(x)
            return [dict(r, prog=p.name, kind=kind) for r in x]
        if kind == 'full':
            st, x = whole_h.apart(record_full, job, rng, d)
            if st == 'exc':
                raise vlib.MachineryError(x)
            return [dict(r, prog=p.name, kind=kind) for r in x]
        return [dict(r, prog=p.name, kind=kind) for r in record_one(p, rng, job, d)]
    finally:
        shutil.rmtree(d)


def record_full(job, rng, d):
    """All on a disk that gets full at a time."""
    own_disks()
    with disk(d, 20000):
        p = PROGS[job['prog']](rng, d)
        return record_one(p, rng, job, d)


def record_one(p, rng, job, d):
    """Runs, some of them with what happens."""
    kind, n = job['kind'], job['n']
    names, contents = whole_h.Ids(), whole_h.Ids()
    try:
        calls, sites, writing = counts_of(p, d)
    except run_h.Unexpected as e:
        return [dict(how=['failed'], msg=str(e), fault=0, impossible=0, want=[], got=[], kept=1, what='reference')]
    want = results(p, names, contents)
    biggest = max([os.path.getsize(j(b, f)) for b, _, fs in os.walk(j(d, p.disk.split(os.sep)[0])) for f in fs] + [1])
    fired, recs = j(d, 'fired'), []
    ats = [None] * job['times']
    if 'part' in job:
        (i, of), ats = job['part'], []
        if kind == 'full':
            for m, (times, end, nc) in enumerate(writing):
                ats += [(m + 1, times, True, False)]
                if end:
                    ats += [(m + 1, rng.choice([1, 1, times]), False, False)]
                elif nc:
                    ats += [(m + 1, rng.choice([1, 1, times]), False, True)] * 2
        else:
            ats = [(m + 1, 0, True, False) for m in range(sites[1])]
        ats = ats[i::of]
    for at in ats:
        p.clean()
        recs.append(run_one(p, rng, kind, n, d, at, fired, calls, sites, biggest, want, names, contents))
        if os.path.exists(fired):
            os.remove(fired)
    return recs


def run_one(p, rng, kind, n, d, at, fired, calls, sites, biggest, want, names, contents):
    r = dict(impossible=0, what=kind, kept=1)
    who = rng.randrange(n) if n else 0
    prepare = lambda: None    # noqa: E731
    if kind in STRIKES:
        fault = Fault(rng, kind, calls // (n or 1), sites, p.name, at)
        r['what'] = fault.describe()
        prepare = lambda: fault.prepare(fired, n > 0, getattr(p, 'out', d), d)    # noqa: E731
    elif kind == 'input':
        other = j(d, 'other')
        os.makedirs(j(other, 'out', 'M3'))
        open(j(other, 'out', 'M3', 'mine.tif'), 'w').close()
        r['what'], r['impossible'] = p.spoil(rng)
        if r['what'] == 'cfg':
            # what would be taken instead must be harmless
            if p.name == 'pre_process':
                shutil.copyfile(j(d, 'in', 'c.cfg'), j(d, 'default.cfg'))
            else:
                conf.write_cfg(j(d, 'default.cfg'), j(other, 'out'), p.case.dem, p.case.lc, p.table, upwind=p.case.up,
                               log=j(other, 'l.txt'))
            conf.use(j(d, 'default.cfg'))
    elif kind == 'output':
        r['impossible'] = 1
        if rng.random() < .5:
            shutil.rmtree(j(d, 'o'))
            open(j(d, 'o'), 'w').close()
            r['what'] = 'output under a file'
        else:
            open(j(d, 'o', 'out'), 'w').close()
            r['what'] = 'output is a file'
    elif kind == 'limit':
        limit = rng.randint(1, biggest)
        r['what'] = 'files of %d bytes, of %d' % (limit, biggest)

        def prepare():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    before = files_h.snap(j(d, 'in')), files_h.snap(j(d, 'other'))
    how, msg = one(p, prepare) if n == 0 else many(p, n, rng, prepare, who)
    if os.path.exists(j(d, 'filler')):
        os.remove(j(d, 'filler'))
    after = files_h.snap(j(d, 'in')), files_h.snap(j(d, 'other'))
    r.update(how=how, msg=str(msg)[:500], want=want,
             fault=int(os.path.exists(fired) if kind in STRIKES else kind != 'none' and r['what'] != 'nothing'),
             kept=int(all(a.get(f) == x for b, a in zip(before, after) for f, x in b.items())))
    r['got'] = results(p, names, contents) if set(how) == {'ok'} else []
    return r


def jobs_of(ctx, disks):
    rng = ctx.rng
    jobs = []

    def add(kind, prog, n, count, **kw):
        for _ in range(count):
            jobs.append(dict(kind=kind, prog=prog, n=n() if callable(n) else n, seed=rng.randint(0, 10 ** 9),
                             times=3 if kind in STRIKES else 1, **kw))
    m = ctx.pick(1, 22)
    for kind, c in (('call', 3), ('lib', 9), ('gdal', 3), ('full', 6), ('lost', 2)):
        add(kind, 'multipliers', lambda: rng.choice([0, 2, 2, 3, 4, 1]), c * m)
    add('input', 'multipliers', lambda: rng.choice([0, 0, 2, 3]), 11 * m)
    add('output', 'multipliers', lambda: rng.choice([0, 2, 3]), 2 * m)
    add('none', 'multipliers', lambda: rng.choice([0, 2, 3]), 2 * m)
    add('limit', 'multipliers', lambda: rng.choice([0, 0, 2]), 2 * m)
    for prog in ('convert', 'pre_process', 'rasterize'):
        for kind, c in (('call', 1), ('lib', 1), ('gdal', 1), ('full', 1), ('limit', 1)):
            add(kind, prog, 0, c * m)
        if prog != 'convert':
            add('input', prog, 0, 7 * m)
    # all places of the code where files are written (full), or used (lib)
    for prog, i, k in (('multipliers', 20, 8), ('convert', 4, 2), ('pre_process', 2, 1), ('rasterize', 2, 1)):
        for kind, of in (('lib', i), ('full', k)):
            ps = range(of)
            if prog == 'multipliers' and kind == 'lib':
                ps = rng.sample(ps, ctx.pick(6, of))
            for q in ps:
                add(kind, prog, 0, ctx.pick(1, 4), part=[q, of])
    if not disks:
        jobs[:] = [x for x in jobs if x['kind'] != 'full']
    if disks:
        add('disk', 'multipliers', lambda: rng.choice([0, 0, 2]), ctx.pick(5, 60), sizes=ctx.pick(3, 12))
        for prog in ('convert', 'pre_process', 'rasterize'):
            add('disk', prog, 0, ctx.pick(2, 20), sizes=ctx.pick(3, 6))
    rng.shuffle(jobs)
    # those that take long first
    return sorted(jobs, key=lambda x: (x['prog'] != 'multipliers', 'part' not in x, x['times'] == 1))


def run_c38(ctx):
    preproc_h.preload()
    with vlib.quiet():
        import all_multipliers  # noqa: F401
    as_alone(ctx)
    inv, props = ['SuccessMeansComplete', 'OnlyFailuresFail'], ['Ends']
    for n, t in ctx.pick([(1, 3), (3, 3)], [(1, 1), (1, 5), (2, 4), (3, 4), (4, 4), (5, 3)]):
        ctx.mc('Fail', dict(N=n, T=t, Fault='none'), invariants=inv, properties=props, min_states=20)
    for n, f in ((3, 'alone'), (2, 'leaves')):
        ctx.mc_must_fail('Fail', dict(N=n, T=2, Fault=f), properties=props)
    for n, f in ((1, 'leaves'), (3, 'swallow'), (3, 'late')):
        ctx.mc_must_fail('Fail', dict(N=n, T=2, Fault=f), invariants=inv)
    disks = can_mount(ctx)
    jobs = jobs_of(ctx, disks)
    recs = [r for _, v in run_h.pool(ctx, jobs, lambda i, x: record(ctx, i, x), nproc=8) for r in v]
    ctx.sample(dict(recs[0], want=len(recs[0]['want']), got=len(recs[0]['got'])))
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({(r['prog'], r['what'], repr(r['how'])) for r in recs}))
    ctx.count('disks', int(disks))
    for k in EVENTS:
        rs = [r for r in recs if r['kind'] == k]
        ctx.count('runs_' + k, len(rs))
        ctx.count('faults_' + k, sum(r['fault'] for r in rs))
        ctx.count('failed_' + k, sum('failed' in r['how'] for r in rs))
    if not any(r['fault'] and r['kind'] in STRIKES for r in recs):
        raise vlib.MachineryError('no fault could be raised')
    ctx.validate('FailTrace', recs)
