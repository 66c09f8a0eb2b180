"""What is told of files: digests, sizes, dates, tables, modules (C41)."""
import itertools
import json
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import time

import numpy as np

import nc_h
import run_h
import vlib
import whole_h

NAMES = ['a.txt', 'data 1.bin', 'x', 'no.ext.csv', '.hidden', 'caf\u00e9.dat', '100%.csv', 'a[1].txt', "it's.csv", 'Table.CSV']
FOLDERS = ['', 'sub', 'sub/deep er', 'n1/n2', 'abs', '..']


def text(x):
    return repr(x)


def bits(a):
    a = np.atleast_1d(np.asarray(a, np.float64)).ravel()
    return nc_h.bits64(np.where(np.isnan(a), np.nan, a))


def some_runs(rng):
    k = rng.random()
    if k < .1:
        return [[97, rng.randint(1, 3)], [10, 1], [98, rng.choice([0, 1, 65536])]]
    if k < .2:
        return rng.choice([[], [[97, 1]], [[97, 1], [98, 1], [99, 1]], [[97, 0]]])
    if k < .55:
        return [[rng.choice([10, 13, 0, 26, 97, 255, 195]), rng.randint(0, 3)] for _ in range(rng.randint(1, 4))]
    edge = rng.choice([65536, 65535, 65537, 131072, 65536 * 3, 70000, 4096])
    r = [[97, edge - rng.randint(0, 3)], [rng.choice([10, 13, 98]), rng.randint(0, 3)], [97, rng.choice([0, 0, 1, 65536])]]
    return r


def vary(rng, runs):
    """The content again, or nearly."""
    r = [list(x) for x in runs]
    k = rng.random()
    if not r or k < .3:
        return r
    i = rng.randrange(len(r))
    if k < .5:        # the same bytes, in other runs
        b, n = r[i]
        c = rng.randint(0, n)
        return r[:i] + [[b, c], [b, n - c]] + r[i + 1:]
    if k < .65 and [10, 1] in r:        # another end of a line
        q = r.index([10, 1])
        return r[:q] + [[13, 1]] + r[q:] if rng.random() < .5 else r[:q] + [[13, 1]] + r[q + 1:]
    if k < .7:
        return r + [[rng.choice([0, 0, 10, 32, 26]), 1]] if r[-1][1] else r[:-1]
    if k < .8:
        r[i][0] = rng.choice([10, 13, 97, 98, 0])
    elif k < .92:
        r[i][1] = max(0, r[i][1] + rng.choice([-1, 1]))
    else:
        r.reverse()
    return r


def data(runs):
    return b''.join(bytes([b]) * n for b, n in runs)


def runs_of(fn):
    with open(fn, 'rb') as f:
        return [[b, sum(1 for _ in g)] for b, g in itertools.groupby(f.read())]


def some_table(rng):
    nr, nc = rng.choice([(1, 1), (1, 3), (4, 1), (2, 2), (3, 4), (7, 2)])
    fmt = rng.choice(['%.18e', '%.18e', '%.17g', '%g', '%d'])
    pool = {'%d': [0, 1, -7, 12345], '%g': [0, .25, -1.5, 1024.5, 99999]}.get(
        fmt, [0, 1 / 3., -1e-300, 1e300, 123456.789, rng.uniform(-1, 1), float('nan'), float('inf'), -0.0])
    a = np.array([[rng.choice(pool) for _ in range(nc)] for _ in range(nr)], dtype=np.float64)
    if fmt == '%d' or rng.random() < .2:
        if np.all(np.isfinite(a)) and np.all(a == np.round(a)) and np.abs(a).max() < 1e9:
            a = a.astype(rng.choice([np.int32, np.int64, np.float32]))
    elif fmt == '%.18e' and rng.random() < .2 and np.all(np.abs(a[np.isfinite(a)]) < 1e30):
        a = a.astype(np.float32)
    given = a
    if nc == 1 and rng.random() < .5:
        given = a[:, 0]
    elif rng.random() < .2:
        given = np.asfortranarray(a)
    elif rng.random() < .2:
        given = given.tolist()
    return a, given, fmt


def history(d, rng):
    from utilities import files
    off = rng.choice([0, 0, 36000, 12600, -18000, 39600, 20700])
    s = abs(off)
    os.environ['TZ'] = 'AAA%s%d:%02d' % ('-' if off >= 0 else '+', s // 3600, s % 3600 // 60)
    time.tzset()
    cwd = os.path.join(d, 'cwd')
    os.makedirs(os.path.join(cwd, 'sub'))
    os.chdir(cwd)
    n = rng.randint(2, 4)
    paths = []
    while len(paths) < n:
        fo = rng.choice(FOLDERS)
        if fo == 'abs':
            fo = os.path.join(d, 'abs')
        p = (fo, rng.choice(NAMES))
        if os.path.realpath(os.path.join(*p)) not in [os.path.realpath(os.path.join(*q)) for q in paths]:
            paths.append(p)
    full = [os.path.join(*p) for p in paths]
    kind, content, tables, sigs = [None] * n, [None] * n, [None] * n, {}
    ops, same = [], 1

    def t():
        return rng.choice([0, 1, 951782400, 951868799, 978307199, 1583020799, 1583020800, 2147400000, 86399,
                           rng.randint(0, 2100000000)])

    def stamp(fn, when):
        ns = when * 10 ** 9 + rng.choice([0, 0, 999900000, 500000000])
        os.utime(fn, ns=(rng.choice([ns, 0, 1700000000 * 10 ** 9]), ns))
    todo = []
    for turn in range(rng.randint(8, 16)):
        f = todo.pop() if todo else None
        k = 'stat' if f is not None else rng.choice(['put', 'put', 'add', 'touch', 'cp', 'rm', 'save', 'save'] + ['stat'] * 6 + ['size', 'date', 'date', 'load', 'load'])
        f = rng.randrange(n) if f is None else f
        o = dict(op=k, f=f + 1, exc='')
        fn = full[f]
        if k == 'put':
            prev = [c for c in content if c is not None]
            c = vary(rng, rng.choice(prev)) if prev and rng.random() < .7 else some_runs(rng)
            os.makedirs(os.path.dirname(fn) or '.', exist_ok=True)
            with open(fn, 'wb') as h:
                h.write(data(c))
            o.update(c=c, t=t())
            stamp(fn, o['t'])
            kind[f], content[f] = 'raw', c
            if rng.random() < .6:
                todo = [x for x in range(n) if kind[x] == 'raw']
                rng.shuffle(todo)
        elif k == 'add':
            if kind[f] != 'raw':
                continue
            o.update(c=[[rng.choice([10, 97, 13]), rng.randint(1, 2)]], t=0)
            was = os.stat(fn).st_mtime_ns
            with open(fn, 'ab') as h:
                h.write(data(o['c']))
            os.utime(fn, ns=(was, was))
            content[f] = content[f] + o['c']
        elif k == 'touch':
            if kind[f] is None:
                continue
            o['t'] = t()
            stamp(fn, o['t'])
        elif k == 'cp':
            g = rng.randrange(n)
            if kind[f] is None or g == f:
                continue
            os.makedirs(os.path.dirname(full[g]) or '.', exist_ok=True)
            shutil.copyfile(fn, full[g])
            o.update(g=g + 1, t=t())
            stamp(full[g], o['t'])
            kind[g], content[g], tables[g] = kind[f], content[f], tables[f]
        elif k == 'rm':
            if kind[f] is None:
                continue
            os.remove(fn)
            kind[f] = content[f] = None
        elif k == 'save':
            a, given, fmt = some_table(rng)
            header = rng.choice(['', '', 'a,b', 'one\ntwo', 'x y z'])
            dl = rng.choice([',', ',', ' ', ';', '\t'])
            key = repr((a.tolist(), str(a.dtype), fmt, header, dl))
            o.update(rows=[bits(x) for x in a], h=header.count('\n') + 1 if header else 0, sig=sigs.setdefault(key, len(sigs) + 1))
            kw = dict(header=header, delimiter=dl, fmt=fmt)
            if fmt == '%.18e' and rng.random() < .5:
                del kw['fmt']
            if dl == ',' and rng.random() < .5:
                del kw['delimiter']
            if not header and rng.random() < .5:
                del kw['header']
            was = pickle.dumps(given)
            try:
                files.fl_save_file(fn, given, **kw)
            except Exception as e:
                o['exc'] = repr(e)[:100]
                ops.append(o)
                return dict(kind='hist', n=n, off=off, ops=ops, same=1)
            same &= int(pickle.dumps(given) == was)
            kind[f], content[f], tables[f] = 'table', None, (o['h'], len(o['rows']), dl)
        elif k == 'load' and kind[f] == 'raw':
            continue
        else:
            pdir, pbase = paths[f]
            if kind[f] and rng.random() < .15:      # asked of a link to the file
                pdir, pbase = os.path.join(d, 'links'), 'l%d' % turn
                os.makedirs(pdir, exist_ok=True)
                os.symlink(os.path.realpath(fn), os.path.join(pdir, pbase))
                fn = os.path.join(pdir, pbase)
            try:
                if k == 'stat':
                    a = (fn,) if rng.random() < .6 else (fn, rng.choice([1, 7, 4096, 65537, 2 ** 20]) if kind[f] != 'raw' or sum(
                        x[1] for x in content[f]) < 5000 else 5000)
                    q = files.fl_get_stat(*a)
                    dirn, base, md5, mod = q
                    w = mod.split()
                    o.update(pdir=text(pdir), pbase=text(pbase), dir=text(dirn), base=text(base), md5=md5, wd=w[0], mon=w[1])
                    mm = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'].index(w[1]) + 1
                    o['date'] = [int(w[4]), mm, int(w[2])] + [int(x) for x in w[3].split(':')]
                elif k == 'size':
                    o['size'] = int(files.fl_size(fn))
                elif k == 'date':
                    if rng.random() < .5:
                        w = files.fl_mod_date(fn)
                        o['date'] = [int(x) for x in w.replace('-', ' ').replace(':', ' ').split()]
                        assert len(w) == 19
                    else:
                        w = files.fl_mod_date(fn, dateformat='%d/%m/%Y %S.%M.%H')
                        x = [int(y) for y in w.replace('/', ' ').replace('.', ' ').split()]
                        o['date'] = [x[2], x[1], x[0], x[5], x[4], x[3]]
                elif k == 'load':
                    kw = dict(delimiter=tables[f][2]) if kind[f] else {}
                    o['skip'] = rng.choice([0, 0, rng.randint(0, sum(tables[f][:2]) - 1)]) if kind[f] else 0
                    if o['skip'] or rng.random() < .3:
                        kw['skiprows'] = o['skip']
                    v = files.fl_load_file(fn, **kw)
                    o.update(flat=bits(v) if v.size else [], shape=list(v.shape))
            except OSError:
                o['exc'] = 'OSError'
            except Exception as e:
                o['exc'] = repr(e)[:100]
        ops.append(o)
    left = []
    for x in range(n):
        if not os.path.exists(full[x]):
            left.append(dict(there=0, c=[], t=0))
        else:
            c = runs_of(full[x]) if kind[x] == 'raw' else []
            left.append(dict(there=1, c=c, t=int(os.stat(full[x]).st_mtime_ns // 10 ** 9)))
    return dict(kind='hist', n=n, off=off, ops=ops, same=same, left=left)


def module(d, rng):
    """A chain of modules, the first of which is the program."""
    n = rng.randint(2, 4)
    mods = []
    for i in range(n):
        fo = os.path.join(d, rng.choice(['p', 'p/q r', 'p.x', 'p']))
        os.makedirs(fo, exist_ok=True)
        base = '%s%d' % (rng.choice(['mod', 'my.mod', 'M_', 'py']), i)
        mods.append((fo, base, '.py'))
    ver = rng.choice([None, '1.2', '$Id$', ''])
    inner = rng.choice([None, '9.9'])
    level = rng.randint(1, n)
    pre, ext = rng.choice([('', '.ini'), ('', '.cfg'), ('log_', '.log'), ('x.', '.a.b'), ('', '')])
    kw = []
    if ext != '.ini' or rng.random() < .5:
        kw.append('extension=%r' % ext)
    if pre or rng.random() < .3:
        kw.append('prefix=%r' % pre)
    for i, (fo, base, e) in enumerate(mods):
        v = ver if i == 0 else inner
        s = 'import sys\nsys.path[:0] = %r\n' % (sys.path,) if i == 0 else ''
        if v is not None:
            s += '__version__ = %r\n' % v
        if i < n - 1:
            nx = mods[i + 1]
            s += ('import importlib.util\nspec = importlib.util.spec_from_file_location("m%d", %r)\nm = importlib.util.module_from_spec(spec)\n'
                  'spec.loader.exec_module(m)\n\n\ndef f%d():\n    return m.f%d()\n' % (i + 1, os.path.join(nx[0], nx[1] + nx[2]), i, i + 1))
        else:
            s += ('from utilities import files\n\n\ndef f%d():\n    return [list(files.fl_module_path(%s)), files.fl_module_name(%s), '
                  'files.fl_config_file(%s), files.fl_program_version()]\n' % (
                      i, level if level > 1 else rng.choice(['', 1, 'level=1']), level, ', '.join(kw)))
        if i == 0:
            s += '\n\nif __name__ == "__main__":\n    import json\n    a = f0()\n    print(json.dumps(a))\n'
        with open(os.path.join(fo, base + e), 'w') as h:
            h.write(s)
    main = os.path.join(mods[0][0], mods[0][1] + '.py')
    cwd = rng.choice([d, mods[0][0], '/'])
    p = subprocess.run([sys.executable, os.path.relpath(main, cwd) if rng.random() < .5 else main], cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=120)
    if p.returncode != 0:
        raise RuntimeError(p.stderr.decode()[-300:])
    path, name, cfg, v = json.loads(p.stdout.decode().strip().splitlines()[-1])
    w = mods[n - level]
    return dict(kind='mod', path=path, wpath=[os.path.realpath(w[0]), w[1], w[2]], name=name, wname='f%d' % (n - level),
                cfg=cfg, wcfg=os.path.join(os.path.realpath(mods[0][0]), pre + mods[0][1] + ext), ver=v, wver=ver or '')


def late(*a):
    raise BaseException('no answer after a minute')


def work(d, seed, what, out):
    rng = random.Random(seed)
    signal.signal(signal.SIGALRM, late)
    signal.alarm(150 if what == 'mod' else 60)
    r = (module if what == 'mod' else history)(d, rng)
    with open(out, 'wb') as o:
        pickle.dump(r, o)


def record(ctx, i, job):
    d = ctx.dir('fi%d' % i)
    out = os.path.join(d, 'out.pkl')
    err = whole_h.forked(work, d, job['seed'], job['what'], out)
    if err is not None:
        return dict(kind='died', msg=err, seed=job['seed'])
    with open(out, 'rb') as f:
        r = dict(pickle.load(f), seed=job['seed'])
    shutil.rmtree(d, True)
    return r


def run_c41(ctx):
    with vlib.quiet():
        import utilities.files  # noqa: F401
    inv = dict(invariants=['SameIffSame', 'Replaced'])
    c = dict(Names={1, 2}, Steps=3, Longest=2)
    for f in ('first', 'short', 'text', 'cache', 'append'):
        if not ctx.quick or f in ('first', 'cache'):
            ctx.mc_must_fail('FileId', dict(c, Steps=4, Fault=f), **inv)
    ctx.mc('FileId', dict(c, Steps=ctx.pick(3, 4), Longest=ctx.pick(2, 3), Fault='none'), properties=['Told'], min_states=500, **inv)
    jobs = [dict(seed=ctx.rng.randint(0, 10 ** 9), what='hist') for _ in range(ctx.pick(300, 6000))]
    jobs += [dict(seed=ctx.rng.randint(0, 10 ** 9), what='mod') for _ in range(ctx.pick(16, 200))]
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, j: record(ctx, i, j), nproc=8)]
    ctx.sample(recs[0])
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({repr(r.get('ops', r.get('path'))) for r in recs}))
    ctx.validate('FileIdTrace', recs)
