"""Multiplier files written and read back (C27)."""
import os
import pickle
import random
import stat
import time

import numpy as np

import files_h
import run_h
import vlib
import whole_h

MISSING = -2000000001
DIRS = whole_h.DIRS
LONG = dict(Mz='terrain', Ms='shielding', Mt='topographic')
UNIT = dict(Mz='mz', Ms='ms', Mt='mt')


def bits32(a):
    a = np.ascontiguousarray(a, np.float32)
    b = a.view(np.int32).astype(object)
    return [[MISSING if x != x else int(y) if y != -2 ** 31 else 2 ** 31 - 1 for x, y in zip(p, q)] for p, q in zip(a, b)]


def bits64(a):
    u = [int(x) for x in np.ascontiguousarray(a, np.float64).view(np.uint64)]
    return [[x >> 44, x >> 22 & 0x3fffff, x & 0x3fffff] for x in u]


WORDS = ['a', 'Path', '/data/in put/x.tif', '100%', 'None', '0.01', 'caf\u00e9', 'a=b', "it's", 'x' * 300, '', '[]', '-1', 'two words', 'True']


def settings(rng, d):
    """A configuration file and its settings."""
    val = lambda: rng.choice(WORDS[:-1]) + rng.choice(['', '', '_%d' % rng.randint(0, 9)])  # noqa: E731
    cfg = {'inputValues': {'terrain_data': os.path.join(d, 'lc %d.tif' % rng.randint(0, 99)),
                           'dem_data': 'dem%d.img' % rng.randint(0, 99)}}
    for k in range(rng.randint(0, 3)):
        cfg['inputValues']['opt%d' % k] = val()
    for name in rng.sample(['Output', 'Logging', 'Preprocessing', 'My Section', 'x9'], rng.randint(0, 5)):
        cfg[name] = {rng.choice(['output_dir', 'verbose', 'a b', 'k9', 'x_y', 'root']): val() for _ in range(rng.randint(0, 3))}
    return cfg


def values(rng, h, w):
    kind = rng.choice(['real', 'real', 'bits', 'same', 'missing', 'huge'])
    if kind == 'real':
        a = np.array([[rng.uniform(.5, 1.8) for _ in range(w)] for _ in range(h)])
    elif kind == 'bits':
        a = np.array([[rng.choice([1.0, 1 + 2 ** -23, .1, 1 / 3., 5e-45, 0.0, -0.0, 1.71, 16777217.0]) for _ in range(w)] for _ in range(h)])
    elif kind == 'same':
        a = np.full((h, w), rng.random() + .5)
    elif kind == 'huge':
        a = np.array([[rng.choice([1e30, -1e30, 3.4e38, 1e-30, 9.0]) for _ in range(w)] for _ in range(h)])
    else:
        a = np.full((h, w), np.nan)
    if rng.random() < .6:
        for _ in range(rng.randint(0, h * w)):
            a[rng.randrange(h), rng.randrange(w)] = np.nan
    a = a.astype(rng.choice(['f4', 'f4', 'f8']))
    how = rng.choice(['C', 'F', 'view', 'rev'])
    if how == 'F':
        a = np.asfortranarray(a)
    elif how == 'view':
        big = np.zeros((h + 2, w + 3), a.dtype)
        big[1:-1, 2:-1] = a
        a = big[1:-1, 2:-1]
    elif how == 'rev':
        a = a[::-1, ::-1]
    return a


def fake_git(d, kind):
    """A PATH on which git is like that."""
    p = os.path.join(d, 'bin')
    os.makedirs(p, exist_ok=True)
    g = os.path.join(p, 'git')
    if kind == 'absent':
        return p
    with open(g, 'w') as f:
        f.write('#!/bin/sh\n' + dict(fails='echo no names >&2; exit 128\n', silent='exit 0\n', tag='echo v2.1-3-gabc\n',
                                     notexec='echo x\n')[kind])
    os.chmod(g, 0o644 if kind == 'notexec' else stat.S_IRWXU)
    return p + (':/usr/bin:/bin' if kind != 'notexec' else '')


def stranger(d):
    """As an account without a name."""
    for v in ('LOGNAME', 'USER', 'LNAME', 'USERNAME'):
        os.environ.pop(v, None)
    if os.getuid() == 0 and files_h.reachable(d):
        for base, dirs, files in os.walk(d):
            for f in [base] + [os.path.join(base, f) for f in files]:
                os.chown(f, 54321, 54321)
        os.setgroups([])
        os.setgid(54321)
        os.setuid(54321)


def when(text):
    """Seconds since the epoch of a local time."""
    try:
        return time.mktime(time.strptime(text, '%Y-%m-%d %H:%M:%S'))
    except ValueError:
        return 0


def work(d, seed, out):
    rng = random.Random(seed)
    os.environ['TZ'] = rng.choice(['UTC', 'AEST-10', 'EST5', 'IST-5:30'])
    time.tzset()
    if rng.random() < .3:
        stranger(d)
    from netCDF4 import Dataset
    from utilities.config import configparser
    from utilities import nctools
    for s in configparser.sections():
        configparser.remove_section(s)
    r = dict(saves=[], read=[])
    ids = whole_h.Ids()
    os.environ['PATH'] = fake_git(d, rng.choice(['absent', 'fails', 'silent', 'tag', 'notexec'])) \
        if rng.random() < .7 else os.environ['PATH']
    files = {}
    cfg = {}
    for k in range(rng.randint(1, 5)):
        if k == 0 or rng.random() < .5:
            new = settings(rng, d)
            fn = os.path.join(d, 'c%d.cfg' % k)
            with open(fn, 'w', encoding='utf-8') as f:
                for s in new:
                    f.write('[%s]\n' % s + ''.join('%s = %s\n' % x for x in new[s].items()))
            configparser.set_config_file(fn)
            for s in new:
                cfg.setdefault(s, {}).update(new[s])
        h, w = rng.choice([(1, 1), (1, rng.randint(2, 9)), (rng.randint(2, 9), 1), (rng.randint(2, 9), rng.randint(2, 9)),
                           (rng.randint(2, 9), rng.randint(2, 9))])
        if rng.random() < .04:      # many rows or columns
            h, w = rng.choice([(300, 140), (131, 520), (200, 200), (1, 600)])
        ri, rj = vlib.some(rng, h), vlib.some(rng, w)
        a = values(rng, h, w)
        pw, ph = rng.choice([.01, 1 / 3600., .25]), rng.choice([.01, 1 / 3600., .1])
        x0, y0 = rng.uniform(-179, 179), rng.uniform(-80, 80)
        if rng.random() < .6:
            lon, lat = nctools.get_lat_lon((x0, y0, x0 + w * pw, y0 - h * ph), pw, ph)
        else:
            lon, lat = [x0 + j * pw for j in range(w)], np.array([y0 - i * ph for i in range(h)])
        name, dire = rng.choice(sorted(LONG)), rng.choice(DIRS)
        sub = os.path.join(d, rng.choice(['out', 'o_ut.x', 'a b']))
        os.makedirs(sub, exist_ok=True)
        fn = os.path.join(sub, '%s_%s_%s.nc' % (rng.choice(['e143.0s20.0', 'e1s2', 'x_y']), UNIT[name], dire))
        before = np.array(a)
        f = files.setdefault(fn, len(files) + 1)
        t0 = time.time()
        nctools.save_multiplier(name, a, lat, lon, fn)
        t1 = time.time()
        if not np.array_equal(before, a, equal_nan=True):
            before = before * 0 + 777     # the caller's array is changed: shows as other values
        with np.errstate(all='ignore'):
            v = before.astype(np.float32)
        r['saves'].append(dict(f=f, name=name, dir=dire, lat=bits64(np.asarray(lat)[ri]), lon=bits64(np.asarray(lon)[rj]), v=bits32(v[np.ix_(ri, rj)]),
                               at=[h, w, ri, rj],
                               cfg=[[s, o, ids[x]] for s in cfg for o, x in cfg[s].items()],
                               t=[t0, t1],
                               inputs=[cfg['inputValues']['terrain_data'], cfg['inputValues']['dem_data']]))
    for fn, f in files.items():
        last = [s for s in r['saves'] if s['f'] == f][-1]
        with Dataset(fn) as ds:
            g = dict(f=f, vars=sorted(ds.variables), attrs=[[k, ids[str(getattr(ds, k))]] for k in ds.ncattrs()],
                     v=[], dims=0)
            lat, lon = (np.ma.filled(ds.variables[x][:], np.nan) for x in ('lat', 'lon'))
            h, w, ri, rj = last['at']
            full = (len(lat), len(lon)) == (h, w)
            g.update(lat=bits64(lat[ri] if full else lat), lon=bits64(lon[rj] if full else lon))
            ab = str(getattr(ds, 'Abstract', '')).replace('.', ' ').split()
            g['names'] = int(LONG[last['name']] in ab and last['dir'] in ab)
            inp = str(getattr(ds, 'Inputs', ''))
            g['dated'] = int(last['t'][0] - 2 < when(str(getattr(ds, 'Created_on', ''))) < last['t'][1] + 2)
            g['inputs'] = int(all(x in inp for x in last['inputs']))
            if last['name'] in ds.variables:
                v = ds.variables[last['name']]
                g['dims'] = int(v.dimensions == ('lat', 'lon') and v.dtype == np.dtype('f4'))
                v = np.ma.filled(v[:].astype('f4'), np.nan)
                g['v'] = bits32(v[np.ix_(ri, rj)] if full and v.shape == (h, w) else v)
        r['read'].append(g)
    for s in r['saves']:
        del s['inputs'], s['t'], s['at']
    with open(out, 'wb') as o:
        pickle.dump(r, o)


def record(ctx, i, job):
    d = ctx.dir('nc%d' % i)
    out = os.path.join(d, 'out.pkl')
    err = whole_h.forked(work, d, job['seed'], out)
    if err is not None:
        return dict(exc=1, msg=err, seed=job['seed'], saves=[], read=[])
    return dict(pickle.load(open(out, 'rb')), exc=0, seed=job['seed'])


def run_c27(ctx):
    with vlib.quiet():
        import all_multipliers  # noqa: F401 (so that the processes need not)
    for f in ('keep-larger', 'flip', 'transpose', 'fill', 'first-cfg'):
        if not ctx.quick or f in ('keep-larger', 'fill'):
            ctx.mc_must_fail('NcFile', dict(Files={1}, MaxDim=2, Values={1, 2}, MaxSaves=2, Fault=f), invariants=['Faithful'])
    ctx.mc('NcFile', dict(Files={1, 2} if not ctx.quick else {1}, MaxDim=2, Values={1, 2}, MaxSaves=2, Fault='none'),
           invariants=['Faithful'], min_states=100)
    jobs = [dict(seed=ctx.rng.randint(0, 10 ** 9)) for _ in range(ctx.pick(240, 4000))]
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, j: record(ctx, i, j), nproc=8)]
    ctx.sample(recs[0])
    ctx.count('evaluations', sum(len(r['saves']) for r in recs))
    ctx.count('distinct_nontrivial', len({repr(r['saves']) for r in recs}))
    ctx.validate('NcFileTrace', recs)
