"""Histories of configuration files (C26)."""
import configparser as cp
import os
import pickle
import random
import sys

import conf
import run_h
import vlib

SECTION = 'inputValues'


def default():
    """The settings of the project's default file."""
    p = cp.RawConfigParser()
    p.read(os.path.join(vlib.REPO, 'multiplier_conf.cfg'))
    return p


def value_text(d, s, v):
    if s == 'terrain_table':
        return os.path.join(d, 't%d.csv' % v)
    return '%s number %d' % (s, v)


def write(d, f, settings, v, rng):
    order = list(settings)
    rng.shuffle(order)
    with open(os.path.join(d, 'f%d.cfg' % f), 'w') as o:
        o.write('[%s]\n' % SECTION)
        for s in order:
            o.write('%s = %s\n' % (s, value_text(d, s, v)))
        o.write('[Output]\nother%d = 1\n' % f)
    conf.write_table(os.path.join(d, 't%d.csv' % v), [(v, .1 * v, 50.)])


def ways(d):
    """The ways a setting is read: (who, settings it can read, reader)."""
    import all_multipliers as am
    import terrain.terrain_mult as tm
    import shielding.shield_mult as sm
    import utilities.nctools as nc
    import utilities.config as uc
    from netCDF4 import Dataset
    res = []
    for m, name in ((uc, 'configparser'), (am, 'config'), (tm, 'config'), (sm, 'config'), (nc, 'config')):
        if hasattr(getattr(m, name, None), 'get'):
            res.append((m.__name__, None, lambda s, o=getattr(m, name): o.get(SECTION, s)))

    def table(f):
        def g(s):
            t = f()
            return value_text(d, s, int(t['CATEGORY'][0]))
        return g
    for f in (tm.get_terrain_table, getattr(sm, 'get_shielding_table', None)):
        if f:
            res.append(('table', ('terrain_table',), table(f)))

    def saved(s):
        import numpy as np
        fn = os.path.join(d, 'a_mz_n.nc')
        nc.save_multiplier('Mz', np.ones((1, 2), 'f4'), [-20.], [143., 144.], fn)
        with Dataset(fn) as ds:
            a = {k.lower(): getattr(ds, k) for k in ds.ncattrs()}
        key = ('%s_%s' % (SECTION, s)).lower()
        if key not in a:
            raise cp.NoOptionError(s, SECTION)
        return a[key]
    res.append(('netcdf', None, saved))
    return res


def replay(d, hist, settings, seed):
    """The history on the code; the readings."""
    rng = random.Random(seed)
    dflt = default()
    from utilities.config import configparser
    got = []
    W = ways(d)

    def read(at, s, w):
        try:
            x = w[2](s)
            v = [k for k in range(1, len(hist) + 1) if x == value_text(d, s, k)]
            v = v[0] if v else 0 if dflt.has_option(SECTION, s) and x == dflt.get(SECTION, s) else -9
        except (cp.NoOptionError, cp.NoSectionError):
            v = -1
        except Exception:
            v = -9
        except SystemExit:
            v = -9
        got.append(dict(at=at, who=w[0], s=s, v=v))
    for n, o in enumerate(hist):
        if o['op'] == 'write':
            write(d, o['f'], o['set'], o['v'], rng)
        elif o['op'] == 'name':
            configparser.set_config_file(os.path.join(d, 'f%d.cfg' % o['f']) if o['f'] else
                                         os.path.join(vlib.REPO, 'multiplier_conf.cfg'))
        else:
            s = o['set'][0]
            can = [w for w in W if w[1] is None or s in w[1]]
            for w in can if rng.random() < .5 else [rng.choice(can)]:
                read(n, s, w)
    for s in settings:
        for w in W:
            if w[1] is None or s in w[1]:
                read(len(hist), s, w)
    return got


def record(ctx, i, job):
    d = ctx.dir('h%d' % i)
    out = os.path.join(d, 'out.pkl')

    def work():
        with open(out, 'wb') as f:
            pickle.dump(replay(d, job['hist'], job['settings'], job['seed']), f)
    import whole_h
    err = whole_h.forked(work)
    r = dict(exc=int(err is not None), msg=err or '', hist=job['hist'], got=[],
             nodefault=[s for s in job['settings'] if not default().has_option(SECTION, s)])
    if err is None:
        r['got'] = pickle.load(open(out, 'rb'))
    return r


def run_c26(ctx):
    with vlib.quiet():
        import all_multipliers  # noqa: F401 (so that the processes need not)
    S = {'terrain_table', 'dem_data'}
    three = {'terrain_table', 'dem_data', 'anything'}
    for f in ('once', 'replace', 'reread', 'lazy', 'first', 'default'):
        if not ctx.quick or f in ('once', 'reread', 'default'):
            ctx.mc_must_fail('Config', dict(Files={1, 2}, Settings=S, DefaultHas={'dem_data'}, Depth=5, Fault=f, Gen=0), invariants=['GetsRight'])
    ctx.mc('Config', dict(Files={1, 2}, Settings=S, DefaultHas={'dem_data'}, Depth=ctx.pick(5, 6), Fault='none', Gen=0),
           invariants=['GetsRight', 'StoreRight'], min_states=1000)
    has = {s for s in three if default().has_option(SECTION, s)}
    G = []
    for depth, num in ((4, 150), (7, 150), (12, 80)) if ctx.quick else ((4, 2000), (7, 3000), (12, 3000), (25, 1000)):
        g = ctx.generate('Config', dict(Files={1, 2, 3}, Settings=three, DefaultHas=has, Depth=depth, Fault='none', Gen=1),
                         simulate=(num, depth + 3))
        G += [x['hist'] for x in g]
    jobs = [dict(hist=h, settings=sorted(three), seed=ctx.rng.randint(0, 10 ** 9)) for h in G]
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, j: record(ctx, i, j), nproc=8)]
    ctx.sample(recs[-1])
    ctx.count('evaluations', sum(len(r['got']) for r in recs))
    ctx.count('distinct_nontrivial', len({repr(r['hist']) for r in recs}))
    ctx.count('namings', sum(1 for r in recs for o in r['hist'] if o['op'] == 'name'))
    ctx.validate('ConfigTrace', recs)
