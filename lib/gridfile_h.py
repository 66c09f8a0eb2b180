"""Files of gridded data, written through the functions of nctools (C39)."""
import copy
import os
import pickle
import random

import numpy as np

import nc_h
import run_h
import vlib
import whole_h

DTYPES = ['f', 'd', 'i', 'h', 'f4', 'f8', 'i4', np.float64, np.dtype('f4')]


def canon(v):
    return repr(v) if isinstance(v, str) else repr(np.atleast_1d(np.asarray(v)).tolist())


def numbers(a, tol):
    a = np.asarray(a, np.float64).ravel()
    return [int(round(min(max(x / tol * 100, -2e9), 2e9))) if x == x else -2 ** 31 + 1 for x in a] if tol else nc_h.bits64(a)


def some_values(rng, shape, dtype, nodata):
    n = int(np.prod(shape)) if shape else 1
    if np.dtype(dtype).kind == 'i':
        v = [rng.choice([0, 1, -1, 7, rng.randint(-30000, 30000)]) for _ in range(n)]
    else:
        v = [rng.choice([0.0, 1.0, -0.5, 1 / 3., 1e-30, 12345.678, rng.uniform(-2, 2)]) for _ in range(n)]
    for k in range(n):
        if rng.random() < .1:
            v[k] = nodata
    if rng.random() < .15:
        v = [0] * n
    a = np.array(v).reshape(shape)
    return np.asfortranarray(a) if shape and rng.random() < .2 else a


def some_atts(rng):
    pool = [('units', 'm s-1'), ('long_name', 'a b c'), ('valid_min', -1.5), ('actual_range', (0.25, 3.0)), ('flag', 7),
            ('note', 'x' * 400), ('axis', 'Y'), ('comment', 'two\nlines')]
    return dict(rng.sample(pool, rng.randint(0, 4)))


def descr(rng, nodata, lossy):
    names = rng.sample(['lat', 'lon', 'time', 'z', 'recid'], rng.randint(1, 4))
    dims = []
    for n in names:
        t = rng.choice(DTYPES)
        size = rng.choice([1, 1, 2, 3, 5])
        vals = [rng.randint(-300, 300) * (1 if np.dtype(t).kind == 'i' else .25) for _ in range(size)]
        dims.append(dict(name=n, values=rng.choice([list, np.array])(vals), dtype=t, atts=some_atts(rng)))
    size = {d['name']: len(d['values']) for d in dims}
    vs = []
    for n in rng.sample(['Mz', 'crs', 'wind', 'v_1', 'slp', 'mask'], rng.randint(1, 5)):
        t = rng.choice(DTYPES)
        vd = tuple(x for x in names if rng.random() < .6)[:3]
        a = some_values(rng, tuple(size[x] for x in vd), t, nodata)
        v = dict(name=n, dims=vd, values=None if rng.random() < .2 else a, dtype=t, atts=some_atts(rng))
        if lossy and np.dtype(t).kind == 'f' and rng.random() < .5:
            v['least_significant_digit'] = rng.choice([1, 2, 3])
            v['values'] = None if v['values'] is None else np.clip(v['values'], -9999, 12345.678)
        vs.append(v)
    return dims, vs


def told(dims, vs, gatts, ids, nodata, write=1, lsd=None, filled=1):
    c = dict(dims=[dict(name=d['name'], values=nc_h.bits64(np.array(d['values'], d['dtype'])),
                        atts=[[k, ids[canon(x)]] for k, x in (d['atts'] or {}).items()]) for d in dims], vars=[],
             gatts=[[k, ids[canon(x)]] for k, x in gatts.items()], write=write, filled=filled, bad='', keep=0)
    for v in vs:
        digit = v.get('least_significant_digit', lsd)
        tol = 10. ** -digit if digit is not None and np.dtype(v['dtype']).kind == 'f' else 0
        a = np.array(0 if v['values'] is None else v['values'], v['dtype'])
        c['vars'].append(dict(name=v['name'], dims=list(v['dims']), values=numbers(a, tol), has=int(v['values'] is not None),
                              tol=int(bool(tol)), fill=numbers(np.array([nodata], v['dtype']), tol)[0],
                              atts=[[k, ids[canon(x)]] for k, x in (v['atts'] or {}).items()], _tol=tol))
    return c


def read(fn, c, ids):
    from netCDF4 import Dataset
    tol = {v['name']: v.pop('_tol') for v in c['vars']}
    with Dataset(fn) as ds:
        ds.set_auto_maskandscale(False)
        return dict(dims=[dict(name=n, size=len(x)) for n, x in ds.dimensions.items()],
                    vars=[dict(name=n, dims=list(v.dimensions), values=numbers(v[...], tol.get(n, 0)),
                               atts=[[k, ids[canon(v.getncattr(k))]] for k in v.ncattrs()]) for n, v in ds.variables.items()],
                    gatts=[[k, ids[canon(ds.getncattr(k))]] for k in ds.ncattrs()])


def handles(fn):
    fn, n = os.path.realpath(fn), 0
    for f in os.listdir('/proc/self/fd'):
        try:
            n += os.path.realpath('/proc/self/fd/' + f) == fn
        except OSError:
            pass
    return n


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    return a == b


def work(d, seed, out):
    rng = random.Random(seed)
    from netCDF4 import Dataset
    from utilities import nctools
    r = dict(out='', kept=0, closed=1, same=1, crs=1, file={})
    ids = whole_h.Ids()
    kind = rng.choice(['grid'] * 5 + ['parts'] * 2 + ['bad'] * 2 + ['mult'])
    fn = os.path.join(d, rng.choice(['a.nc', 'x y.nc', 'e1.5s2_mz_n.nc']))
    nodata = rng.choice([-9999, -9999, 0, -1, 99])
    if rng.random() < .4:      # an earlier file is there
        with Dataset(fn, 'w', format=rng.choice(['NETCDF3_CLASSIC', 'NETCDF4'])) as ds:
            ds.createDimension('old', 50)
            ds.createVariable('left', 'd', ('old',))[:] = 5
    if kind == 'mult':
        from utilities.config import configparser
        new = nc_h.settings(rng, d)
        with open(os.path.join(d, 'c.cfg'), 'w', encoding='utf-8') as f:
            for s in new:
                f.write('[%s]\n' % s + ''.join('%s = %s\n' % x for x in new[s].items()))
        configparser.set_config_file(os.path.join(d, 'c.cfg'))
        h, w = rng.randint(1, 6), rng.randint(1, 6)
        a = np.array([[rng.uniform(.5, 1.8) for _ in range(w)] for _ in range(h)])
        lon, lat = nctools.get_lat_lon((140., -20., 140. + .25 * w, -20. - .5 * h), .25, .5)
        name = rng.choice(['Mz', 'Ms', 'Mt'])
        fn = os.path.join(d, 'e1.5s2_%s_%s.nc' % (name.lower(), rng.choice(whole_h.DIRS)))
        nctools.save_multiplier(name, a, lat, lon, fn)
        r['closed'] = int(handles(fn) == 0)
        with Dataset(fn) as ds:
            r['crs'] = int(any(
                getattr(v, 'grid_mapping_name', '') == 'latitude_longitude' and
                abs(getattr(v, 'semi_major_axis', 0) - 6378137) < 1e-6 and
                abs(getattr(v, 'inverse_flattening', 0) - 298.2572) < 1e-3 for v in ds.variables.values()))
            other = [n for n in ds.variables if n not in ('lat', 'lon', name)]
        c = told([dict(name='lat', values=lat, dtype='d', atts={'units': 'degrees_north'}),
                  dict(name='lon', values=lon, dtype='d', atts={'units': 'degrees_east'})],
                 [dict(name=name, dims=('lat', 'lon'), values=a, dtype='f', atts={})],
                 {}, ids, -9999)
        r['file'] = read(fn, c, ids)
        r['file']['vars'] = [v for v in r['file']['vars'] if v['name'] not in other]
        r['call'] = c
    elif kind == 'parts':
        dims, vs = descr(rng, nodata, False)
        with Dataset(fn, 'w', format='NETCDF3_CLASSIC') as ds:
            for x in dims:
                nctools.nc_create_dim(ds, x['name'], x['values'], x['dtype'], x['atts'] or None)
            for v in vs:
                data = v['values']
                if data is not None and data.ndim and rng.random() < .3:
                    data = data.tolist()
                kw = rng.choice([{}, dict(fill_value=nodata)])
                var = nctools.nc_create_var(ds, v['name'], v['dims'], v['dtype'], data=data, atts=v['atts'] or None, **kw)
                r['same'] &= int(var.name == v['name'])
        c = told(dims, vs, {}, ids, nodata, filled=0)
        r['file'] = read(fn, c, ids)
        r['call'] = c
    else:
        lsd = rng.choice([None, None, None, 2])
        dims, vs = descr(rng, nodata, rng.random() < .3)
        if lsd is not None:
            for v in vs:
                if v['values'] is not None:
                    v['values'] = np.clip(v['values'], -9999, 12345.678)
        gatts = some_atts(rng)
        kw = dict(nodata=nodata) if nodata != -9999 else {}
        if lsd is not None:
            kw['lsd'] = lsd
        if gatts:
            kw['gatts'] = gatts
        if rng.random() < .5:
            kw['datatitle'] = rng.choice(['A title', 'Mz multiplier'])
        if rng.random() < .2:
            kw['writedata'] = False
        if rng.random() < .3:
            kw.update(zlib=rng.random() < .5, complevel=rng.choice([1, 9]))
        keep = kind == 'grid' and rng.random() < .3
        if keep:
            kw['keepfileopen'] = True
        key = rng.choice([lambda k: k, lambda k: 10 - k, lambda k: 'k%d' % k])
        D, W = {key(k): x for k, x in enumerate(dims)}, {key(k): x for k, x in enumerate(vs)}
        bad = ''
        if kind == 'bad':
            how = rng.choice(['dim', 'var', 'shape', 'folder'])
            if how == 'dim':
                del rng.choice(dims)[rng.choice(['name', 'values', 'dtype', 'atts'])]
            elif how == 'var':
                del rng.choice(vs)[rng.choice(['name', 'values', 'dtype', 'dims', 'atts'])]
            elif how == 'shape':
                v = rng.choice(vs)
                v['values'] = np.zeros((1,) * (len(v['dims']) + rng.choice([1, 2])))
            else:
                fn = os.path.join(d, 'none', 'a.nc')
            bad = dict(dim='KeyError', var='KeyError', shape='ValueError', folder='OSError')[how]
        else:
            c = told(dims, vs, dict(gatts, **({'title': kw['datatitle']} if 'datatitle' in kw else {})), ids, nodata,
                     int(kw.get('writedata', True)), lsd)
        was = copy.deepcopy((D, W, kw))
        try:
            obj = nctools.nc_save_grid(fn, D, W, **kw)
        except Exception as e:
            r['out'] = 'OSError' if isinstance(e, OSError) else type(e).__name__
            obj, r['msg'] = None, repr(e)
            e = None
        r['same'] = int(all(same(a, b) for a, b in zip(was, (D, W, kw))))
        if bad:
            r['call'] = dict(bad=bad)
            r['closed'] = int(handles(fn) == 0)
        else:
            c['keep'] = int(keep)
            r['call'] = c
            if keep and obj is not None:
                todo = [v for v in c['vars'] if v['has'] and not c['write']]
                for v in vs:      # the caller writes what was not written
                    if todo and v['name'] in [t['name'] for t in todo] and v['name'] in obj.variables:
                        obj.variables[v['name']][...] = np.array(v['values'], v['dtype'])
                if todo:
                    c['write'] = 1
                obj.setncattr('later', 'yes')
                c['gatts'].append(['later', ids[canon('yes')]])
                r['kept'] = 1
                obj.close()
            else:
                r['kept'] = int(obj is not None)
            r['closed'] = int(handles(fn) == 0)
            if r['out'] == '':
                r['file'] = read(fn, c, ids)
    for v in r['call'].get('vars', []):
        v.pop('_tol', None)
    r['kind'] = kind
    with open(out, 'wb') as o:
        pickle.dump(r, o)


def record(ctx, i, job):
    d = ctx.dir('gf%d' % i)
    out = os.path.join(d, 'out.pkl')
    err = whole_h.forked(work, d, job['seed'], out)
    if err is not None:
        return dict(call=dict(bad=''), out='died', msg=err, seed=job['seed'])
    return dict(pickle.load(open(out, 'rb')), seed=job['seed'])


def run_c39(ctx):
    with vlib.quiet():
        import all_multipliers  # noqa: F401 (so that the processes need not)
    inv = dict(invariants=['Complete', 'Refused', 'NoSilence'])
    for f in ('first', 'last', 'fill', 'leak'):
        if not ctx.quick or f in ('first', 'leak'):
            ctx.mc_must_fail('GridFile', dict(MaxDims=2, MaxVars=2, Fault=f), **inv)
    ctx.mc('GridFile', dict(MaxDims=2, MaxVars=ctx.pick(2, 3), Fault='none'), properties=['Ends'], min_states=1000, **inv)
    jobs = [dict(seed=ctx.rng.randint(0, 10 ** 9)) for _ in range(ctx.pick(500, 8000))]
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, j: record(ctx, i, j), nproc=8)]
    ctx.sample(recs[0])
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({repr(r['call']) for r in recs}))
    ctx.validate('GridFileTrace', recs)
