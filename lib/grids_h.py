"""Recording of cut elevation tiles (C04) and resampled land cover (C05)."""
import os

import numpy as np

import rasters
import vlib
from rasters import gdal


MISSING, ANY = -2000000000, -2000000001


def model(ctx):
    ctx.mc('Grids', dict(MaxN=2, MaxP=2 if ctx.quick else 4, MaxOff=2 if ctx.quick else 5),
           invariants=['NoInvention', 'AlignedIsCut', 'ContainedExact'],
           min_states=100)


def readback(fn, unit, x0, y0, vscale, r):
    """Grid and values written, on the integer lattice of the record."""
    ds = gdal.Open(fn)
    gt = ds.GetGeoTransform()
    a = ds.GetRasterBand(1).ReadAsArray().astype(float)
    p = ds.GetSpatialRef()
    r['proj'] = int(p is not None and bool(p.IsGeographic()) and 'WGS' in ds.GetProjection())
    ds = None

    def u(x):
        return int(max(-2e9, min(2e9, round(1000 * x / unit))))
    r['og'] = dict(x0=u(gt[0] - x0), y0=u(y0 - gt[3]), pw=u(gt[1]), ph=u(-gt[5]),
                   nx=a.shape[1], ny=a.shape[0])
    if gt[2] or gt[4]:
        r['og']['pw'] = -1
    if 'ri' in r and a.shape == (r['g']['ny'], r['g']['nx']):
        a = a[np.ix_(r['ri'], r['rj'])]
    r['ov'] = [[vlib.scaled(v, vscale) for v in row] for row in a]


def cut_cases(ctx, n):
    rng = ctx.rng
    for i in range(n):
        W, H = rng.randint(1, 14), rng.randint(1, 14)
        big = i % 50 == 9
        if big:         # many rows or columns
            W, H = rng.choice([(300, 30), (40, 280), (140, 135)])
        unit = rng.choice([0.25, 0.1, 1 / 3., 0.01, 1 / 3600., 0.000833333333,
                           rng.uniform(0.001, 0.5)])
        kx = rng.choice([1, 1, 2, 3])
        ky = kx if rng.random() < .6 else rng.choice([1, 2, 3])
        x0 = rng.choice([143.0, 145.123456, -70.25, 0.0, 139.99986])
        y0 = rng.choice([-20.0, -16.25, -41.1234567, 3.5])
        c0, r0 = rng.randint(0, W - 1), rng.randint(0, H - 1)
        c1, r1 = rng.randint(c0 + 1, W), rng.randint(r0 + 1, H)
        if i % 4 == 0 or big and rng.random() < .5:
            c0, r0, c1, r1 = 0, 0, W, H
        yield W, H, unit, kx, ky, x0, y0, c0, c1, r0, r1, rng.choice(
            ['f4', 'f4', 'i4', 'i4', 'i2', 'u1', 'u2'] if not big else ['f4', 'i4'])


def record_cut(case, d, am, rng, use_cut):
    W, H, unit, kx, ky, x0, y0, c0, c1, r0, r1, dt = case
    fn, out = os.path.join(d, 'dem.tif'), os.path.join(d, 'tile_dem.img')
    vs = 4 if dt == 'f4' else 1
    perm = np.array(rng.sample(range(1, W * H + 1), W * H)).reshape(H, W)
    if dt in ('i4', 'f4') and rng.random() < .5 and (dt != 'f4' or W * H < 1000):
        perm = perm * (7919 if dt == 'f4' else 100003)      # large values
        if rng.random() < .5:
            perm = -perm
    z, nodata = np.array(perm / vs if vs > 1 else perm), None
    hole = np.array([[rng.random() < .15 for _ in range(W)] for _ in range(H)])
    perm = perm.astype(object)
    if rng.random() < .4:      # cells without elevation: not a number, or declared as missing
        if dt == 'f4' and rng.random() < .6:
            z[hole], perm[hole] = np.nan, MISSING
        else:
            nodata = dict(u1=255, u2=65535, i2=-32768).get(dt, -9999)
            z[hole], perm[hole] = nodata, ANY
    rasters.make(fn, W, H, unit * kx, unit * ky, x0, y0, z, dt, nodata=nodata)
    s = dict(x0=0, y0=0, pw=kx, ph=ky, nx=W, ny=H)
    g = dict(x0=c0 * kx, y0=r0 * ky, pw=kx, ph=ky, nx=c1 - c0, ny=r1 - r0)
    r = dict(kind='cut', exc=0, case=repr(case), s=s, g=g, v=perm.tolist())
    if W * H > 1000:
        r.update(ri=vlib.some(rng, g['ny']), rj=vlib.some(rng, g['nx']))
    ext = (x0 + c0 * kx * unit, y0 - r0 * ky * unit,
           x0 + c1 * kx * unit, y0 - r1 * ky * unit)

    def get():
        m = am.Multipliers('unused.tif', fn)
        m.open_dem()
        if use_cut:
            am.output_folder = d
            p = m.cut_dem(['tile', ext, ext])
        else:
            m.clip_dataset(ext, out)
            p = out
        m.dem_ds = None
        return p
    st, v = vlib.attempt(get)
    if st == 'exc':
        r.update(exc=1, msg=v)
    else:
        readback(v, unit, x0, y0, vs, r)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    return r


def run_cut(ctx):
    import all_multipliers as am
    model(ctx)
    d = ctx.dir('r')
    recs = []
    for i, c in enumerate(cut_cases(ctx, ctx.pick(260, 4000))):
        recs.append(record_cut(c, d, am, ctx.rng, i % 2))
    done(ctx, recs)


def done(ctx, recs):
    ctx.sample(recs[0])
    ctx.sample(recs[-1])
    ctx.count('evaluations', len(recs))
    ctx.count('cells_judged', sum(r['g']['nx'] * r['g']['ny'] for r in recs))
    ctx.count('distinct_nontrivial', len({r['case'] for r in recs
                                          if r['g']['nx'] * r['g']['ny'] > 1}))
    ctx.validate('GridsTrace', recs)


def res_cases(ctx, n):
    rng = ctx.rng
    for i in range(n):
        unit = rng.choice([0.01, 1 / 1200., 0.0005, 1 / 360.])
        sp = rng.choice([2, 4, 6, 10, 3, 5, 7])
        gp = rng.choice([2, 4, 6, 10, 3, 5, 7])
        if i % 5 == 0:
            gp = sp
        spy, gpy = (sp, gp) if rng.random() < .6 else (rng.choice([2, 5, 6]), rng.choice([2, 3, 8]))
        nx, ny = rng.randint(1, 12), rng.randint(1, 12)
        gx, gy = rng.randint(1, 12), rng.randint(1, 12)
        ox = rng.randint(-3 * gp, max(1, nx * sp // 2))
        oy = rng.randint(-3 * gpy, max(1, ny * spy // 2))
        if i % 3 == 0:          # aligned, inside
            ox, oy = rng.randint(0, nx - 1) * sp, rng.randint(0, ny - 1) * spy
        big = i % 50 == 9
        if big:         # many rows or columns
            nx, ny = rng.choice([(300, 30), (40, 280), (140, 135)])
            gx, gy = rng.choice([(280, 40), (30, 300), (140, 135)])
            ox, oy = rng.randint(-3 * gp, 20 * sp), rng.randint(-3 * gpy, 20 * spy)
        if i % 6 == 1:          # as many rows and columns as the tile
            gx, gy = nx, ny
        if i % 12 == 1:         # as many, on cells of the same size
            gp, gpy = sp, spy
        yield (unit, sp, spy, nx, ny, gp, gpy, gx, gy, ox, oy,
               rng.choice(['i4', 'i4', 'f4', 'u1', 'i2', 'u2', 'u4'] if not big else ['i4', 'f4']), rng.randint(0, 3))


def record_res(case, d, am, rng):
    unit, sp, spy, nx, ny, gp, gpy, gx, gy, ox, oy, dt, mode = case
    x0, y0 = 140.0, -30.0
    src, mat, out = (os.path.join(d, f) for f in ('lc.tif', 'dem.img', 'out.img'))
    if rng.random() < .5:
        codes = {'i4': [1, 9, 1011, 16777217, 2000000000, -5], 'f4': [1, 9, 1011, -5], 'u1': [1, 2, 9, 250],
                 'i2': [1, 2, 300, 1011, 32000, -7], 'u2': [1, 255, 256, 1011, 65000], 'u4': [1, 256, 1011, 70000]}[dt]
        v = np.array([[rng.choice(codes) for _ in range(nx)] for _ in range(ny)])
    else:
        v = np.array(rng.sample(range(1, nx * ny + 1), nx * ny)).reshape(ny, nx)
    nodata = None
    if rng.random() < .3:      # a class that is declared as missing
        nodata = int(rng.choice(v.ravel().tolist()))
    rasters.make(src, nx, ny, unit * sp, unit * spy, x0, y0, v, dt, nodata=nodata)
    if nodata is not None:
        v = np.where(v == nodata, ANY, v)
    rasters.make(mat, gx, gy, unit * gp, unit * gpy, x0 + ox * unit, y0 - oy * unit,
                 np.ones((gy, gx)), 'f4')
    s = dict(x0=0, y0=0, pw=sp, ph=spy, nx=nx, ny=ny)
    g = dict(x0=ox, y0=oy, pw=gp, ph=gpy, nx=gx, ny=gy)
    r = dict(kind='resample', exc=0, case=repr(case), s=s, g=g, v=v.tolist())
    if gx * gy > 1000:
        r.update(ri=vlib.some(rng, gy), rj=vlib.some(rng, gx))

    def get():
        a = gdal.Open(src) if mode & 1 else src
        b = mat if mode & 2 else gdal.Open(mat)
        am.reproject_dataset(a, b, out)
    st, x = vlib.attempt(get)
    if st == 'exc':
        r.update(exc=1, msg=x)
    else:
        readback(out, unit, x0, y0, 1, r)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    return r


def record_proj(d, am, rng):
    """Land cover in a projected reference system (UTM 55 S, metres)."""
    from osgeo import osr
    src, mat, out = (os.path.join(d, f) for f in ('lc.tif', 'dem.img', 'out.img'))
    nx, ny = rng.randint(3, 12), rng.randint(3, 12)
    cell = rng.choice([25.0, 100.0, 37.5, 20000.0])
    wide = rng.random() < .2        # wide enough for the bend of the parallels
    if wide:
        nx, ny, cell = rng.randint(150, 250), rng.randint(8, 14), 1000.0
    e0, n0 = 500000.0 + rng.randint(-50000, 50000), 7700000.0 + rng.randint(-99999, 99999)
    v = np.array(rng.sample(range(1, nx * ny + 1), nx * ny)).reshape(ny, nx)
    rasters.make(src, nx, ny, cell, cell, e0, n0, v, rng.choice(['i4', 'f4', 'u1'] if nx * ny < 256 else ['i4', 'f4']),
                 epsg=32755)
    utm, geo = osr.SpatialReference(), osr.SpatialReference()
    utm.ImportFromEPSG(32755)
    geo.ImportFromEPSG(4326)
    for x in (utm, geo):
        x.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
    inv = osr.CoordinateTransformation(utm, geo)
    fwd = osr.CoordinateTransformation(geo, utm)
    lon, lat, _ = inv.TransformPoint(e0, n0)
    gp = rng.choice([0.00025, 0.0005, 0.001] if cell < 1000 else [0.1, 0.2, 0.35])
    gx, gy = rng.randint(2, 10), rng.randint(2, 10)
    if wide:
        gp, gx, gy = rng.choice([.02, .03, .04]), rng.randint(50, 60), rng.randint(2, 6)
    lon += rng.uniform(-2, 2) * gp
    lat += rng.uniform(-2, 2) * gp
    rasters.make(mat, gx, gy, gp, gp, lon, lat, np.ones((gy, gx)), 'f4')
    g = dict(x0=0, y0=0, pw=1, ph=1, nx=gx, ny=gy)
    r = dict(kind='project', exc=0, case='utm', s=dict(x0=0, y0=0, pw=1, ph=1, nx=nx, ny=ny),
             g=g, v=v.tolist(), qx=[], qy=[])
    for i in range(gy):
        p = [fwd.TransformPoint(lon + (j + .5) * gp, lat - (i + .5) * gp) for j in range(gx)]
        r['qx'].append([int(round(1000 * (a[0] - e0) / cell)) for a in p])
        r['qy'].append([int(round(1000 * (n0 - a[1]) / cell)) for a in p])
    mode = rng.randint(0, 2)
    r['case'] = repr((nx, ny, cell, e0, n0, lon, lat, gp, gx, gy, mode))

    def get():
        if mode == 0:
            am.reproject_dataset(src, mat, out)
        elif mode == 1:
            am.reproject_dataset(src, gdal.Open(mat), out)
        else:
            am.reproject_dataset(gdal.Open(src), mat, out, match_projection=4326)
    st, x = vlib.attempt(get)
    if st == 'exc':
        r.update(exc=1, msg=x)
    else:
        readback(out, gp, lon, lat, 1, r)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    return r


def run_res(ctx):
    import all_multipliers as am
    model(ctx)
    d = ctx.dir('r')
    recs = [record_res(c, d, am, ctx.rng)
            for c in res_cases(ctx, ctx.pick(260, 4000))]
    recs += [record_proj(d, am, ctx.rng) for _ in range(ctx.pick(40, 600))]
    done(ctx, recs)
    ctx.assumptions.append('where a cell centre is exactly on an edge of two '
                           'land-cover cells either class is accepted')
