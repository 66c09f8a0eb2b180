"""Pre-processing of settlement and land use (C28, C29)."""
import os
import random
import runpy
import shutil
import sys
import warnings

import fiona
from fiona.crs import CRS
from osgeo import gdal, osr
from shapely.geometry import MultiPolygon, Polygon, box, mapping, shape
from shapely.ops import unary_union

import rasters
import run_h
import vlib
import whole_h

SET = ['Major CBD', 'City', 'Urban', 'Large Town', 'Small Town']
ODD = ['Rural Locality', 'Migratory', 'city', 'Town', '']
USE = ['Parkland', 'Primary Production', 'Education', 'Residential', 'Water', 'Other', 'Commercial', 'Industrial',
       'Hospital/Medical', 'Transport']
UODD = ['Shipping', 'water', 'Antarctica', '']


class Ground:
    """A grid of squares, each of two triangles, on the map."""

    def __init__(self, rng, n=7):
        self.n = n
        self.u = rng.choice([1., .25, .5, 2.])
        self.x0, self.y0 = rng.choice([(143., -20.), (0., 0.), (-3., 51.), (150.25, -34.5)])
        self.wx, self.wy = [1] * n, [1] * n
        if rng.random() < .4:       # strips and slivers, down to metres
            self.u = rng.choice([1e-3, 1e-4, 1e-5])
            self.wx, self.wy = ([rng.choice([1, 1, 3, 40, 1000]) for _ in range(n)] for _ in range(2))

    def at(self, x, y):
        def p(w, i):
            return sum(w[:max(i, 0)]) + min(i, 0) + max(i - self.n, 0)
        return (self.x0 + p(self.wx, x) * self.u, self.y0 + p(self.wy, y) * self.u)

    def triangle(self, t):
        x, y, h = t
        return Polygon([self.at(x + h, y + h), self.at(x + 1, y), self.at(x, y + 1)])

    def polygon(self, ts):
        return unary_union([self.triangle(t) for t in ts])

    def triangles(self, g):
        """Those in a geometry, and whether it is exactly them."""
        ts = [(x, y, h) for x in range(self.n) for y in range(self.n) for h in (0, 1)]
        ts = [t for t in ts if g.intersects(self.triangle(t).centroid)]
        ok = g.is_valid and g.symmetric_difference(self.polygon(ts)).area < 1e-3 * self.u ** 2 if ts else g.is_empty
        return [list(t) for t in ts], int(bool(ok))

    def blob(self, rng, most=3):
        """Some triangles: from rectangles, with corners or holes cut."""
        n = self.n
        ts = set()
        for _ in range(rng.choice([1, 1, 2, most])):
            x, y = rng.randint(0, n - 1), rng.randint(0, n - 1)
            w, h = rng.randint(1, min(4, n - x)), rng.randint(1, min(4, n - y))
            ts |= {(x + i, y + j, k) for i in range(w) for j in range(h) for k in (0, 1)}
        if rng.random() < .5:
            for t in rng.sample(sorted(ts), rng.randint(0, len(ts) // 3)):
                ts.discard(t)
        return sorted(ts)


def write(fn, field, rows, geometry='Polygon', epsg=4326):
    with fiona.open(fn, 'w', driver='GPKG' if fn.endswith('.gpkg') else 'ESRI Shapefile', crs=CRS.from_epsg(epsg),
                    schema=dict(geometry=geometry, properties=field)) as o:
        for g, p in rows:
            o.write(dict(geometry=mapping(g) if g is not None else None, properties=p))


def child(d, f, *a):
    """Run it in a process of its own in the folder d (it leaves a log)."""
    def g():
        os.chdir(d)
        sys.setswitchinterval(1e-6)
        f(*a)
    return whole_h.forked(g)


def script(name, *args):
    sys.argv = [name] + list(args)
    runpy.run_path(os.path.join(vlib.REPO, name), run_name='__main__')


def do_pre_process(*a):
    import pre_process
    pre_process.pre_process(*a)


# ----------------------------------------------------------------------- C28
def scene(rng):
    g = Ground(rng, rng.choice([4, 6, 7, 7, 7, 11]))
    ss = []
    for _ in range(rng.choice([0, 1, 2, 4, 6, 20])):
        t = rng.choice(SET) if rng.random() < .75 else rng.choice(ODD)
        if ss and rng.random() < .3:
            t = rng.choice(ss)['t']
        ss.append(dict(t=t, a=g.blob(rng)))
    if rng.random() < .1:       # many small ones
        two = rng.sample(SET, 2)
        ts = [(x, y, h) for x in range(g.n) for y in range(g.n) for h in (0, 1)]
        ss = [dict(t=rng.choice(two), a=[t]) for t in rng.sample(ts, rng.randint(len(ts) // 2, len(ts)))]
    ps = []
    for k in range(rng.randint(1, 8) if rng.random() < .9 else 60):
        ps.append(dict(id=k + 1, l=rng.choice(USE) if rng.random() < .9 else rng.choice(UODD), a=g.blob(rng)))
    if rng.random() < .3:   # parcels side by side
        cut = sorted(rng.sample(range(1, g.n), 2))
        ps = [dict(id=k + 1, l=rng.choice(USE), a=[(x, y, h) for x in range(a, b) for y in range(g.n) for h in (0, 1)])
              for k, (a, b) in enumerate(zip([0] + cut, cut + [g.n]))]
    crop = None
    if rng.random() < .5:
        x, y = rng.randint(0, g.n - 2), rng.randint(0, g.n - 2)
        crop = [x, rng.randint(x + 1, g.n), y, rng.randint(y + 1, g.n)]
        if rng.random() < .2:
            crop = [-1, g.n + 1, -2, g.n]
    return g, ss, ps, crop


def lay(rng, d, g, ss, ps, crop):
    """Write the layers."""
    sname, lname = rng.choice([('SET', 'LU'), ('SETTLEMENT', 'MB_CAT16'), ('TYPE', 'USE')])
    if not ss:     # a layer that is somewhere else
        ss = [dict(t='City', a=[])]
        srows = [(box(*g.at(40, 40), *g.at(41, 41)), {sname: 'City'})]
    else:
        srows = [(g.polygon(s['a']), {sname: s['t'] or None}) for s in ss]
    if rng.random() < .2:
        srows.insert(0, (None, {sname: 'City'}))
    write(os.path.join(d, 's.shp'), {sname: 'str:50'}, srows)
    write(os.path.join(d, 'l.shp'), {'ID': 'int', lname: 'str:50'},
          [(g.polygon(p['a']), {'ID': p['id'], lname: p['l'] or None}) for p in ps])
    mask = 'None'
    if crop:
        mask = os.path.join(d, 'm.shp')
        x1, x2, y1, y2 = crop
        m = rng.choice([box(*g.at(x1, y1), *g.at(x2, y2)), Polygon([g.at(x1, y1), g.at(x2, y1), g.at(x1, y2)])])
        write(mask, {'A': 'str:5'}, [(m, {'A': 'x'})])
    return ss, sname, lname, mask


def record_c28(ctx, i, job):
    rng = random.Random(job)
    g, ss, ps, crop = scene(rng)
    d = ctx.dir('p%d' % i)
    ss, sname, lname, mask = lay(rng, d, g, ss, ps, crop)
    out = os.path.join(d, rng.choice(['o.shp', 'merged.shp']))
    r = dict(exc=0, ss=ss, ps=ps, box=crop or [], wx=g.wx, wy=g.wy, out=[])
    if job % 4 == 0:
        err = child(d, script_pre_process, d, sname, lname, mask, out, None)
    else:
        err = child(d, do_pre_process, os.path.join(d, 's.shp'), sname, os.path.join(d, 'l.shp'), lname, mask, out)
    if err:
        r.update(exc=1, msg=err)
    else:
        st, x = vlib.attempt(lambda: [one(g, f, sname, lname) for f in fiona.open(out)])
        if st == 'ok':
            r['out'] = x
        else:
            r.update(exc=1, msg='cannot read the output: ' + str(x))
    shutil.rmtree(d)
    return r


def one(g, f, sname, lname):
    p = dict(f['properties'])
    ts, exact = g.triangles(shape(f['geometry']))
    return dict(id=p['ID'], l=p[lname] or '', t=p[sname] or '', cat=p['CAT'], a=ts, exact=exact)


def script_pre_process(d, sname, lname, mask, out, topo):
    """The command, with a configuration file (and a raster of its own)."""
    if topo is None:
        topo = rasters.make(os.path.join(d, 'dem.tif'), 3, 2, 1., 1., 143., -20., [[1] * 3] * 2)
    cfg = os.path.join(d, 'c.cfg')
    with open(cfg, 'w') as f:
        f.write("""[Preprocessing]
settlement_data = %s
settlement_cat = %s
land_use_data = %s
land_use_cat = %s
crop_mask = %s
output_shapefile = %s
output_rasterized = %s
input_topo = True
[inputValues]
dem_data = %s
""" % (os.path.join(d, 's.shp'), sname, os.path.join(d, 'l.shp'), lname, mask, out, os.path.join(d, 'out.tiff'), topo))
    script('pre_process.py', '-c', cfg)


def preload():
    with vlib.quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        import utilities.config  # noqa: F401
        import utilities.shapefiles  # noqa: F401


def run_c28(ctx):
    c = dict(W=2, MaxSet=2)
    inv = ['Right', 'Inside', 'Perm']
    ctx.mc('Preproc', dict(c, W=ctx.pick(1, 2), MaxSet=ctx.pick(3, 2), Fault='none'), invariants=inv, min_states=1000)
    if not ctx.quick:
        ctx.mc('Preproc', dict(W=1, MaxSet=4, Fault='none'), invariants=inv)
    for f in ('single', 'drop', 'crop', 'first'):
        if not ctx.quick or f in ('single', 'first'):
            ctx.mc_must_fail('Preproc', dict(W=2 if f in ('crop', 'single') else 1, MaxSet=2 if f != 'single' else 3, Fault=f)
                             if not ctx.quick else dict(W=1, MaxSet=3, Fault=f), invariants=inv)
    preload()
    jobs = [ctx.rng.randint(0, 10 ** 9) for _ in range(ctx.pick(300, 5000))]
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, j: record_c28(ctx, i, j), nproc=8)]
    ctx.sample(recs[0])
    ctx.count('evaluations', sum(len(r['ps']) for r in recs))
    ctx.count('distinct_nontrivial', len({repr(r['ps']) + repr(r['ss']) for r in recs}))
    ctx.validate('PreprocTrace', recs)


# ----------------------------------------------------------------------- C29
def rings_of(p):
    ps = p.geoms if isinstance(p, MultiPolygon) else [p]
    return [[(int(x), int(y)) for x, y in list(r.coords)[:-1]] for q in ps for r in [q.exterior] + list(q.interiors)]


def draw(rng, w, h):
    """A polygon in eighths of a cell around a grid of w x h cells."""
    def pt():
        return (rng.randint(-12, 8 * w + 12), rng.randint(-12, 8 * h + 12))
    while True:
        k = rng.random()
        if k < .3:
            a, b = pt(), pt()
            p = box(min(a[0], b[0]), min(a[1], b[1]), max(a[0], b[0]), max(a[1], b[1]))
        elif k < .6:
            p = Polygon([pt() for _ in range(3)])
        elif k < .8:
            p = Polygon([pt() for _ in range(rng.randint(4, 6))])
        elif k < .9:
            x, y = pt()
            a, b = rng.randint(12, 50), rng.randint(12, 50)
            p = Polygon([(x, y), (x + a, y), (x + a, y + b), (x, y + b)],
                        [[(x + 3, y + 3), (x + a - 4, y + 2), (x + 2, y + b - 5)]])
        else:
            p = MultiPolygon([draw_one(rng, pt) for _ in range(2)])
        if p.is_valid and p.area > 8:
            return p


def draw_one(rng, pt):
    (x, y), a, b = pt(), rng.randint(4, 20), rng.randint(4, 20)
    return Polygon([(x, y), (x + a, y), (x, y + b)])


class Grid:
    def __init__(self, rng):
        self.W, self.H = rng.randint(1, 9), rng.randint(1, 9)
        if rng.random() < .05:      # many rows or columns
            self.W, self.H = rng.choice([(3, 140), (150, 2), (2, 280)])
        self.epsg = rng.choice([4326, 4326, 7844, 28356])
        if self.epsg == 28356:
            self.pw, self.ph = rng.choice([(25., 25.), (30., 20.), (10., 12.5)])
            self.x0, self.y0 = 334000., 6250000.
        else:
            self.pw, self.ph = rng.choice([(1., 1.), (.25, .5), (.1, .1), (.00027, .00027), (.01, .02), (1 / 3600., 1 / 3600.), (1 / 1200., 1 / 7200.)])
            self.x0, self.y0 = rng.choice([(143., -20.), (150.4, -33.25), (115.125, -12.5)])

    def on_map(self, p):
        from shapely.affinity import affine_transform
        return affine_transform(p, [self.pw / 8, 0, 0, -self.ph / 8, self.x0, self.y0])

    def raster(self, fn):
        ds = gdal.Open(fn)
        gt = ds.GetGeoTransform()
        x, y = (gt[0] - self.x0) / self.pw, (self.y0 - gt[3]) / self.ph
        srs = osr.SpatialReference(wkt=ds.GetProjection()) if ds.GetProjection() else None
        ref = osr.SpatialReference()
        ref.ImportFromEPSG(self.epsg)
        same = srs is not None and srs.IsSame(ref) and abs(x - round(x)) < 1e-3 and abs(y - round(y)) < 1e-3 and \
            abs(gt[1] / self.pw - 1) < 1e-6 and abs(-gt[5] / self.ph - 1) < 1e-6 and gt[2] == gt[4] == 0
        b = ds.GetRasterBand(1)
        nd = b.GetNoDataValue()
        return dict(same=int(bool(same)), x=int(round(x)), y=int(round(y)), w=ds.RasterXSize, h=ds.RasterYSize,
                    nodata=-1 if nd is None else int(nd), v=[[int(v) for v in row] for row in b.ReadAsArray()])


def do_rasterize(*a):
    import pre_process
    pre_process.rasterize(*a)


def record_c29(ctx, i, job):
    rng = random.Random(job)
    g = Grid(rng)
    d = ctx.dir('r%d' % i)
    j = os.path.join
    elev = [[rng.randint(1, 900) for _ in range(g.W)] for _ in range(g.H)]
    topo = rasters.make(j(d, 'topo.tif'), g.W, g.H, g.pw, g.ph, g.x0, g.y0, elev, rng.choice(['f4', 'i4', 'i2']),
                        nodata=rng.choice([None, -9999, 0]), epsg=g.epsg)
    fs = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        fs.append((draw(rng, g.W, g.H), rng.choice([1, 7, 105, 208, 311, 505, 255, 256, 11, 32768, 40001, 65535])))
    # the attribute may be named, by default it is CAT
    a = rng.choice([None, None, 'CAT', 'OTHER', 'ZONE'])
    other = 'OTHER' if a in (None, 'CAT') else 'CAT'
    write(j(d, 'l.shp'), {a or 'CAT': 'int', other: 'int'},
          [(g.on_map(p), {a or 'CAT': c, other: rng.choice([3, c + 1])}) for p, c in fs], epsg=g.epsg)
    opts = [rng.choice(['-a', '--attribute']), a] if a else []
    r = dict(exc=0, W=g.W, H=g.H, fs=[dict(rings=rings_of(p), cat=c) for p, c in fs], mask=[], elev=elev,
             grid=repr((g.pw, g.ph, g.x0, g.y0, g.epsg)))
    how = rng.choice(['function', 'script', 'crop', 'crop'])
    out = j(d, 'test.tiff')
    if how == 'function':
        out = j(d, 'o.tif')
        err = child(d, do_rasterize, j(d, 'l.shp'), out, topo, None, *opts[1:])
    elif how == 'script':
        err = child(d, script, 'rasterize.py', '-i', j(d, 'l.shp'), '-t', topo, *opts)
    else:
        while True:    # its box follows the cells of the grid
            k = rng.random()
            x1, y1 = rng.randint(0, g.W - 1), rng.randint(0, g.H - 1)
            x2, y2 = rng.randint(x1 + 1, g.W), rng.randint(y1 + 1, g.H)
            if k < .4:
                m = box(8 * x1, 8 * y1, 8 * x2, 8 * y2)
            elif k < .7:
                m = Polygon([(8 * x1, 8 * y1), (8 * x2, 8 * y1), (8 * x1, 8 * y2)])
            else:
                m = Polygon([(8 * x1, rng.randint(8 * y1, 8 * y2)), (rng.randint(8 * x1, 8 * x2), 8 * y1),
                             (8 * x2, rng.randint(8 * y1, 8 * y2)), (rng.randint(8 * x1, 8 * x2), 8 * y2)])
            if m.is_valid and m.area > 0:
                break
        r['mask'] = rings_of(m)
        write(j(d, 'm.shp'), {'A': 'str:5'}, [(g.on_map(m), {'A': 'x'})], epsg=g.epsg)
        err = child(d, script, 'rasterize.py', '-i', j(d, 'l.shp'), '-t', topo, '-c', j(d, 'm.shp'), *opts)
    r['how'] = how
    r['attribute'] = str(a)
    if err is None:
        st, x = vlib.attempt(lambda: dict(out=g.raster(out), **(dict(
            crop=g.raster(j(d, 'test_crop.tiff')), topo=g.raster(j(d, 'topo_crop.tif'))) if r['mask'] else {})))
        if st == 'ok':
            r.update(x)
        else:
            err = 'cannot read the output: ' + str(x)
    if err:
        r.update(exc=1, msg=err)
    shutil.rmtree(d)
    return r


def run_c29(ctx):
    c = dict(Rows=2, Cols=3, Coords={0, 4, 7, 16, 21})
    inv = ['Burnt', 'Convex']
    ctx.mc('Rasterize', dict(c, Coords={0, 9, 21} if ctx.quick else {0, 4, 7, 9, 16, 21}, Fault='none'), invariants=inv,
           min_states=500)
    for f in ('corner', 'transposed'):
        ctx.mc_must_fail('Rasterize', dict(c, Fault=f), invariants=['Burnt'])
    preload()
    jobs = [ctx.rng.randint(0, 10 ** 9) for _ in range(ctx.pick(300, 5000))]
    recs = [v for _, v in run_h.pool(ctx, jobs, lambda i, j: record_c29(ctx, i, j), nproc=8)]
    ctx.sample(recs[0])
    ctx.count('evaluations', len(recs))
    ctx.count('distinct_nontrivial', len({repr(r['fs']) for r in recs}))
    ctx.validate('RasterizeTrace', recs)
