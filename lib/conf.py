"""Configuration and geodesy helpers shared by the harnesses."""
import math
import os

from rasters import gdal  # noqa: F401


def write_table(fn, rows, comment=False):
    """rows: (category, roughness in m, shielding)"""
    with open(fn, 'w') as f:
        if comment:
            f.write('# a comment\n')
        f.write('CATEGORY,DESCRIPTION,ROUGHNESS_LENGTH_m,SHIELDING\n')
        for c, z, s in rows:
            f.write('%d,"class %d, text",%r,%r\n' % (c, c, z, s))
    return fn


def write_cfg(fn, out, dem='dem.tif', lc='lc.tif', table='t.csv', upwind=0.01,
              root='root', log=None, extra=''):
    log = log or os.path.join(os.path.dirname(fn), 'log.txt')
    with open(fn, 'w') as f:
        f.write("""[inputValues]
root = %s
upwind_length = %r
terrain_data = %s
terrain_table = %s
dem_data = %s
[Output]
output_dir = %s
[Logging]
LogFile = %s
LogLevel = INFO
Verbose = False
%s""" % (root, upwind, lc, table, dem, out, log, extra))
    return fn


def use(cfgfile):
    from utilities.config import configparser
    configparser.set_config_file(cfgfile)


A, B = 6378137.0, 6356752.3142
E2 = 1 - (B / A) ** 2


def cell_m(lat, dlon, dlat):
    """Width and height in metres of a cell at a latitude (ellipsoid)."""
    p = math.radians(lat)
    s = 1 - E2 * math.sin(p) ** 2
    return (A / math.sqrt(s) * math.cos(p) * math.radians(dlon),
            A * (1 - E2) / s ** 1.5 * math.radians(dlat))


def mean_cell(y0, ph, rows, pw):
    """0.5 (mean width + mean height) of a raster, metres."""
    w = h = 0.0
    for i in range(rows):
        a, b = cell_m(y0 - (i + .5) * ph, pw, ph)
        w += a
        h += b
    return 0.5 * (w + h) / rows


def out_dirs(d):
    for s in ('terrain', 'shielding', 'topographic', 'M3', 'M3_max'):
        os.makedirs(os.path.join(d, s), exist_ok=True)
    return d
