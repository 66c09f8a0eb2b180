"""Small rasters for the checks."""
import os

import numpy as np
from osgeo import gdal, osr

gdal.UseExceptions()     # as the program runs (utilities.convert)
_WKT = {}


def wkt(epsg=4326):
    if epsg not in _WKT:
        s = osr.SpatialReference()
        s.ImportFromEPSG(epsg)
        _WKT[epsg] = s.ExportToWkt()
    return _WKT[epsg]


TYPES = {'f4': gdal.GDT_Float32, 'i4': gdal.GDT_Int32, 'i2': gdal.GDT_Int16,
         'u1': gdal.GDT_Byte, 'f8': gdal.GDT_Float64, 'u2': gdal.GDT_UInt16,
         'u4': gdal.GDT_UInt32}


def make(fn, nx, ny, pw, ph=None, x0=143.0, y0=-20.0, arr=None, dtype='f4',
         nodata=None, driver=None, sparse=False, epsg=4326):
    """Write a raster (y0 = latitude of the northern edge)."""
    ph = pw if ph is None else ph
    if driver is None:
        driver = 'HFA' if fn.endswith('.img') else 'GTiff'
    opts = ['SPARSE_OK=TRUE'] if (sparse and driver == 'GTiff') else []
    d = gdal.GetDriverByName(driver).Create(fn, nx, ny, 1, TYPES[dtype], opts)
    d.SetProjection(wkt(epsg))
    d.SetGeoTransform((x0, pw, 0, y0, 0, -ph))
    b = d.GetRasterBand(1)
    if arr is not None:
        b.WriteArray(np.asarray(arr))
    if nodata is not None:
        b.SetNoDataValue(nodata)
    b = None
    d.FlushCache()
    d = None
    return fn


def mem(nx, ny, pw, ph=None, x0=143.0, y0=-20.0, arr=None, dtype='f4',
        nodata=None):
    return _mem(nx, ny, pw, pw if ph is None else ph, x0, y0, arr, dtype, nodata)


def _mem(nx, ny, pw, ph, x0, y0, arr, dtype, nodata):
    d = gdal.GetDriverByName('MEM').Create('', nx, ny, 1, TYPES[dtype])
    d.SetProjection(wkt())
    d.SetGeoTransform((x0, pw, 0, y0, 0, -ph))
    b = d.GetRasterBand(1)
    if arr is not None:
        b.WriteArray(np.asarray(arr))
    if nodata is not None:
        b.SetNoDataValue(nodata)
    return d


def read(fn, band=1):
    d = gdal.Open(fn)
    a = d.GetRasterBand(band).ReadAsArray()
    gt = d.GetGeoTransform()
    d = None
    return a, gt
