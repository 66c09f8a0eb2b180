#!/usr/bin/env python3
"""Nothing to build: check that the tools are there and the specs parse."""
import os
import subprocess
import sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
rc = subprocess.call(['/opt/venv/bin/python', '-c', 'import numpy, netCDF4, osgeo.gdal'])
rc |= subprocess.call(['java', '-version'], stderr=subprocess.DEVNULL)
sys.exit(rc)
