"""C05: see lib/grids_h.py and spec/Grids.tla."""
from grids_h import run_res as run  # noqa: F401
