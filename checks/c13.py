"""C13: see lib/terrain_h.py and spec/Terrain.tla."""
from terrain_h import run_class as run  # noqa: F401
