"""C15: see lib/terrain_h.py and spec/Terrain.tla."""
from terrain_h import run_tile as run  # noqa: F401
