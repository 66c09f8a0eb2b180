"""C02: see lib/tiling_h.py and spec/Tiling.tla."""
from tiling_h import run  # noqa: F401
