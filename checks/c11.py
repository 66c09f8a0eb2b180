"""C11: see lib/convert_h.py and spec/Convert.tla."""
from convert_h import run_c11 as run  # noqa: F401
