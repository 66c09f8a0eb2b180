"""C07: see lib/run_h.py and spec/Run.tla."""
from run_h import run_c07 as run  # noqa: F401
