"""C09: see lib/run_h.py and spec/Run.tla."""
from run_h import run_c09 as run  # noqa: F401
