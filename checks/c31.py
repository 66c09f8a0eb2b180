from cells_h import run_c31 as run  # noqa: F401
