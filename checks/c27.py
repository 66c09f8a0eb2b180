from nc_h import run_c27 as run  # noqa: F401
