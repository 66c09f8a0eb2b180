from seams_h import run_c32 as run  # noqa: F401
