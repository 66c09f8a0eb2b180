from whole_h import run_c06 as run  # noqa: F401
