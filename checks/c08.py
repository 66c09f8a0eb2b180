from whole_h import run_c08 as run  # noqa: F401
