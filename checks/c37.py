from log_h import run_c37 as run  # noqa: F401
