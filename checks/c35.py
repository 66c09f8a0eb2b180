from restart_h import run_c35 as run  # noqa: F401
