from sing_h import run_c30 as run  # noqa: F401
