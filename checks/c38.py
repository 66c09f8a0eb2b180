from fail_h import run_c38 as run  # noqa: F401
