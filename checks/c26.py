from config_h import run_c26 as run  # noqa: F401
