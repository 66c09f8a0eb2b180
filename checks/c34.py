from geo_h import run_c34 as run  # noqa: F401
