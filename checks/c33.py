from geo_h import run_c33 as run  # noqa: F401
