from preproc_h import run_c29 as run  # noqa: F401
