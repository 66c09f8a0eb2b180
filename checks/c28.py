from preproc_h import run_c28 as run  # noqa: F401
