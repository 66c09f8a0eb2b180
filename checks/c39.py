from gridfile_h import run_c39 as run  # noqa: F401
