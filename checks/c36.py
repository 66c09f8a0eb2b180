from files_h import run_c36 as run  # noqa: F401
