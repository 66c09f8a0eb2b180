from tidy_h import run_c25 as run  # noqa: F401
