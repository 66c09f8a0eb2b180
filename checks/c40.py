from mirror_h import run_c40 as run  # noqa: F401
