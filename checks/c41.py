from fileid_h import run_c41 as run  # noqa: F401
