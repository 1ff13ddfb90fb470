"""Imports NIDN from the repository's working tree and silences it."""
import os
import sys
import warnings


def setup():
    warnings.filterwarnings("ignore")
    repo = os.environ.get("NIDN_REPO", "/repo")
    if sys.path[0] != repo:
        sys.path.insert(0, repo)
    devnull = open(os.devnull, "w")
    err, sys.stderr = sys.stderr, devnull
    try:
        import nidn
        import torch
    finally:
        sys.stderr = err
    path = os.path.abspath(nidn.__file__)
    if not path.startswith(os.path.abspath(repo) + os.sep):
        raise RuntimeError(f"NIDN imported from {path}, not from {repo}")
    from loguru import logger

    logger.remove()
    torch.set_num_threads(1)
    torch.set_default_dtype(torch.float64)
    warnings.filterwarnings("ignore")
