"""Process environment of a simulation worker: seams first, then the code under test from /repo's working tree."""
import logging
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


def setup():
    from sim import seams

    seams.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import sawatabi

    got = os.path.realpath(os.path.dirname(sawatabi.__file__))
    want = os.path.realpath(os.path.join(REPO, "sawatabi"))
    if got != want:
        raise RuntimeError(f"sawatabi imported from {got}, expected {want}")
    from sim import globalsnap

    globalsnap.take()
    return sawatabi
