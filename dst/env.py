"""Process bootstrap shared by every check (threads, scratch cwd, import path)."""
import os
import sys
import tempfile
import atexit
import shutil
import warnings
import logging

REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = None


def boot():
    global SCRATCH
    if SCRATCH:
        return SCRATCH
    owner = os.getpid()
    SCRATCH = tempfile.mkdtemp(prefix="verif-dst-")

    def _clean():
        if os.getpid() == owner:
            shutil.rmtree(SCRATCH, ignore_errors=True)

    atexit.register(_clean)
    os.chdir(SCRATCH)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import torch
    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass
    warnings.filterwarnings("ignore")
    from . import dist as sd
    sd.install()
    from . import simclock
    simclock.install()
    import artist  # noqa: F401
    logging.getLogger("artist").setLevel(logging.CRITICAL + 1)
    logging.getLogger("artist").propagate = False
    for name in ("torch.distributed", "torch.distributed.distributed_c10d"):
        logging.getLogger(name).setLevel(logging.CRITICAL + 1)
    rt = logging.getLogger("artist.runtime")
    rt.setLevel(logging.CRITICAL + 1)
    return SCRATCH
