import importlib
import os
import sys
import tempfile
import shutil


def setup_env():
    # matplotlib: private copy of the config dir so no check writes shared state
    src = os.environ.get("MPLCONFIGDIR") or "/opt/torchrir/mplconfig"
    from vf import core

    d = os.path.join(core.scratch_root(), "mpl")
    try:
        shutil.copytree(src, d)
    except Exception:
        os.makedirs(d, exist_ok=True)
    os.environ["MPLCONFIGDIR"] = d


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vf-nonexistent-pycache", str(os.getpid()))
    pid = sys.argv[1].upper()
    setup_env()
    from vf import core

    try:
        mod = importlib.import_module(f"checks.{pid.lower()}")
        code = core.main(mod, sys.argv[2:])
    finally:
        if core._SCRATCH:
            core.rmtree(core._SCRATCH)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
