"""Entry point:  run.py <property id> [--tier quick|thorough] [--replay FILE]"""

import glob
import importlib.util
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from mc import core  # noqa: E402


def load(pid):
    hits = sorted(glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py")))
    if len(hits) != 1:
        sys.exit(f"no unique check module for {pid}: {hits}")
    spec = importlib.util.spec_from_file_location("check_" + pid.lower(), hits[0])
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    spec.loader.exec_module(mod)
    return mod


if __name__ == "__main__":
    core.setup_import_path()
    import warnings

    warnings.simplefilter("ignore")
    try:
        rc = core.main(load(sys.argv[1]), sys.argv[2:])
    except Exception:  # the code under test could not even be set up
        import traceback

        rc = core.broken(sys.argv[1].upper(), traceback.format_exc())
    sys.exit(rc)
