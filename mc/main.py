"""Entry point: python -m mc.main <ID> [--tier quick|thorough] [--replay FILE]."""

import argparse
import logging
import os
import sys
import tempfile
import warnings
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, str(VERIF))
    sys.path.insert(0, str(Path(repo) / "src"))
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    with tempfile.TemporaryDirectory(prefix="mc_") as scratch:
        os.environ["VERIF_SCRATCH"] = scratch
        os.chdir(scratch)
        import lightcurvelynx

        where = Path(lightcurvelynx.__file__).resolve()
        if not str(where).startswith(str(Path(repo).resolve())):
            print(f"ERROR: lightcurvelynx imported from {where}, not from {repo}", file=sys.stderr)
            sys.exit(3)
        from mc import core

        code = core.run_property(f"mc.props.{a.id.lower()}", a.tier, seed, a.replay)
        os.chdir("/")
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
