#!/bin/bash
# Nothing to build: the checks import the code from /repo's working tree. Confirms that they can.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
cd "$here" || exit 3
mkdir -p evidence
/opt/venv/bin/python - <<'PY'
import lightcurvelynx, numpy, pandas, astropy
from pathlib import Path
assert Path(lightcurvelynx.__file__).resolve().is_relative_to("/repo"), lightcurvelynx.__file__
print("setup ok:", lightcurvelynx.__file__)
PY
