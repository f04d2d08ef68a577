"""Runs pytest in forks of a process that has the third-party packages loaded: one JSON line [cwd, src, tmp, args, seconds] per run."""

import json
import os
import signal
import sys
import warnings

warnings.simplefilter("ignore")
import astropy.coordinates, astropy.cosmology, astropy.io.fits, astropy.table, astropy.units, astropy.wcs  # noqa: E401, E402, F401
import jax, jax.numpy, numpy, pandas, pytest, regions, scipy.integrate, scipy.interpolate, scipy.stats, sncosmo  # noqa: E401, E402, F401
import nested_pandas, sqlite3, pyarrow, matplotlib  # noqa: E401, E402, F401

for line in sys.stdin:
    cwd, src, tmp, args, secs = json.loads(line)
    pid = os.fork()
    if pid == 0:
        os.setsid()
        fd = os.open(os.devnull, os.O_RDWR)
        for k in (0, 1, 2):
            os.dup2(fd, k)
        os.chdir(cwd)
        os.environ["TMPDIR"] = tmp
        os.environ["PYTHONPATH"] = src
        sys.path.insert(0, src)
        signal.alarm(secs)
        code = 1
        try:
            code = int(pytest.main(args))
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    print(os.waitstatus_to_exitcode(st), flush=True)
