"""mkbug.py SPEC.py: write seeded/<id>/ from a spec (ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO)."""

import json
import runpy
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = VERIF / "seeded" / s["ID"]
    d.mkdir(parents=True, exist_ok=True)
    out = ""
    with tempfile.TemporaryDirectory() as tmp:
        for side in ("a", "b"):
            for f in {e[0] for e in s["EDITS"]}:
                p = Path(tmp) / side / "src/lightcurvelynx" / f
                p.parent.mkdir(parents=True, exist_ok=True)
                p.write_text((Path("/repo/src/lightcurvelynx") / f).read_text())
        for f, old, new in s["EDITS"]:
            p = Path(tmp) / "b" / "src/lightcurvelynx" / f
            t = p.read_text()
            assert t.count(old) == 1, (spec, f, t.count(old), old)
            p.write_text(t.replace(old, new))
        for f in sorted({e[0] for e in s["EDITS"]}):
            r = subprocess.run(["diff", "-u", f"a/src/lightcurvelynx/{f}", f"b/src/lightcurvelynx/{f}"], cwd=tmp, capture_output=True, text=True)
            lines = [("\t".join(l.split("\t")[:1]) if l.startswith(("--- ", "+++ ")) else l) for l in r.stdout.split("\n")]
            out += "\n".join(lines)
    (d / "patch.diff").write_text(out)
    (d / "demo.py").write_text(s["DEMO"].lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\n. /opt/vp/env.sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    (d / "meta.json").write_text(json.dumps({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", str(d / "patch.diff")], capture_output=True, text=True)
    print(s["ID"], "ok" if r.returncode == 0 else r.stderr)
