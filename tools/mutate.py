"""mutate.py OUT.jsonl WORKERS FILE[:CAP]...: one-token changes of the package that pass the tests, against the checks.

For every mutant of FILE (relative to src/lightcurvelynx): the module's own tests, then the checks whose property is
anchored in the file, then (if no check reported it) the full test suite.  Lines of OUT: status, file, line, change.
Status "MISSED" means that all tests and all checks pass: an equivalent change, or a gap.
"""

import ast
import json
import os
import re
import shutil
import subprocess
import sys
import threading
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SRC = "src/lightcurvelynx"
PY = "/opt/venv/bin/python"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.BitAnd: "|", ast.BitOr: "&"}
SWAP = {
    "maximum": "minimum", "minimum": "maximum", "min": "max", "max": "min", "any": "all", "all": "any", "floor": "ceil", "ceil": "floor", "zeros": "ones", "ones": "zeros",
    "sin": "cos", "cos": "sin", "argmin": "argmax", "argmax": "argmin", "log10": "log", "log": "log10", "searchsorted": "digitize", "isnan": "isinf", "repeat": "tile", "tile": "repeat",
    "zeros_like": "ones_like", "ones_like": "zeros_like", "hstack": "vstack", "append": "extend", "deg2rad": "rad2deg", "rad2deg": "deg2rad", "cumsum": "cumprod", "logical_and": "logical_or", "logical_or": "logical_and",
}
DROPCALL = {"copy", "deepcopy", "sort", "sorted", "asarray", "array", "atleast_1d", "abs", "squeeze", "float", "int", "list", "flatten", "set", "unique", "tuple", "str"}


def mutants(path):
    src = path.read_text()
    tree = ast.parse(src)
    starts = [0]
    for line in src.split("\n"):
        starts.append(starts[-1] + len(line.encode()) + 1)
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def add(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((n.lineno, what, a, b, new))

    def between(l, r, new, what):
        a, b = span(l)[1], span(r)[0]
        mid = raw[a:b].decode()
        m = re.match(r"(\)*\s*)([^\s()]+(?: not| in)?)(\s*\(*)$", mid.replace("\n", " ")) if "\n" not in mid else None
        if m:
            out.append((l.lineno, what, a, b, m.group(1) + new + m.group(3)))

    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def infunc(n):
        while n in parents:
            n = parents[n]
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                return True
        return False

    def skip(n):
        while n in parents:
            p = parents[n]
            if isinstance(p, ast.Raise) or isinstance(p, ast.JoinedStr):
                return True
            if isinstance(p, ast.FunctionDef) and (n in p.decorator_list or n is p.returns):
                return True
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and isinstance(p.func.value, ast.Name) and p.func.value.id in ("logger", "logging", "warnings"):
                return True
            if isinstance(p, ast.FunctionDef) and p.name in ("__repr__", "__str__") or (isinstance(p, ast.FunctionDef) and "plot" in p.name):
                return True
            n = p
        return False

    for n in ast.walk(tree):
        if not infunc(n) or skip(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            between(n.left, n.comparators[0], CMP[type(n.ops[0])], "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            between(n.left, n.right, BIN[type(n.op)], "arith")
        elif isinstance(n, ast.BoolOp):
            new = "or" if isinstance(n.op, ast.And) else "and"
            for l, r in zip(n.values, n.values[1:]):
                between(l, r, new, "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, text(n.operand), "unary")
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, str(not v), "bool const")
            elif isinstance(v, int):
                add(n, str(v + 1), "int const")
                if v == 0:
                    add(n, "-1", "int const")
            elif isinstance(v, float):
                add(n, repr(v * 1.5 + (0.5 if v == 0 else 0)), "float const")
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n.test, ast.Constant):
                add(n.test, "False", "cond False")
                if not isinstance(n, ast.While):
                    add(n.test, "True", "cond True")
        elif isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
            if name in SWAP and not (name in ("append",)):
                t = text(n.func)
                add(n.func, t[: len(t) - len(name)] + SWAP[name], "swap call")
            if name in DROPCALL:
                if n.args and not (isinstance(n.func, ast.Attribute) and not isinstance(n.func.value, ast.Name)):
                    add(n, "(" + text(n.args[0]) + ")", "drop call")
                elif isinstance(n.func, ast.Attribute) and not n.args:
                    add(n, text(n.func.value), "drop call")
            for kw in n.keywords:
                if kw.arg and (len(n.args) + len(n.keywords)) > 1:
                    a, b = span(kw)
                    m = re.match(rb"\s*,\s*", raw[b:])
                    e = b + (m.end() if m else 0)
                    out.append((kw.lineno, f"drop kwarg {kw.arg}", a, e, ""))
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                a0, b0 = span(n.args[0])
                a1, b1 = span(n.args[1])
                if text(n.args[0]) != text(n.args[1]):
                    out.append((n.lineno, "swap args", a0, b1, raw[a1:b1].decode() + raw[b0:a1].decode() + raw[a0:b0].decode()))
        elif isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.AugAssign):
                add(n, f"{text(n.target)} = {text(n.value)}", "augassign")
            add(n, "pass", "drop stmt")
        elif isinstance(n, ast.Assign):
            if any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
                add(n, "pass", "drop assign")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None:
                add(n.slice.lower, "", "slice")
            if n.slice.upper is not None:
                add(n.slice.upper, "", "slice")
    seen, res = set(), []
    for m in sorted(out):
        if m[1:] in seen:
            continue
        seen.add(m[1:])
        new = raw[: m[2]] + m[4].encode() + raw[m[3] :]
        try:
            compile(new, "x", "exec")
        except SyntaxError:
            continue
        res.append({"line": m[0], "what": m[1], "old": raw[m[2] : m[3]].decode(), "new": m[4], "text": new.decode()})
    return res


def main():
    outp, workers = Path(sys.argv[1]), int(sys.argv[2])
    fails = ["--deselect=" + t for t in Path("/tmp/mut/failing.txt").read_text().split()]
    props = [json.loads(line) for line in (VERIF / "properties.jsonl").read_text().split("\n") if line]
    done = set()
    if outp.exists():
        for line in outp.read_text().split("\n"):
            if line:
                r = json.loads(line)
                done.add((r["file"], r["line"], r["what"], r["old"], r["new"]))
    jobs = []
    for arg in sys.argv[3:]:
        f, _, cap = arg.partition(":")
        ms = mutants(Path("/repo") / SRC / f)
        cap = int(cap) if cap else len(ms)
        step = max(1, len(ms) / cap)
        picked = [ms[int(i * step)] for i in range(min(cap, len(ms)))]
        checks = [p["id"] for p in props if f"{SRC}/{f}" in p["anchors"]["files"]]
        jobs += [(f, m, checks) for m in picked if (f, m["line"], m["what"], m["old"], m["new"]) not in done]
        print(f, len(ms), "mutants,", len(picked), "picked, checks", checks, flush=True)
    lock, it = threading.Lock(), iter(jobs)

    def worker(k):
        w = Path(f"/tmp/mut/w{os.getpid()}_{k}")
        subprocess.run(["cp", "-a", "/repo", str(w)], check=True)
        env = dict(os.environ, PYTHONPATH=str(w / "src"), VERIF_REPO=str(w), VERIF_SEED="1", VERIF_FAIL_FAST="1", VERIF_EVIDENCE_DIR=str(w / "ev"), TMPDIR=str(w / "tmp"))
        (w / "tmp").mkdir()

        def sh(cmd, t):
            try:
                p = subprocess.Popen(cmd, cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
                o, _ = p.communicate(timeout=t)
                return p.returncode, o
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                return -9, "timeout"

        pre = subprocess.Popen([PY, str(VERIF / "tools/prefork.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, cwd=w)
        while True:
            with lock:
                job = next(it, None)
            if job is None:
                break
            f, m, checks = job
            p = w / SRC / f
            orig = p.read_text()
            p.write_text(m["text"])
            rec = {"file": f, **{k2: m[k2] for k2 in ("line", "what", "old", "new")}}
            try:
                stem = Path(f).stem.rstrip("s")
                near = [str(t) for t in sorted((w / "tests").rglob("test_*.py")) if stem in t.name or t.name[5:-3].rstrip("s") in f]
                st = None
                base = [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=120", f"--basetemp={w}/pt", *fails]
                if near:
                    pre.stdin.write(json.dumps([str(w), str(w / "src"), str(w / "tmp"), [*base[3:], *near], 120]) + "\n")
                    pre.stdin.flush()
                    c = int(pre.stdout.readline())
                    if c not in (0, 5):
                        st = "tests"
                if st is None:
                    for ch in checks:
                        c, o = sh(["bash", str(VERIF / "run.sh"), ch, "--tier", "quick"], 600)
                        if c != 0:
                            st = f"caught {ch}" if "VIOLATION" in o else f"NOANSWER {ch}"
                            break
                if st is None:
                    c, o = sh([*base, "-n", "4", "tests"], 600)
                    st = "MISSED" if c == 0 else "tests (other)"
                rec["status"] = st
            finally:
                p.write_text(orig)
                shutil.rmtree(w / "ev", ignore_errors=True)
                shutil.rmtree(w / "tmp", ignore_errors=True)
                (w / "tmp").mkdir()
            with lock:
                with outp.open("a") as fh:
                    fh.write(json.dumps(rec) + "\n")
        pre.stdin.close()
        pre.wait()
        shutil.rmtree(w, ignore_errors=True)

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print("done", flush=True)


if __name__ == "__main__":
    main()
