"""I01: data files read back as they were written, and malformed ones are refused."""

import gzip
import io
import itertools
import math
import os
import shutil
from pathlib import Path

import numpy as np

ID = "I01"
RULE = (
    "every array of the pool in every file format, over every file it may overwrite, in every order of writing and reading; every sequence of up "
    "to four grid points (and every permutation of a 2 x 3 grid) in every table format, validated or not; every file of up to three "
    "LCLIB events over every choice of header, metadata, parameters, filters and rows per event; a state is one set of files"
)
ASSUMPTIONS = [
    "numpy's and astropy's parsers are taken as given for well-formed text",
    "text formats keep the values, and the shape of arrays of at least two rows and columns or of one dimension",
]


def scratch(name):
    d = Path(os.environ.get("VERIF_SCRATCH", "/tmp")) / f"i01_{name}_{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    return d


def same(got, want):
    got, want = np.asarray(got), np.asarray(want)
    return got.shape == want.shape and all(a == b or (a != a and b != b) for a, b in zip(got.ravel().tolist(), want.ravel().tolist()))


# ---------------------------------------------------------------------- numpy files
ARRAYS = {
    "floats": np.array([0.1, -2.5e-300, 1e300, 3.0]),
    "special": np.array([np.nan, np.inf, -np.inf, -0.0]),
    "single": np.array([1.25, 7.0], dtype=np.float32),
    "ints": np.array([1, -2, 2**53 - 1]),
    "matrix": np.array([[1 / 3, 2.0, 3.0], [4.0, np.nan, 1e-17]]),
    "tall": np.array([[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]]),
    "row": np.array([[1.5, 2.5, 3.5]]),
    "column": np.array([[1.5], [2.5], [3.5]]),
    "one": np.array([4.75]),
    "bools": np.array([True, False]),
    "cube": np.arange(12.0).reshape(2, 3, 2),
    "empty": np.zeros((0, 3)),
    "scalar": np.array(2.5),
}
TEXT_ARRAYS = ["floats", "special", "single", "ints", "matrix", "tall", "row", "column", "one"]
BINARY = [".npy", ".npz"]
TEXT = [".csv", ".ecsv", ".txt", ".dat"]


def sec_numpy(ctx):
    from lightcurvelynx.utils.io_utils import read_numpy_data, write_numpy_data

    base = scratch("numpy")

    def verify(path, k, as_str):
        got = read_numpy_data(str(path) if as_str else path)
        want = ARRAYS[k]
        if path.suffix in BINARY:
            ctx.check(same(got, want) and got.dtype == want.dtype, f"{k} in {path.suffix}: read {got!r}, wrote {want!r}")
        elif k in ("row", "column", "one"):
            ctx.check(same(np.ravel(got), np.ravel(want)), f"{k} in {path.suffix}: read {got!r}, wrote {want!r}")
        else:
            ctx.check(same(got, want), f"{k} in {path.suffix}: read {got!r}, wrote {want!r}")

    def history(seq, as_str):
        d = scratch("numpy")
        model = {}
        for name, k in seq:
            ctx.step()
            path = d / name
            write_numpy_data(str(path) if as_str else path, ARRAYS[k])
            model[name] = k
            ctx.check(sorted(p.name for p in d.iterdir()) == sorted(model), f"files after writing {name}: {sorted(p.name for p in d.iterdir())}")
            for n2, k2 in model.items():
                verify(d / n2, k2, as_str)
            ctx.state((tuple(sorted(model.items()))))
            ctx.outcome(path.suffix)

    for suf in BINARY + TEXT:
        pool = list(ARRAYS) if suf in BINARY else TEXT_ARRAYS
        for k in pool:
            for as_str in (False, True):
                ctx.case(["write", suf, k, as_str], history, [(f"a{suf}", k)], as_str)
        for a, b in itertools.product(pool, repeat=2):
            ctx.case(["overwrite", suf, a, b], history, [(f"a{suf}", a), (f"a{suf}", b)], False)
    few = ["floats", "matrix", "ints"]
    for sufs in itertools.product(BINARY + TEXT, repeat=2):
        for ks in itertools.product(few, repeat=3):
            names = [f"a{sufs[0]}", f"b{sufs[1]}", f"a{sufs[0]}"]
            ctx.case(["mixed", sufs, ks], history, list(zip(names, ks)), False)

    def refuse(suf, there):
        ctx.step()
        d = scratch("numpy")
        p = d / f"x{suf}"
        if there:
            p.write_text("1.0 2.0\n")
        if suf in BINARY + TEXT:
            if not there:
                ctx.raises(FileNotFoundError, lambda: read_numpy_data(p), f"missing {suf}")
            return
        ctx.raises(ValueError if there else FileNotFoundError, lambda: read_numpy_data(p), f"reading {suf}")
        ctx.raises(ValueError, lambda: write_numpy_data(p, ARRAYS["floats"]), f"writing {suf}")
        ctx.eq(p.exists(), there, "file after a refused write")
        if there:
            ctx.eq(p.read_text(), "1.0 2.0\n", "contents after a refused write")

    for suf in BINARY + TEXT + ["", ".json", ".fits", ".npyx", ".NPY", ".parquet", ".csv.bak"]:
        for there in (False, True):
            ctx.case(["refuse", suf, there], refuse, suf, there)
    ctx.case(["directory"], lambda: ctx.raises(FileNotFoundError, lambda: read_numpy_data(base), "a directory"))


# ---------------------------------------------------------------------- grids
GRID_FORMATS = ["ascii", "ascii.csv", "ascii.ecsv", "ascii.commented_header", "fits"]


def write_grid(path, fmt, rows, header):
    from astropy.table import Table

    if fmt == "ascii":
        path.write_text(("# comment: with 4 words\n" if header else "") + "".join(" ".join(repr(v) for v in r) + "\n" for r in rows))
        return
    tab = Table(rows=[tuple(r) for r in rows], names=["a", "b", "value", "extra"][: len(rows[0])])
    tab.write(path, format=fmt, overwrite=True)


def sec_grid(ctx):
    from lightcurvelynx.utils.io_utils import read_grid_data

    d = scratch("grid")
    val = lambda k: 10.5 - 1.25 * k if k % 3 else 1e-17 * k  # noqa: E731

    def check(rows, fmt, validate, how="path", header=False):
        ctx.step()
        path = d / "grid.dat"
        write_grid(path, fmt, rows, header)
        x0, x1 = sorted({r[0] for r in rows}), sorted({r[1] for r in rows})
        full = len(rows) == len(x0) * len(x1)
        ordered = [tuple(r[:2]) for r in rows] == list(itertools.product(x0, x1))
        src = {"path": lambda: path, "str": lambda: str(path), "binary": lambda: open(path, "rb"), "bytes": lambda: io.BytesIO(path.read_bytes())}[how]()
        try:
            run = lambda: read_grid_data(src, format=fmt, validate=validate)  # noqa: E731
            if len(rows[0]) != 3 or not full or (validate and not ordered):
                ctx.raises(ValueError, run, f"{rows} as {fmt} (validate={validate})")
                ctx.outcome("refused")
                return
            if not ordered:
                return  # documented to need sorted rows; only validation looks
            a, b, v = run()
        finally:
            if hasattr(src, "close"):
                src.close()
        ctx.check(same(a, x0) and same(b, x1), f"axes {a}, {b}, expected {x0}, {x1}")
        want = [[rows[i * len(x1) + j][2] for j in range(len(x1))] for i in range(len(x0))]
        ctx.check(same(v, want), f"values {v}, expected {want}")
        ctx.outcome(f"{fmt} {how}")

    pts = list(itertools.product((0.5, 2.0), (-1.0, 3.25)))
    for n in range(1, 5):
        for seq in itertools.product(pts, repeat=n):
            rows = [(a, b, val(k)) for k, (a, b) in enumerate(seq)]
            for validate in (True, False):
                ctx.case(["points", seq, validate], check, rows, "ascii", validate)
                if n == 4 and sorted(seq) == list(seq):
                    for fmt in GRID_FORMATS[1:]:
                        ctx.case(["points", fmt, seq, validate], check, rows, fmt, validate)
    six = list(itertools.product((0.0, 1.0), (1.0, 1.5, 4.0)))
    for perm in itertools.permutations(range(6)):
        rows = [(*six[k], val(k)) for k in perm]
        ctx.case(["permutation", perm], check, rows, GRID_FORMATS[sum(perm[:2]) % 3], True)
    for shape in itertools.product((1, 2, 3, 5), repeat=2):
        axes = [[[-2.5, 0.0, 1e-9, 3.0, 1e6][i] for i in range(shape[0])], [[1000.0, 1000.5, 2000.0, 3000.25, 9e9][j] for j in range(shape[1])]]
        rows = [(a, b, val(k)) for k, (a, b) in enumerate(itertools.product(*axes))]
        whole = [(int(a), int(b), k) for k, (a, b) in enumerate(itertools.product(range(shape[0]), range(5, 5 + shape[1])))]
        for fmt in GRID_FORMATS:
            for validate in (True, False):
                for how in ("path", "str", "binary", "bytes"):
                    ctx.case(["shape", shape, fmt, validate, how], check, rows, fmt, validate, how, validate)
                ctx.case(["whole", shape, fmt, validate], check, whole, fmt, validate)
    for fmt in GRID_FORMATS:
        for ncol in (1, 2, 4):
            rows = [(0.0, 1.0, 2.0, 3.0)[:ncol], (1.0, 1.0, 5.0, 6.0)[:ncol]]
            if ncol >= 2:
                ctx.case(["columns", fmt, ncol], check, rows, fmt, False)
        ctx.case(["missing", fmt], lambda fmt=fmt: ctx.raises(FileNotFoundError, lambda: read_grid_data(d / "no_such_file", format=fmt), "missing file"))


# ---------------------------------------------------------------------- LCLIB
HEADERS = {
    "plain": (["SURVEY: test", "FILTERS: gr", "MODEL_PARNAMES: A,B"], {"SURVEY": "test"}),
    "docs": (
        ["DOCUMENTATION:", "PURPOSE: not data", "FILTERS: xyz", "START_EVENT: 9", "S: 1 2", "DOCUMENTATION_END:", "", "# FILTERS: u", "SURVEY: test # trailing", "COMMENT: START_EVENT: 7", "FILTERS: gr", "MODEL_PARAMETERS: A,B", "just words"],
        {"SURVEY": "test", "DOCUMENTATION_END": ""},
    ),
    "class": (["RECUR_CLASS: NON-RECUR", "MODEL: FAKE: 1", "FILTERS: gr", "MODEL_PARNAMES: A,B", "NROW: 99", "COMMENTS: 3", "FILTERSET: wide"], {"RECUR_CLASS": "NON-RECUR", "MODEL": "FAKE: 1", "NROW": "99", "COMMENTS": "3", "FILTERSET": "wide"}),
}


def rows_for(n, ncol):
    return [(("T", "S", "S", "S")[k], [round(-3.5 + 2 * k + 0.125 * c, 3) for c in range(ncol + 1)]) for k in range(n)]


# an event: (own metadata, parameters, rows, filters set just before it)
EVENTS = [
    ((), None, 2, None),
    (("NROW: 3 l: 30 b: 20",), "1,2", 3, None),
    ((), "3 4", 1, None),
    (("TAG: x", "NROW: 2"), None, 2, "iz"),
    (("TAG: y",), "7,8", 0, "u"),
]


def sec_lclib(ctx):
    from lightcurvelynx.utils.io_utils import read_lclib_data

    d = scratch("lclib")

    def build(head, evs):
        lines, meta0 = list(HEADERS[head][0]), HEADERS[head][1]
        filt, want = "gr", []
        for k, (meta, par, nrow, newf) in enumerate(evs):
            if newf:
                filt = newf
                lines.append(f"FILTERS: {filt}")
            lines += ["", f"START_EVENT: {k * 3}"]
            lines += list(meta)
            m = {a: b for a, b in meta0.items() if a != "DOCUMENTATION_END"}
            m["id"] = str(k * 3)
            for line in meta:
                a, b = line.split(": ", 1)
                m[a] = b
            if par:
                lines.append(f"PARVAL: {par}")
                m["PARVAL"] = dict(zip("AB", par.replace(",", " ").split()))
            rows = rows_for(nrow, len(filt))
            lines += [f"{t}: " + "  ".join(str(v) for v in vals) for t, vals in rows]
            lines.append(f"END_EVENT: {k * 3}  # done")
            want.append((m, ["type", "time", *filt], rows))
        return lines, want

    def check(head, ids, suf):
        ctx.step()
        lines, want = build(head, [EVENTS[i] for i in ids])
        p = d / f"lib{suf}"
        text = "\n".join(lines) + "\n"
        if suf.endswith("gz") or suf.endswith("gzip"):
            with gzip.open(p, "wt") as f:
                f.write(text)
        else:
            p.write_text(text)
        curves = read_lclib_data(p)
        p.unlink()
        if not ctx.eq(len(curves), len(want), "number of light curves"):
            return
        for k, (c, (m, cols, rows)) in enumerate(zip(curves, want)):
            meta = {a: b for a, b in c.meta.items() if a != "DOCUMENTATION_END"}
            ctx.eq(meta, m, f"metadata of event {k} of {ids}")
            ctx.eq(list(c.colnames), cols, f"columns of event {k} of {ids}")
            ctx.eq([str(t) for t in c["type"]], [t for t, _ in rows], f"types of event {k}")
            for j, col in enumerate(cols[1:]):
                if col in c.colnames:
                    ctx.eq([float(v) for v in c[col]], [vals[j] for _, vals in rows], f"{col} of event {k} of {ids}")
        ctx.state((head, ids))
        ctx.outcome(f"{len(ids)} events")

    for head in HEADERS:
        for n in range(4):
            for ids in itertools.product(range(len(EVENTS)), repeat=n):
                ctx.case(["events", head, ids], check, head, ids, ".txt")
        for suf in (".dat", ".text", ".TEXT", ".TXT", ".dat.gz", ".gz", ".gzip", ".DAT.GZ"):
            ctx.case(["suffix", head, suf], check, head, (1, 0, 2), suf) if not suf.isupper() or suf in (".TEXT", ".TXT") else None

    def refuse(what, edit):
        ctx.step()
        lines, _ = build("plain", [EVENTS[0], EVENTS[1], EVENTS[2]])
        p = d / "lib.dat"
        p.write_text("\n".join(edit(list(lines))) + "\n")
        ctx.raises(ValueError, lambda: read_lclib_data(p), what)
        ctx.outcome("refused")

    def swap(a, b):
        return lambda lines: [b if line.startswith(a) else line for line in lines]

    lines, _ = build("plain", [EVENTS[0], EVENTS[1], EVENTS[2]])
    for k, line in enumerate(lines):
        if line.startswith(("S:", "T:")):
            ctx.case(["short row", k], refuse, f"row {k} with a value missing", lambda ls, k=k: ls[:k] + [" ".join(ls[k].split()[:-1])] + ls[k + 1 :])
            ctx.case(["long row", k], refuse, f"row {k} with an extra value", lambda ls, k=k: ls[:k] + [ls[k] + " 1.0"] + ls[k + 1 :])
            ctx.case(["word", k], refuse, f"row {k} with a word", lambda ls, k=k: ls[:k] + [" ".join(ls[k].split()[:-1]) + " abc"] + ls[k + 1 :])
        if line.startswith("END_EVENT"):
            for other in ("77", line.split()[1] + "7", "0" + line.split()[1], ""):
                ctx.case(["end id", k, other], refuse, f"END_EVENT {k} of another event", lambda ls, k=k, other=other: ls[:k] + [f"END_EVENT: {other}"] + ls[k + 1 :])
        if line.startswith("START_EVENT"):
            ctx.case(["start id", k], refuse, f"START_EVENT {k} of another event", lambda ls, k=k: ls[:k] + ["START_EVENT: 77"] + ls[k + 1 :])
        if line.startswith("PARVAL"):
            ctx.case(["few parameters", k], refuse, "a parameter missing", lambda ls, k=k: ls[:k] + ["PARVAL: 1"] + ls[k + 1 :])
            ctx.case(["many parameters", k], refuse, "an extra parameter", lambda ls, k=k: ls[:k] + ["PARVAL: 1,2,3"] + ls[k + 1 :])
    ctx.case(["no filters"], refuse, "no filters", swap("FILTERS", "SURVEY2: x"))

    def names(suf, there):
        ctx.step()
        p = d / f"other{suf}"
        if there:
            p.write_text("FILTERS: g\n")
        ctx.raises(ValueError if there else FileNotFoundError, lambda: read_lclib_data(str(p)), f"{suf} ({there})")
        if there:
            p.unlink()

    for suf in (".csv", "", ".zip", ".fits"):
        for there in (True, False):
            ctx.case(["name", suf, there], names, suf, there)
    for suf in (".dat", ".gz"):
        ctx.case(["name", suf, False], names, suf, False)


SECTIONS = [
    ("numpy", sec_numpy, (2, 2)),
    ("grid", sec_grid, (4, 4)),
    ("lclib", sec_lclib, (2, 2)),
]
