"""O03: observation tables survive every sequence of writes and reads unchanged; nothing is overwritten unless asked."""

import copy
import os
import sqlite3
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from mc.core import Machine, bfs

ID = "O03"
RULE = (
    "breadth-first search over histories of writes (database / parquet, each with and without overwrite, to two files and "
    "two table names), reads, edits and refused writes for every table class; a state is the table in memory plus the "
    "content of every file"
)
ASSUMPTIONS = ["columns hold floats, integers and strings", "no other process touches the files"]


def classes():
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
    from lightcurvelynx.obstable.obs_table import ObsTable
    from lightcurvelynx.obstable.opsim import OpSim
    from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

    n = 4
    base = {"ra": [10.0, 20.0, 30.0, 40.0], "dec": [0.1 + 0.2, -2.0, 3.5, 1e-17], "filter": ["g", "r", "g", "i"]}
    ops = {
        "observationId": [7, 8, 9, 10],
        "fieldRA": base["ra"],
        "fieldDec": base["dec"],
        "observationStartMJD": [60001.25, 60000.5, 60003.0, 60002.0],
        "filter": base["filter"],
        "airmass": [1.0, 1.2, 1.4, 2.0],
        "visitExposureTime": [30.0, 15.0, 30.0, 29.2],
        "numExposures": [1, 2, 1, 2],
        "seeingFwhmEff": [0.8, 0.9, 1.0, 1.1],
        "skyBrightness": [21.0, 22.0, 20.0, 21.5],
    }
    ztf = {
        "ra": base["ra"],
        "dec": base["dec"],
        "filter": ["g", "r", "g", "i"],
        "maglim": [20.0, 20.5, 19.5, 21.0],
        "scibckgnd": [100.0, 150.0, 120.0, 180.0],
        "fwhm": [2.0, 2.5, 1.5, 3.0],
        "exptime": [30.0] * n,
    }
    dates = ["2018-03-25 06:04:40.000", "2018-03-26 06:04:40.000", "2018-03-25 07:00:00.000", "2018-04-01 00:00:00.000"]
    return {
        "ObsTable": (ObsTable, lambda: ObsTable({**base, "time": [4.0, 1.0, 3.0, 2.0], "zp": [1.0, 2.0, 3.0, 4.0], "note": ["", "a,b", "c'd", "e\"f"]}, radius=1.5, survey_name="mine")),
        "Mapped": (ObsTable, lambda: ObsTable({"myRA": base["ra"], "myDec": base["dec"], "t": [4, 1, 3, 2], "filter": base["filter"]}, colmap={"ra": "myRA", "dec": "myDec", "time": "t"})),
        "OpSim": (OpSim, lambda: OpSim(ops, read_noise=5.0, radius=0.7)),
        "ZTFdate": (ZTFObsTable, lambda: ZTFObsTable({**ztf, "obsdate": dates}, gain=5.0)),
        "ZTFmjd": (ZTFObsTable, lambda: ZTFObsTable({**ztf, "obsmjd": [58000.5, 58001.5, 58000.25, 58003.0]})),
        "Fake": (FakeObsTable, lambda: FakeObsTable({**base, "time": [4.0, 1.0, 3.0, 2.0]}, zp_per_band={"g": 2.0, "r": 3.0, "i": 4.0}, sky={"g": 10.0, "r": 20.0, "i": 30.0}, fwhm_px=2.0, read_noise=3.0, exptime=40, radius=2.0)),
    }  # fmt: skip


def content(t):
    return {c: [v for v in t[c]] for c in t.columns}


def values(t):
    return {k: v for k, v in t.survey_values.items() if v is not None}


class Files(Machine):
    def __init__(self, name):
        self.name = name

    def start(self, ctx):
        self.cls, make = classes()[self.name]
        t = make()
        return {"t": t, "want": content(t), "sv": values(t), "files": {}, "model": {}, "edits": 0}

    def clone(self, st):
        new = dict(st)
        new["t"] = copy.deepcopy(st["t"])
        new["want"], new["sv"] = copy.deepcopy(st["want"]), dict(st["sv"])
        new["files"] = dict(st["files"])
        new["model"] = copy.deepcopy(st["model"])
        return new

    def ops(self, st):
        ops = []
        for ow in (False, True):
            ops += [["db", "a.db", "observations", ow], ["db", "a.db", "other", ow], ["pq", "b.parquet", ow]]
        ops += [["rd", "a.db", "observations"], ["rd", "a.db", "other"], ["rp", "b.parquet"], ["filter"], ["column"], ["rd", "b.parquet", "observations"], ["radius"]]
        return ops

    def step(self, ctx, st, op):
        with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as d:
            d = Path(d)
            for f, b in st["files"].items():
                (d / f).write_bytes(b)
            self.apply(ctx, st, op, d)
            st["files"] = {p.name: p.read_bytes() for p in sorted(d.iterdir())}
        self.compare_files(ctx, st)

    def apply(self, ctx, st, op, d):
        t, model = st["t"], st["model"]
        if op[0] == "db":
            _, f, table, ow = op
            tables = model.get(f)
            how, err = ctx.attempt(lambda: t.write_db(d / f, tablename=table, overwrite=ow))
            if tables is not None and table in tables and not ow:
                ctx.check(how == "err", "an existing database table was overwritten without being asked to")
                return
            if tables is not None and not ow and how == "err":
                return  # refusing to touch an existing file is documented
            if not ctx.check(how == "ok", lambda: f"write_db({f}, {table}, overwrite={ow}) failed: {err!r}"):
                return
            model.setdefault(f, {})[table] = copy.deepcopy(st["want"])
        elif op[0] == "pq":
            _, f, ow = op
            if f in model and not ow:
                ctx.raises(FileExistsError, lambda: t.write_parquet(d / f, overwrite=False), "overwriting a file")
                return
            how, err = ctx.attempt(lambda: t.write_parquet(d / f, overwrite=ow))
            if not ctx.check(how == "ok", lambda: f"write_parquet({f}, overwrite={ow}) failed: {err!r}"):
                return
            model[f] = {"": copy.deepcopy(st["want"]), "values": dict(st["sv"])}
        elif op[0] == "rd":
            _, f, table = op
            query = f"SELECT * FROM {table}"
            if f not in model:
                ctx.raises(FileNotFoundError, lambda: self.cls.from_db(d / f, sql_query=query), "reading a missing file")
                ctx.check(not (d / f).exists(), "reading a missing file created it")
                return
            if f.endswith("parquet") or table not in model[f]:
                ctx.raises(ValueError, lambda: self.cls.from_db(d / f, sql_query=query), "reading a missing table")
                return
            how, got = ctx.attempt(lambda: self.cls.from_db(d / f, sql_query=query))
            if ctx.check(how == "ok", lambda: f"from_db({f}, {table}) failed: {got!r}"):
                st["t"] = got
                st["want"] = copy.deepcopy(model[f][table])
                st["sv"] = values(got)
        elif op[0] == "rp":
            _, f = op
            if f not in model:
                ctx.raises(FileNotFoundError, lambda: self.cls.from_parquet(d / f), "reading a missing file")
                return
            how, got = ctx.attempt(lambda: self.cls.from_parquet(d / f))
            if ctx.check(how == "ok", lambda: f"from_parquet({f}) failed: {got!r}"):
                st["t"] = got
                st["want"] = copy.deepcopy(model[f][""])
                st["sv"] = dict(model[f]["values"])
        elif op[0] == "filter":
            n = len(t)
            if n < 2:
                return
            t.filter_rows(np.arange(n) != 1)
            st["want"] = {c: [x for i, x in enumerate(v) if i != 1] for c, v in st["want"].items()}
        elif op[0] == "radius":
            if st["edits"] >= 2:
                return
            st["edits"] += 1
            t.radius = st["sv"]["radius"] = 0.25 + st["edits"]
        elif op[0] == "column":
            if st["edits"] >= 2:
                return
            st["edits"] += 1
            vals = [1.5 * i + st["edits"] for i in range(len(t))]
            name = f"extra{st['edits']}"
            if name in t:
                return
            t.add_column(name, vals)
            st["want"][name] = vals
        ctx.outcome(op[0])

    def compare_files(self, ctx, st):
        """Look into the files without the library."""
        ctx.eq(sorted(st["files"]), sorted(st["model"]), "files on disk")
        for f, b in st["files"].items():
            if f not in st["model"]:
                continue
            with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as d:
                p = Path(d) / f
                p.write_bytes(b)
                if f.endswith("parquet"):
                    df = pd.read_parquet(p)
                    ctx.eq({c: list(df[c]) for c in df.columns}, st["model"][f][""], f"content of {f}")
                    ctx.eq(values(self.cls.from_parquet(p)), st["model"][f]["values"], f"survey values of {f}")
                else:
                    con = sqlite3.connect(p)
                    tables = {r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table'")}
                    ctx.eq(tables, set(st["model"][f]), f"tables of {f}")
                    for name in tables & set(st["model"][f]):
                        cur = con.execute(f'SELECT * FROM "{name}"')
                        cols = [c[0] for c in cur.description]
                        rows = cur.fetchall()
                        got = {c: [r[i] for r in rows] for i, c in enumerate(cols)}
                        ctx.eq(got, st["model"][f][name], f"content of {f}:{name}")
                    con.close()

    def canon(self, st):
        return (self.name, st["want"], st["sv"], st["model"])

    def observe(self, ctx, st):
        t = st["t"]
        ctx.eq(content(t), st["want"], "the table in memory")
        ctx.eq(values(t), st["sv"], "survey values")
        ctx.eq(len(t), len(st["want"]["ra"]), "rows")
        got = t.get_observations(st["want"]["ra"][0], st["want"]["dec"][0], radius=0.5, cols=["ra", "time"])
        ctx.eq(got["time"], np.array([st["want"]["time"][0]]), "query after the history")


def sec_histories(ctx):
    for name in classes():
        bfs(ctx, f"files-{name}", Files(name), ctx.pick(3, 5))


cells = content


def sec_foreign(ctx):
    """Files the library did not write, empty ones included, are not replaced unless that was asked for."""

    def go(name, kind, content, overwrite):
        ctx.step()
        t = classes()[name][1]()
        with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as d:
            p = Path(d) / ("a.db" if kind == "db" else "a.parquet")
            p.write_bytes(content)
            write = (lambda: t.write_db(p, overwrite=overwrite)) if kind == "db" else (lambda: t.write_parquet(p, overwrite=overwrite))
            how, err = ctx.attempt(write)
            if kind == "pq" and not overwrite:
                ctx.check(how == "err" and isinstance(err, FileExistsError), lambda: f"a file of {len(content)} bytes was replaced: {how}")
            if how == "err":
                ctx.check(p.read_bytes() == content, f"a refused write changed a file of {len(content)} bytes")
                ctx.check(kind == "db" and content or not overwrite, lambda: f"overwriting failed: {err!r}")
                ctx.outcome("kept")
            else:
                got = t.__class__.from_db(p, sql_query="SELECT * FROM observations") if kind == "db" else t.__class__.from_parquet(p)
                ctx.eq(cells(got), cells(t), "the table read back")
                ctx.outcome("replaced")
        ctx.state((name, kind, len(content), overwrite))

    for name in classes():
        for kind in ("db", "pq"):
            for content in (b"", b"x", b"not a table " * 400):
                for overwrite in (False, True):
                    ctx.case({"class": name, "kind": kind, "bytes": len(content), "overwrite": overwrite}, go, name, kind, content, overwrite)


def sec_failing(ctx):
    """Writes that fail on a value which cannot be stored leave every file as it was, and can be repeated with good values."""

    def tables_of(p):
        if not p.is_file():
            return {}
        con = sqlite3.connect(p)
        out = {}
        for (name,) in con.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall():
            cur = con.execute(f'SELECT * FROM "{name}"')
            cols = [c[0] for c in cur.description]
            rows = cur.fetchall()
            out[name] = {c: [r[i] for r in rows] for i, c in enumerate(cols)}
        con.close()
        return out

    def go(name, before, kind, bad, target, overwrite):
        ctx.step()
        make = classes()[name][1]
        with tempfile.TemporaryDirectory(dir=os.environ["VERIF_SCRATCH"]) as d:
            p = Path(d) / ("a.db" if kind == "db" else "a.parquet")
            good, worse = make(), make()
            n = len(worse)
            worse.add_column("bad", pd.Series({"first": [[1, 2]] + ["x"] * (n - 1), "last": [1.0] * (n - 1) + [{"a": 1}], "mixed": [1.5, "a"] + [b"c"] * (n - 2)}[bad], dtype=object))
            write = lambda t, table, **k: t.write_db(p, tablename=table, **k) if kind == "db" else t.write_parquet(p, **k)  # noqa: E731
            for table in before:
                write(good, table)
            old = tables_of(p) if kind == "db" else p.read_bytes() if before else None
            how, err = ctx.attempt(lambda: write(worse, target, overwrite=overwrite))
            if how == "ok":  # storing it is fine as well, e.g. values of several types in a database
                ctx.check(kind == "db" and bad == "mixed", f"write of a {bad} value succeeded")
                ctx.check(overwrite or target not in before, "an existing table was replaced without being asked to")
                ctx.eq(tables_of(p)[target]["bad"], list(worse["bad"]), "the values written")
                ctx.eq({k: v for k, v in tables_of(p).items() if k != target}, {k: v for k, v in old.items() if k != target}, "the other tables")
                ctx.outcome("stored")
                return
            if kind == "db":
                now = tables_of(p)
                ctx.eq({k: now.get(k) for k in old}, old, f"the content of the database after a failed write of {target} (overwrite={overwrite})")
            elif before:
                ctx.check(p.read_bytes() == old, "the file changed in a failed write")
            write(good, target, overwrite=True)
            if kind == "db":
                ctx.eq(tables_of(p), {**old, target: content(good)}, "the content after a good write")
            else:
                ctx.eq(content(classes()[name][0].from_parquet(p)), content(good), "the content after a good write")
            ctx.outcome("failed")
        ctx.state((name, before, kind, bad, target, overwrite))

    for name in classes():
        for bad in ("first", "last", "mixed"):
            for overwrite in (False, True):
                for before in ((), ("observations",), ("other",), ("observations", "other")):
                    for target in ("observations", "other"):
                        ctx.case(["failing", name, before, "db", bad, target, overwrite], go, name, before, "db", bad, target, overwrite)
                for before in ((), ("observations",)):
                    ctx.case(["failing", name, before, "parquet", bad, "", overwrite], go, name, before, "parquet", bad, "", overwrite)


SECTIONS = [("histories", sec_histories, 8), ("failing", sec_failing), ("foreign", sec_foreign)]
