"""O02: columns keep their names, aliases and row alignment under every history of edits; survey values follow precedence."""

import copy
import itertools

import numpy as np
import pandas as pd

from mc.core import Machine, bfs

ID = "O02"
RULE = (
    "breadth-first search over histories of column additions, overwrites, refused writes, row filters and changes of the "
    "caller's own table, for every column map and container; every combination of where each survey value is given; a "
    "state is (column map, container, table content)"
)
ASSUMPTIONS = ["column values are numbers or strings"]

MAPS = {
    "none": None,
    "all": {"ra": "myRA", "dec": "myDec", "time": "myTime", "filter": "myFilter"},
    "some": {"ra": "myRA", "time": "myTime"},
    "absent": {"ra": "myRA", "dec": "myDec", "time": "myTime", "zp": "notThere", "seeing": "alsoNot"},
    "same": {"ra": "ra", "dec": "dec", "time": "myTime"},
}
BASE = {
    "ra": [10.0, 20.0, 30.0, 40.0],
    "dec": [1.0, 2.0, 3.0, 4.0],
    "time": [8.0, 6.0, 4.0, 2.0],
    "filter": ["g", "r", "g", "i"],
    "zp": [1.0, 1.5, 2.0, 2.5],
    "note": ["p", "q", "r", "s"],
}


def source_name(colmap, std):
    m = colmap or {}
    if std in m and m[std] in ("notThere", "alsoNot"):
        return std
    return m.get(std, std)


class Columns(Machine):
    def __init__(self, mapname, container, index):
        self.mapname, self.container, self.index = mapname, container, index

    def start(self, ctx):
        from lightcurvelynx.obstable.obs_table import ObsTable

        cm = MAPS[self.mapname]
        data = {source_name(cm, c): list(v) for c, v in BASE.items()}
        if self.container == "dict":
            src = {k: np.array(v) for k, v in data.items()}
        elif self.container == "lists":
            src = data
        else:
            src = pd.DataFrame(data, index=[7, 7, 3, 1] if self.index else None)
        t = ObsTable(src, colmap=cm)
        return {"t": t, "src": src, "model": {c: list(v) for c, v in BASE.items()}, "cm": cm, "n": 4, "touched": False}

    def clone(self, st):
        return {**st, "t": copy.deepcopy(st["t"]), "src": copy.deepcopy(st["src"]), "model": copy.deepcopy(st["model"])}

    def ops(self, st):
        ops = [["add", "flag", "list"], ["add", "flag", "array"], ["add", "flag", "one"], ["add", "flag", "text"]]
        ops += [["put", "note", "list"], ["put", "flag", "list"], ["put", "zp", "one"], ["add", "note", "list"]]
        ops += [["put", "filter", "bands"], ["add", "flag", "long"], ["put", "note", "long"], ["put", "zp", "long"], ["filter", "mask"], ["filter", "index"], ["touch"]]
        return ops

    def step(self, ctx, st, op):
        t, model, n = st["t"], st["model"], st["n"]
        if op[0] in ("add", "put"):
            _, name, kind = op
            vals = {
                "list": [50 + i for i in range(n)],
                "array": [0.5 * i for i in range(n)],
                "one": [9] * n,
                "text": ["t"] * n,
                "bands": [("new", "g")[i % 2] for i in range(n)],
                "long": [1] * (n + 1),
            }[kind]
            arg = {"list": vals, "bands": vals, "array": np.array(vals), "one": 9, "text": "t", "long": vals}[kind]
            if kind == "long":
                err = (ValueError, KeyError) if name in model and op[0] == "add" else ValueError
                ctx.raises(err, lambda: t.add_column(name, arg, overwrite=op[0] == "put"), "a column of the wrong length")
            elif op[0] == "add" and name in model:
                ctx.raises(KeyError, lambda: t.add_column(name, arg), "adding a column that exists")
            else:
                t.add_column(name, arg, overwrite=op[0] == "put")
                model[name] = vals
        elif op[0] == "filter":
            if n == 0:
                return
            if op[1] == "mask":
                keep = [i != 0 for i in range(n)]
                t.filter_rows(np.array(keep))
            else:
                idx = sorted({0, n - 1})
                t.filter_rows(idx)
                keep = [i in idx for i in range(n)]
            for c in model:
                model[c] = [v for v, k in zip(model[c], keep) if k]
            st["n"] = sum(keep)
        elif op[0] == "touch":
            src = st["src"]
            st["touched"] = True
            name = source_name(st["cm"], "dec")
            if self.container == "pandas":
                src.iloc[0, list(src.columns).index(name)] = -77.0
            else:
                src[name] = [-77.0] * 4
        elif op[0] == "reuse":  # the caller reuses its own arrays, lists or data frame for something else
            src = st["src"]
            st["touched"] = True
            for c in BASE:
                name = source_name(st["cm"], c)
                new = "?" if isinstance(BASE[c][0], str) else -77.0
                if self.container == "pandas":
                    values = src[name].to_numpy()
                    if values.flags.writeable:
                        values[:] = new
                    src.iloc[:, list(src.columns).index(name)] = new
                else:
                    src[name][:] = new if self.container == "dict" else [new] * 4
        ctx.outcome(op[0])

    def canon(self, st):
        return (self.mapname, self.container, self.index, st["model"], st["touched"])

    def observe(self, ctx, st):
        t, model, cm = st["t"], st["model"], st["cm"] or {}
        ctx.eq(len(t), st["n"], "length")
        ctx.eq(set(t.columns), set(model), "column names")
        for c, v in model.items():
            ctx.check(c in t, f"{c} is not in the table")
            ctx.eq(list(t[c]), v, f"column {c}")
            if c in cm:
                ctx.check(cm[c] in t, f"{cm[c]} (the original name of {c}) is not in the table")
                ctx.eq(list(t[cm[c]]), v, f"column {cm[c]}, the original name of {c}")
        for c in ("nope", "seeing", "alsoNot", "myDec" if cm.get("dec") != "myDec" else "nope"):
            ctx.check(c not in t, f"{c} is reported as a column")
            ctx.raises(KeyError, lambda: t[c], f"reading the column {c}")
        ctx.eq(sorted(t.filters), sorted(set(model["filter"])), "filters")
        if not st["touched"]:
            src = st["src"]
            for c, v in BASE.items():
                ctx.eq(list(src[source_name(st["cm"], c)]), v, f"the caller's own column {c}")
            ctx.eq(set(src), {source_name(st["cm"], c) for c in BASE}, "the caller's own column names")


def sec_histories(ctx):
    for m in MAPS:
        for cont, index in (("dict", 0), ("lists", 0), ("pandas", 0), ("pandas", 1)):
            bfs(ctx, f"columns-{m}-{cont}-{index}", Columns(m, cont, index), ctx.pick(2, 4))


def sec_alias(ctx):
    """The caller reuses its data in place at any point of a history; one object lives through the whole history."""
    ops = [["reuse"], ["add", "flag", "list"], ["put", "zp", "one"], ["filter", "mask"]]

    def go(m, cont, index, hist):
        machine = Columns(m, cont, index)
        st = machine.start(ctx)
        for op in hist:
            machine.step(ctx, st, op)
            machine.observe(ctx, st)
            ctx.step()
        ctx.state((m, cont, index, hist))

    for m in MAPS:
        for cont, index in (("dict", 0), ("lists", 0), ("pandas", 0), ("pandas", 1)):
            for hist in itertools.chain.from_iterable(itertools.product(ops, repeat=k) for k in range(1, ctx.pick(4, 6))):
                if ["reuse"] in hist and [list(o) for o in hist].count(["put", "zp", "one"]) < 2:
                    ctx.case({"map": m, "container": cont, "index": index, "history": hist}, go, m, cont, index, hist)


def sec_construct(ctx):
    """Missing and colliding columns; where each survey value comes from."""
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
    from lightcurvelynx.obstable.obs_table import ObsTable
    from lightcurvelynx.obstable.opsim import OpSim
    from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

    for missing in ("ra", "dec", "time"):
        for m in ("none", "all"):
            cm = MAPS[m]
            data = {source_name(cm, c): list(v) for c, v in BASE.items() if c != missing}
            ctx.case({"missing": missing, "map": m}, ctx.raises, KeyError, lambda d=data, c=cm: ObsTable(d, colmap=c), f"a table without {missing}")
    for std in BASE:
        for other in BASE:
            if std == other:
                continue

            def go(std=std, other=other):
                ctx.raises(ValueError, lambda: ObsTable(dict(BASE), colmap={std: other}), f"mapping the column {other} onto {std}")

            ctx.case({"collide": [std, other]}, go)

    def attrs(bad):
        df = pd.DataFrame(dict(BASE))
        df.attrs["lightcurvelynx_survey_data"] = bad
        ctx.raises(TypeError, lambda: ObsTable(df), f"survey data {bad!r}")

    for bad in ("text", [1, 2], 5.0):
        ctx.case({"attrs": bad}, attrs, bad)
    base = {"ra": [1.0, 2.0], "dec": [0.0, 1.0], "time": [0.0, 1.0], "filter": ["g", "r"], "zp": [1.0, 1.0]}
    keys = ["radius", "pixel_scale", "survey_name", "read_noise", "my_own"]
    for cls in (ObsTable, OpSim, ZTFObsTable, FakeObsTable):
        for where in itertools.product(("", "meta", "kw", "both"), repeat=ctx.pick(3, 5)):
            where = dict(zip(keys, where))

            def go(cls=cls, where=where):
                df = pd.DataFrame(base)
                extra = {"const_flux_error": 1.0} if cls is FakeObsTable else {}
                plain = cls(df, **extra).survey_values
                meta = {k: 11.0 + i for i, (k, w) in enumerate(where.items()) if w in ("meta", "both")}
                kw = {k: 77.0 + i for i, (k, w) in enumerate(where.items()) if w in ("kw", "both")}
                df.attrs["lightcurvelynx_survey_data"] = dict(meta)
                t = cls(df, **extra, **kw)
                want = {**plain, **meta, **kw}
                ctx.eq(dict(t.survey_values), want, f"survey values of {cls.__name__} given as {where}")
                ctx.eq(cls(pd.DataFrame(base), **extra).survey_values, plain, "survey values of a table built afterwards")
                ctx.eq(t.radius, want.get("radius"), "radius")
                for k in keys:
                    if want.get(k) is None:
                        ctx.raises(ValueError, lambda: t.safe_get_survey_value(k), f"the missing survey value {k}")
                    else:
                        ctx.eq(t.safe_get_survey_value(k), want[k], f"survey value {k}")
                ctx.eq(df.attrs["lightcurvelynx_survey_data"], meta, "the caller's metadata")
                ctx.state((cls.__name__, where))
                ctx.step()

            ctx.case({"cls": cls.__name__, "where": list(where.values())}, go)
    ctx.outcome("construct")


SECTIONS = [("histories", sec_histories, 8), ("alias", sec_alias), ("construct", sec_construct, 4)]
