"""G02: sampled states survive every chain of conversions (dict, nested dict, table, file, list of slices)."""

import itertools
import math
import os
from pathlib import Path

import numpy as np

ID = "G02"
RULE = (
    "every chain of converters up to the bound, from every layout x value kind x sample count; every short/full "
    "name request over every layout; a state is (layout, kind, n, chain prefix)"
)
ASSUMPTIONS = ["values survive to the precision of a double printed by the ECSV writer (compared exactly)"]

KINDS = {
    "float": [1.5, -2.25, 1e-300],
    "precise": [0.1 + 0.2, math.pi * 1e17, -1.0 / 3.0],
    "int": [1, -2, 3],
    "big": [2**62, 1, -(2**62)],
    "bool": [True, False, True],
    "str": ["a", "bc", "d e"],
    "hard": ["", "a,b", '"q" #x'],
    "none": [None, None, None],
    "special": [math.nan, math.inf, -math.inf],
    "mixed": [None, 1.0, 2.5],
}
LAYOUTS = {
    "one": [("A", "x")],
    "two_params": [("A", "x"), ("A", "y")],
    "two_nodes": [("A", "x"), ("B", "x")],
    "odd_names": [("my node 1", "x"), ("Node:func_2", "x y"), ("C", "b")],
}
CONVERTERS = ["dict", "nested", "table", "file", "slices", "slice_dicts", "copy", "split"]


def build(n, layout, kind):
    from lightcurvelynx.graph_state import GraphState

    g = GraphState(n)
    table = {}
    for j, (node, var) in enumerate(layout):
        vals = KINDS[kind] if j == 0 else [10.0 * j + i for i in range(3)]
        vals = vals[:n]
        table[f"{node}.{var}"] = vals
        g.set(node, var, vals[0] if n == 1 else np.array(vals))
    return g, table


def convert(ctx, g, how):
    from lightcurvelynx.graph_state import GraphState

    n = g.num_samples
    if how == "dict":
        return GraphState.from_dict(g.to_dict(), n)
    if how == "nested":
        nested = {}
        for full, v in g.to_dict().items():
            a, b = full.split(".")
            nested.setdefault(a, {})[b] = v
        return GraphState.from_dict(nested, n)
    if how == "table":
        t = g.to_table()
        ctx.eq(len(t), n, "rows of the table")
        return GraphState.from_table(t)
    if how == "file":
        path = Path(os.environ["VERIF_SCRATCH"]) / f"g02_{os.getpid()}.ecsv"
        try:
            g.save_to_file(path)
            before = path.read_bytes()
            ctx.raises(OSError, lambda: g.save_to_file(path), "second save without overwrite")
            ctx.check(path.read_bytes() == before, "a refused save changed the file")
            g.save_to_file(path, overwrite=True)
            return GraphState.from_file(path)
        finally:
            path.unlink(missing_ok=True)
    if how == "slices":
        return GraphState.from_list(list(g))
    if how == "slice_dicts":
        return GraphState.from_list([s.to_dict() for s in g])
    if how == "copy":
        return g.copy()
    if how == "split":
        # first sample on its own, the rest as one multi-sample state
        if n == 1:
            return GraphState.from_list([g])
        rows = list(g)
        return GraphState.from_list([rows[0], GraphState.from_list(rows[1:])])
    raise KeyError(how)


def eqv(a, b):
    if isinstance(a, (bytes, np.bytes_)):
        return False
    if a is None or b is None:
        return a is None and b is None
    if isinstance(b, str):
        return isinstance(a, (str, np.str_)) and str(a) == b
    if isinstance(b, bool):
        return isinstance(a, (bool, np.bool_)) and bool(a) == b
    try:
        if isinstance(b, float) and math.isnan(b):
            return math.isnan(a)
        return np.ndim(a) == 0 and bool(a == b)
    except TypeError:
        return False


def compare(ctx, g, n, table, what):
    ctx.eq(g.num_samples, n, f"{what}: number of samples")
    d = g.to_dict()
    ctx.check(set(d) == set(table), lambda: f"{what}: parameters {sorted(d)}, expected {sorted(table)}")
    for k, vals in table.items():
        got = g[k]
        if n == 1:
            ctx.check(eqv(got, vals[0]), lambda: f"{what}: {k} is {got!r}, expected the bare value {vals[0]!r}")
            ctx.check(eqv(d[k], vals[0]), lambda: f"{what}: dict entry {k} is {d[k]!r}")
        else:
            ctx.check(
                isinstance(got, np.ndarray) and got.shape == (n,) and all(eqv(a, b) for a, b in zip(got, vals)),
                lambda: f"{what}: {k} is {got!r}, expected {vals}",
            )
            ctx.check(
                isinstance(d[k], list) and len(d[k]) == n and all(eqv(a, b) for a, b in zip(d[k], vals)),
                lambda: f"{what}: dict entry {k} is {d[k]!r}",
            )


def sec_chains(ctx):
    depth = ctx.pick(2, 3)
    for n in (1, 2, 3):
        for lname, layout in LAYOUTS.items():
            for kind in KINDS:
                for ln in range(1, depth + 1):
                    for chain in itertools.product(CONVERTERS, repeat=ln):

                        def go(n=n, layout=layout, kind=kind, chain=chain, lname=lname):
                            g, table = build(n, layout, kind)
                            for i, how in enumerate(chain):
                                g = convert(ctx, g, how)
                                ctx.step()
                                ctx.state((n, lname, kind, chain[: i + 1]))
                            compare(ctx, g, n, table, f"after {chain}")
                            ctx.outcome(chain[-1])

                        ctx.case({"n": n, "layout": lname, "kind": kind, "chain": list(chain)}, go)


def sec_vectors(ctx):
    """Parameters with a whole array per sample survive every chain of converters too."""
    from lightcurvelynx.graph_state import GraphState

    for n in (1, 2, 3):
        for shape in ((1,), (2,), (3,), (2, 2)):
            for ln in range(1, ctx.pick(2, 3) + 1):
                for chain in itertools.product(CONVERTERS, repeat=ln):

                    def go(n=n, shape=shape, chain=chain):
                        vec = np.arange(n * math.prod(shape)).reshape((n, *shape)) * 1.5 + 0.25
                        one = np.arange(n) - 7.5
                        g = GraphState(n)
                        g.set("A", "x", vec[0] if n == 1 else vec.copy())
                        g.set("B", "y", one[0] if n == 1 else one.copy())
                        for i, how in enumerate(chain):
                            g = convert(ctx, g, how)
                            ctx.step()
                            ctx.state((n, shape, chain[: i + 1]))
                        ctx.eq(g.num_samples, n, f"samples after {chain}")
                        ctx.eq(sorted(g.get_all_params_names()), ["A.x", "B.y"], f"names after {chain}")
                        for key, want in (("A.x", vec), ("B.y", one)):
                            want = want[0] if n == 1 else want
                            got = np.asarray(g[key])
                            ctx.check(
                                got.shape == np.shape(want) and bool(np.all(got == want)),
                                lambda: f"{key} is {got!r} after {chain}, expected {want!r}",
                            )
                        ctx.outcome("vector")

                    ctx.case({"n": n, "shape": shape, "chain": list(chain)}, go)


def sec_shared(ctx):
    """Parameters that hold the very same object (linked parameters) are still parameters of their own."""
    from lightcurvelynx.graph_state import GraphState

    for n in (1, 3):
        for k in (2, 3):
            for pick in itertools.product((0, 1), repeat=k):

                def go(n=n, k=k, pick=pick):
                    values = [np.arange(n) * 1.0 + 5.0, np.arange(n) * 1.0 + 50.0]
                    g = GraphState(n)
                    for node, which in zip("ABC", pick):
                        g.set(node, "x", values[which] if n > 1 else float(values[which][0]))
                    want = {f"{node}.x": g[f"{node}.x"] for node in "ABC"[:k]}
                    got = g.extract_parameters("x")
                    ctx.step()
                    ctx.state((n, pick))
                    ctx.eq(got, want, f"request of a short name that {k} nodes have")
                    ctx.check(len(g.to_dict()) == k and len(g.to_table().colnames) == k, "a linked parameter was dropped")
                    ctx.outcome(f"shared{len(set(pick))}")

                ctx.case({"n": n, "pick": pick}, go)


def sec_names(ctx):
    """extract_parameters: a full name gives that entry; a short name gives the entry itself when exactly one
    node has it and one full-named entry per node otherwise; anything missing is an error."""
    from lightcurvelynx.graph_state import GraphState

    subsets = [(), ("x",), ("y",), ("x", "y")]
    asks = ["x", "y", "A.x", "B.y", "C.x", "z", "A.z", "D.x"]
    for lay in itertools.product(subsets, repeat=3):
        for n in (1, 2):
            for k in (1, 2, 3):
                for req in itertools.combinations(asks, k):
                    for form in ("list", "reversed") if k > 1 else ("list", "str"):

                        def go(lay=lay, n=n, req=req, form=form):
                            g = GraphState(n)
                            table = {}
                            for i, (node, ps) in enumerate(zip("ABC", lay)):
                                for j, p in enumerate(ps):
                                    v = 10.0 * i + j + (np.arange(n) * 100.0 if n > 1 else 0.0)
                                    g.set(node, p, v)
                                    table[(node, p)] = v
                            want = {}
                            bad = False
                            for r in req:
                                if "." in r:
                                    key = tuple(r.split("."))
                                    bad |= key not in table
                                    if key in table:
                                        want[r] = table[key]
                                else:
                                    have = [k2 for k2 in table if k2[1] == r]
                                    bad |= not have
                                    if len(have) == 1:
                                        want[r] = table[have[0]]
                                    else:
                                        for h in have:
                                            want[f"{h[0]}.{h[1]}"] = table[h]
                            for r in asks:
                                if "." in r:
                                    ctx.eq(bool(r in g), tuple(r.split(".")) in table, f"'{r}' in the state")
                                elif len({key[0] for key in table}) == 1:
                                    ctx.eq(bool(r in g), any(key[1] == r for key in table), f"'{r}' in the state")
                            arg = list(req) if form == "list" else list(reversed(req)) if form == "reversed" else req[0]
                            ctx.step()
                            ctx.state((lay, n, req))
                            if bad:
                                ctx.raises(KeyError, lambda: g.extract_parameters(arg), f"request {arg}")
                                ctx.outcome("missing")
                            else:
                                ctx.eq(g.extract_parameters(arg), want, f"request {arg}")
                                ctx.outcome(f"found{len(want)}")

                        ctx.case({"layout": lay, "n": n, "ask": req, "form": form}, go)


def sec_rejects(ctx):
    """Inputs that cannot be a sampled state are refused."""
    from astropy.table import Table

    from lightcurvelynx.graph_state import GraphState, transpose_dict_of_list

    bad = {
        "empty_list": lambda: GraphState.from_list([]),
        "wrong_type": lambda: GraphState.from_list([1]),
        "params_differ": lambda: GraphState.from_list([{"A.x": 1}, {"A.y": 1}]),
        "params_missing": lambda: GraphState.from_list([{"A.x": 1, "A.y": 2}, {"A.x": 1}]),
        "params_extra": lambda: GraphState.from_list([{"A.x": 1}, {"A.x": 1, "B.x": 2}]),
        "flat_no_dot": lambda: GraphState.from_dict({"x": 1}),
        "table_no_dot": lambda: GraphState.from_table(Table({"x": [1, 2]})),
        "table_two_dots": lambda: GraphState.from_table(Table({"a.b.c": [1, 2]})),
        "dict_two_dots": lambda: GraphState.from_dict({"a.b.c": 1}),
        "dict_wrong_len": lambda: GraphState.from_dict({"A.x": [1, 2, 3]}, 2),
        "key_two_dots": lambda: GraphState.from_dict({"A.x": 1})["A.x.y"],
    }
    for name, fn in bad.items():

        def go(name=name, fn=fn):
            ctx.step()
            ctx.state(name)
            ctx.raises((ValueError, KeyError, TypeError), fn, name)
            ctx.outcome("rejected")

        ctx.case({"bad": name}, go)
    for num in range(-1, 4):
        for la in range(0, 4):
            for lb in range(0, 4):

                def go(num=num, la=la, lb=lb):
                    src = {"a": list(range(la)), "b": np.arange(lb) * 10}
                    ctx.step()
                    ctx.state((num, la, lb))
                    if num < 1 or la != num or lb != num:
                        ctx.raises(ValueError, lambda: transpose_dict_of_list(src, num), "transpose")
                        ctx.outcome("t-rejected")
                    else:
                        ctx.eq(
                            transpose_dict_of_list(src, num),
                            [{"a": i, "b": 10 * i} for i in range(num)],
                            "transpose",
                        )
                        ctx.outcome("t-ok")

                ctx.case({"transpose": [num, la, lb]}, go)


SECTIONS = [("chains", sec_chains, 8), ("vectors", sec_vectors), ("shared", sec_shared), ("names", sec_names, 2), ("rejects", sec_rejects)]
