"""G06: value and table samplers hand out exactly the given data, row-aligned, in order or with the given weights."""

import itertools

import numpy as np

from mc.core import Machine, bfs
from mc.rng import ScriptedRNG

ID = "G06"
RULE = (
    "in-order samplers: breadth-first search over draw / reset histories until exhaustion; random samplers: every "
    "script of random quantiles on a grid (a scripted generator resolves each random choice); a state is (sampler, "
    "position) or (sampler, script)"
)
ASSUMPTIONS = ["samplers take their randomness from the numpy Generator interface of the generator they are given"]

QS = [0.0, 0.05, 0.15, 0.25, 0.35, 0.45, 0.5, 0.55, 0.65, 0.75, 0.85, 0.95, 1 - 2**-53]


class InOrder(Machine):
    """GivenValueList / in-order TableSampler inside a two-node graph, against a cursor."""

    def __init__(self, what, length):
        self.what = what
        self.length = length

    def build(self, st):
        from astropy.table import Table
        import pandas as pd
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList, TableSampler

        n = self.length
        a, b = [10.0 * i for i in range(n)], [f"s{i}" for i in range(n)]
        if self.what == "list":
            st["node"] = GivenValueList(a, node_label="s")
        elif self.what == "strings":
            st["node"] = GivenValueList(b, node_label="s")
        else:
            data = {"a": a, "b": b, "c": [i * 7 for i in range(n)]}
            if self.what.endswith("-one"):
                data = {"b": b}
            if self.what.startswith("pandas"):
                data = pd.DataFrame(data, index=[50 - i for i in range(n)])
            elif self.what.startswith("astropy"):
                data = Table(data)
            st["node"] = TableSampler(data, in_order=True, node_label="s")
        st["node"].set_graph_positions()

    def start(self, ctx):
        st = {"pos": 0, "hist": []}
        self.build(st)
        return st

    def clone(self, st):
        new = {"pos": st["pos"], "hist": list(st["hist"])}
        self.build(new)
        for op in st["hist"]:
            self.apply(new["node"], op)
        return new

    def ops(self, st):
        return [["draw", 1], ["draw", 2], ["draw", 3], ["rng", 2], ["reset"]]

    def canon(self, st):
        return (self.what, st["pos"], st["hist"][-2:])

    def apply(self, node, op):
        if op[0] == "reset":
            node.reset()
            return "ok", None
        rng = np.random.default_rng(4) if op[0] == "rng" else None
        try:
            return "ok", node.sample_parameters(num_samples=op[1], rng_info=rng)
        except IndexError as err:
            return "end", err

    def step(self, ctx, st, op):
        kind, got = self.apply(st["node"], op)
        st["hist"].append(op)
        if op[0] == "reset":
            st["pos"] = 0
            ctx.outcome("reset")
            return
        n = op[1]
        if st["pos"] + n > self.length:
            ctx.check(kind == "end", lambda: f"drawing {n} past the end (at {st['pos']} of {self.length}) gave {got}")
            ctx.outcome("exhausted")
            return
        if not ctx.check(kind == "ok", lambda: f"draw of {n} at {st['pos']} of {self.length} raised {got!r}"):
            return
        rows = range(st["pos"], st["pos"] + n)
        st["pos"] += n
        if self.what == "list":
            want = {"function_node_result": [10.0 * i for i in rows]}
        elif self.what == "strings":
            want = {"function_node_result": [f"s{i}" for i in rows]}
        else:
            want = {"a": [10.0 * i for i in rows], "b": [f"s{i}" for i in rows], "c": [i * 7 for i in rows]}
        if self.what.endswith("-one"):
            want = {"b": want["b"]}
        for name, vals in want.items():
            v = got[f"s.{name}"]
            ctx.check(
                (n == 1 and np.ndim(v) == 0 and v == vals[0]) or (n > 1 and np.shape(v) == (n,) and list(v) == vals),
                lambda: f"{name} is {v!r}, rows {list(rows)} hold {vals}",
            )
        ctx.outcome(f"draw{n}")


def sec_in_order(ctx):
    for what in ("list", "strings", "dict", "pandas", "astropy", "dict-one", "pandas-one", "astropy-one"):
        for length in (1, 4):
            bfs(ctx, f"{what}{length}", InOrder(what, length), ctx.pick(4, 6))


def sec_table(ctx):
    """Random rows: every script of quantiles; every sampled row is one input row, all columns from the same row."""
    import pandas as pd
    from astropy.table import Table
    from lightcurvelynx.math_nodes.given_sampler import TableSampler

    data = {"a": [10.0, 20.0, 30.0, 40.0], "b": ["w", "x", "y", "z"], "c": [1, 2, 3, 4]}
    makers = {"dict": dict, "pandas": lambda d: pd.DataFrame(d, index=[7, 7, 2, 0]), "astropy": Table}
    for kind, mk in makers.items():
        for n in (1, 2, 3):
            for qs in itertools.product(QS[1::2], repeat=min(n, ctx.pick(2, 3))):

                def go(kind=kind, mk=mk, n=n, qs=qs):
                    src = mk({k: list(v) for k, v in data.items()})
                    node = TableSampler(src, node_label="t")
                    st = node.sample_parameters(num_samples=n, rng_info=ScriptedRNG(qs))
                    rows = set(zip(data["a"], data["b"], data["c"]))
                    cols = [np.atleast_1d(st[f"t.{c}"]) for c in "abc"]
                    ctx.check(all(len(c) == n for c in cols), lambda: f"column lengths {[len(c) for c in cols]} for {n} samples")
                    for row in zip(*cols):
                        ctx.check(tuple(row) in rows, lambda: f"sampled row {row} is not a row of the table")
                        ctx.state((kind, str(row)))
                    ctx.outcome(f"table{n}")

                def single(kind=kind, mk=mk, n=n, qs=qs):
                    node = TableSampler(mk({"a": list(data["a"])}), node_label="t")
                    col = np.atleast_1d(node.sample_parameters(num_samples=n, rng_info=ScriptedRNG(qs))["t.a"])
                    full = TableSampler(mk({k: list(v) for k, v in data.items()}), node_label="t")
                    want = np.atleast_1d(full.sample_parameters(num_samples=n, rng_info=ScriptedRNG(qs))["t.a"])
                    ctx.eq(col, want, "rows of a table with one column")

                ctx.case({"kind": kind, "n": n, "qs": qs}, go)
                ctx.case({"kind": kind, "n": n, "qs": qs, "columns": 1}, single)

    def every():
        # every row can be drawn, none more often than the others, on an even grid of quantiles
        node = TableSampler(data, node_label="t")
        seen = [float(node.sample_parameters(rng_info=ScriptedRNG([(k + 0.5) / 40]))["t.a"]) for k in range(40)]
        ctx.eq([seen.count(v) for v in data["a"]], [10, 10, 10, 10], "draws per row over an even grid")

        # the table handed over by the caller is not affected by draws and later edits do not leak in
        t = Table(data)
        node = TableSampler(t, in_order=True, node_label="t")
        t["a"][0] = -1.0
        ctx.eq(float(node.sample_parameters()["t.a"]), 10.0, "a copy of the given table is sampled")

    ctx.case({"what": "every row"}, every)


def sec_weights(ctx):
    """Weighted choice: on an even quantile grid every value is chosen in proportion to its weight."""
    from lightcurvelynx.math_nodes.given_sampler import BinarySampler, GivenValueSampler

    grid = 240
    for n in range(1, ctx.pick(4, 5)):
        for w in itertools.product([0, 1, 2, 3], repeat=n):
            if sum(w) == 0 or grid % sum(w):
                continue
            for form in ("list", "int array", "float array", "scaled"):

                def go(w=w, n=n, form=form):
                    vals = [f"v{i}" for i in range(n)]
                    ws = {"list": list(w), "int array": np.array(w), "float array": np.array(w, float), "scaled": [x * 0.125 for x in w]}[form]
                    before = list(ws)
                    node = GivenValueSampler(vals, weights=ws, node_label="s")
                    ctx.check(list(ws) == before, "the caller's weights were changed")
                    qs = [(k + 0.5) / grid for k in range(grid)]
                    st = node.sample_parameters(num_samples=grid, rng_info=ScriptedRNG(qs))
                    got = list(st["s.function_node_result"])
                    ctx.eq([got.count(v) for v in vals], [grid * x // sum(w) for x in w], f"choices for weights {w}")
                    one = [node.sample_parameters(rng_info=ScriptedRNG([q]))["s.function_node_result"] for q in qs[::12]]
                    ctx.eq([str(v) for v in one], [str(v) for v in got[::12]], "single draws agree with a batch draw")
                    ctx.state((w, form))
                    ctx.outcome("weights")

                ctx.case({"weights": w, "form": form}, go)

    def unweighted():
        for vals in ([3.5, 4.5, 5.5], 4, ["a"], np.array([[1, 2], [3, 4]])):
            node = GivenValueSampler(vals, node_label="s")
            pool = list(range(vals)) if isinstance(vals, int) else list(vals)
            m = len(pool)
            st = node.sample_parameters(num_samples=12 * m, rng_info=ScriptedRNG([(k + 0.5) / (12 * m) for k in range(12 * m)]))
            got = [str(v) for v in st["s.function_node_result"]]
            ctx.eq([got.count(str(np.asarray(v))) for v in pool], [12] * m, f"even choices from {vals}")

    ctx.case({"what": "unweighted"}, unweighted)

    def rejected():
        import pandas as pd
        from astropy.table import Table
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList, GivenValueSelector, TableSampler

        ctx.raises(ValueError, lambda: GivenValueSampler([1, 2], weights=[1.0]), "too few weights")
        ctx.raises(ValueError, lambda: GivenValueSampler([1, 2], weights=[1.0, 2.0, 3.0]), "too many weights")
        ctx.raises(ValueError, lambda: GivenValueSampler([]), "no values")
        ctx.raises(ValueError, lambda: BinarySampler(-0.1), "probability below 0")
        ctx.raises(ValueError, lambda: GivenValueList([]), "a list without values")
        ctx.raises(ValueError, lambda: GivenValueList(np.array([])), "an array without values")
        ctx.raises(ValueError, lambda: GivenValueSelector([], 0), "a selector without values")
        for bad in ([[1.0, 2.0]], "words", np.zeros((2, 2)), None, 5):
            ctx.raises(TypeError, lambda bad=bad: TableSampler(bad), f"a table that is {bad!r}")
        for bad in ({"a": []}, {}, pd.DataFrame({"a": []}), pd.DataFrame(), Table({"a": []}), Table()):
            ctx.raises(ValueError, lambda bad=bad: TableSampler(bad), f"a table without rows, {type(bad).__name__}")
        ctx.raises(ValueError, lambda: BinarySampler(1.1), "probability above 1")

    ctx.case({"what": "rejected"}, rejected)
    for p in (0.0, 0.05, 0.25, 0.5, 0.75, 0.95, 1.0):
        for n in (1, 2, 20):

            def binary(p=p, n=n):
                node = BinarySampler(p, node_label="s")
                qs = [(k + 0.5) / 20 for k in range(20)] + [0.0, 1 - 2**-53]
                for r in range(len(qs)):
                    script = qs[r:] + qs[:r]
                    got = np.atleast_1d(node.sample_parameters(num_samples=n, rng_info=ScriptedRNG(script))["s.function_node_result"])
                    want = [(script[i] < p) for i in range(n)]
                    frac = sum(bool(g) for g in got), sum(want)
                    if n == 20 and p not in (0.0, 1.0):
                        ctx.check(abs(frac[0] - frac[1]) <= 1, lambda: f"{frac[0]} of {n} True for probability {p}, expected {frac[1]}")
                    if p in (0.0, 1.0):
                        ctx.check(all(bool(g) == bool(p) for g in got), lambda: f"probability {p} gave {got}")
                ctx.state((p, n))
                ctx.outcome("binary")

            ctx.case({"p": p, "n": n}, binary)
    for p in (0.001, 0.004, 0.1234, 1 / 3, 0.5004, 0.996, 0.9994):

        def precise(p=p):
            m = 2000
            node = BinarySampler(p, node_label="s")
            rng = ScriptedRNG([(k + 0.5) / m for k in range(m)])
            got = int(np.sum(node.sample_parameters(num_samples=m, rng_info=rng)["s.function_node_result"]))
            ctx.check(abs(got - m * p) <= 1, lambda: f"{got} of {m} True for probability {p}")
            ctx.state((p, m))
            ctx.outcome("binary")

        ctx.case({"p": p, "n": "grid"}, precise)


def sec_selector(ctx):
    """Selection by index: every index vector, in and out of range."""
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList, GivenValueSelector

    for m in (1, 2, 3):
        for n in (1, 2, 3):
            for idx in itertools.product(range(-2, m + 2), repeat=n):

                def go(m=m, n=n, idx=idx):
                    vals = [100.0 + i for i in range(m)]
                    node = GivenValueSelector(vals, GivenValueList(list(idx)), node_label="s")
                    how, got = ctx.attempt(lambda: node.sample_parameters(num_samples=n))
                    if any(i < 0 or i >= m for i in idx):
                        ctx.check(how == "err" and isinstance(got, IndexError), lambda: f"index {idx} of {m} gave {how}: {got}")
                        ctx.outcome("out of range")
                    elif ctx.check(how == "ok", lambda: f"index {idx} of {m} raised {got!r}"):
                        ctx.eq(list(np.atleast_1d(got["s.function_node_result"])), [vals[i] for i in idx], f"selection {idx}")
                        ctx.outcome("selected")
                    ctx.state((m, idx))

                ctx.case({"m": m, "idx": idx}, go)


def sec_density(ctx):
    """Tabulated densities: every draw is inside the table, the draw is monotonic in the random number, and the
    mass between two knots is the tabulated mass."""
    from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler

    xs = {
        "even": [0.0, 1.0, 2.0, 3.0, 4.0],
        "offset": [100.0, 100.5, 102.0, 110.0, 111.0],
        "negative": [-9.0, -5.0, -4.0, 0.5, 2.0],
    }
    grid = 1200
    for name, x in xs.items():
        for y in itertools.product([0, 1, 3], repeat=5):
            if sum(y) == 0:
                continue
            for form in ("float", "int", "list"):
                if form != "float" and ctx.tier == "quick" and name != "offset":
                    continue

                def go(x=x, y=y, form=form):
                    yy = {"float": np.array(y, float), "int": np.array(y), "list": list(y)}[form]
                    node = DistributionSampler(np.array(x) if form != "list" else x, yy, node_label="d", outputs=["z"])
                    qs = [0.0] + [(k + 0.5) / grid for k in range(grid)] + [1 - 2**-53]
                    z = np.asarray(node.sample_parameters(num_samples=len(qs), rng_info=ScriptedRNG(qs))["d.z"], float)
                    ctx.check(bool(np.all(np.isfinite(z))), lambda: "a draw is not finite")
                    ctx.check(bool(np.all((z >= x[0]) & (z <= x[-1]))), lambda: f"draws outside of the table: {z.min()}..{z.max()}")
                    ctx.check(bool(np.all(np.diff(z) >= -1e-9)), "draws are not monotonic in the random number")
                    tot = float(sum(y))
                    inner = z[1:-1]
                    for k in range(1, 5):
                        # mass at or below knot k is the cumulative tabulated mass
                        below = np.sum(inner <= x[k] + 1e-9) / grid
                        above = np.sum(inner < x[k] - 1e-9) / grid
                        cum = sum(y[: k + 1]) / tot
                        if y[k] > 0 or k == 4:
                            ctx.check(
                                above - 2 / grid <= cum <= below + 2 / grid,
                                lambda: f"mass up to {x[k]} is between {above} and {below}, the table has {cum} for {y}",
                            )
                    one = float(node.sample_parameters(rng_info=ScriptedRNG([qs[37]]))["d.z"])
                    ctx.eq(one, z[37], "single draw")
                    for n in (2, 3, 4):
                        some = np.asarray(node.sample_parameters(num_samples=n, rng_info=ScriptedRNG(qs[300 : 300 + 200 * n : 200]))["d.z"], float)
                        ctx.eq(some.tolist(), z[300 : 300 + 200 * n : 200].tolist(), f"{n} draws")
                    ctx.state((x[0], y, form))
                    ctx.outcome("density")

                ctx.case({"x": name, "y": y, "form": form}, go)

    def rejected():
        ctx.raises(ValueError, lambda: DistributionSampler([0.0, 1.0], [1.0]), "lengths differ")
        ctx.raises(ValueError, lambda: DistributionSampler(np.array([0.0, 1.0]), np.array([1.0, -1.0])), "negative density")

    ctx.case({"what": "rejected"}, rejected)


def sec_pdf(ctx):
    """Sampling a class of distributions uses each sample's own parameters; an object stays in its support."""
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.math_nodes.scipy_random import NumericalInversePolynomialFunc, SampleLogPDF, SamplePDF

    from scipy.stats import norm

    class Narrow:
        def __init__(self, mu=0.0, sd=0.01):
            self.mu, self.sd = mu, sd

        def pdf(self, x):
            return np.exp(-0.5 * ((x - self.mu) / self.sd) ** 2)

    mus = [0.0, 1.0, -0.5]
    for n in (1, 2, 3):
        for perm in itertools.permutations(mus, n):
            for rng in (None, 3):

                def go(n=n, perm=perm, rng=rng):
                    node = NumericalInversePolynomialFunc(Narrow, seed=2, node_label="d", mu=GivenValueList(list(perm)), sd=0.01)
                    gen = None if rng is None else np.random.default_rng(rng)
                    z = np.atleast_1d(node.sample_parameters(num_samples=n, rng_info=gen)["d.function_node_result"])
                    ctx.check(z.shape == (n,) and bool(np.all(np.abs(z - np.array(perm)) < 0.2)), lambda: f"drew {z} around {perm}")
                    ctx.check(len(set(np.round(z - np.array(perm), 12))) == n, lambda: "samples are not drawn independently")
                    ctx.state((perm, rng))
                    ctx.outcome("class")

                ctx.case({"mu": perm, "rng": rng}, go)
    for kind in ("pdf function", "pdf object", "logpdf function", "logpdf object"):
        for n in (1, 2, 50):

            def sup(kind=kind, n=n):
                if kind == "pdf function":
                    node = SamplePDF(lambda x: np.exp(-0.5 * (x - 1.0) ** 2), seed=1, node_label="d")
                elif kind == "pdf object":
                    node = SamplePDF(Narrow(1.0, 1.0), seed=1, node_label="d")
                elif kind == "logpdf function":
                    node = SampleLogPDF(lambda x: -0.5 * (x - 1.0) ** 2, seed=1, node_label="d")
                else:

                    class L:
                        def logpdf(self, x):
                            return -0.5 * (x - 1.0) ** 2

                        def dlogpdf(self, x):
                            return -(x - 1.0)

                    node = SampleLogPDF(L(), seed=1, node_label="d")
                z = np.asarray(node.sample_parameters(num_samples=n)["d.function_node_result"])
                ctx.check(z.shape == (() if n == 1 else (n,)), lambda: f"shape {z.shape} for {n} samples")
                ctx.check(bool(np.all(np.abs(z - 1.0) < 8)), lambda: f"draws {z}")
                for seed in range(4):  # by inversion: each draw is the quantile of its own uniform number
                    got = np.atleast_1d(node.sample_parameters(num_samples=n, rng_info=np.random.default_rng(seed))["d.function_node_result"])
                    want = 1.0 + norm.ppf(np.random.default_rng(seed).random(n))
                    ctx.check(bool(np.allclose(got, want, atol=1e-5)), lambda: f"draws {got}, quantiles {want}")
                ctx.state((kind, n))
                ctx.outcome("object")

            ctx.case({"kind": kind, "n": n}, sup)


SECTIONS = [
    ("in_order", sec_in_order, 5),
    ("table", sec_table),
    ("weights", sec_weights),
    ("selector", sec_selector),
    ("density", sec_density, 2),
    ("pdf", sec_pdf),
]
