"""G05: random draws are a function of the seed or of the generator the caller passes, and of nothing else.

Every sequence of (draw from own stream / draw from a caller's generator / reseed) operations is executed on one
node; each result is compared with a *fresh* node on which only the operations that may matter were executed.
"""

import itertools

import numpy as np

from mc.core import same

ID = "G05"
RULE = (
    "every sequence of own-stream draws, caller-generator draws and reseedings up to the depth bound, for every "
    "random node class and for composed graphs; the same draws in a fresh process for every iteration order of a set of "
    "three names; a state is (node kind, own stream position, operation) or an iteration order"
)
ASSUMPTIONS = ["numpy generators created from equal seeds produce equal streams"]


def obs_table():
    import pandas as pd
    from lightcurvelynx.obstable.opsim import OpSim

    return OpSim(
        pd.DataFrame(
            {
                "observationStartMJD": np.arange(6.0),
                "fieldRA": [10.0, 80.0, 150.0, 210.0, 280.0, 340.0],
                "fieldDec": [-60.0, -20.0, 0.0, 15.0, 45.0, 70.0],
                "zp_nJy": np.ones(6),
                "filter": ["r"] * 6,
            }
        ),
        radius=40.0,
    )


class StubFlow:
    """Stands in for a trained pzflow flow: two aligned columns drawn from the seed it is given."""

    data_columns = ["x", "y"]
    conditional_columns = None

    def __init__(self):
        self.rng = np.random.default_rng(99)

    def sample(self, n, conditions=None, seed=None):
        import pandas as pd

        rng = self.rng if seed is None else np.random.default_rng(seed)
        x = rng.random(n)
        return pd.DataFrame({"x": x, "y": x * 2})


def kinds():
    from lightcurvelynx.base_models import FunctionNode
    from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler
    from lightcurvelynx.math_nodes.given_sampler import BinarySampler, GivenValueSampler, TableSampler
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
    from lightcurvelynx.math_nodes.ra_dec_sampler import (
        ApproximateMOCSampler,
        ObsTableRADECSampler,
        ObsTableUniformRADECSampler,
        UniformRADEC,
    )
    from lightcurvelynx.math_nodes.scipy_random import NumericalInversePolynomialFunc, SamplePDF
    from lightcurvelynx.models.basic_models import ConstantSEDModel
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

    obs = obs_table()

    def moc(seed):
        from astropy.coordinates import Latitude, Longitude
        import astropy.units as u
        from mocpy import MOC

        m = MOC.from_cone(Longitude(20 * u.deg), Latitude(30 * u.deg), radius=3 * u.deg, max_depth=6)
        return ApproximateMOCSampler(m, seed=seed, depth=6)

    def tri(x):
        return 1.0 - abs(x) if abs(x) < 1 else 0.0

    class Gauss:
        def __init__(self, mu=0.0):
            self.mu = mu

        def pdf(self, x):
            return np.exp(-0.5 * (x - self.mu) ** 2)

    def chain(seed):
        a = NumpyRandomFunc("uniform", low=0.0, high=5.0, seed=seed)
        b = NumpyRandomFunc("normal", loc=a, scale=1.0, seed=seed + 100)
        return FunctionNode(lambda p, q: p * 10 + q, p=a, q=b)

    def chain_seeds(node, seed):
        node.setters["p"].dependency.set_seed(seed)
        node.setters["q"].dependency.set_seed(seed + 100)

    def models(cls):
        def make(seed):
            a = ConstantSEDModel(brightness=NumpyRandomFunc("uniform", seed=seed), node_label="a")
            b = ConstantSEDModel(
                brightness=NumpyRandomFunc("normal", loc=a.brightness, seed=seed + 7),
                ra=NumpyRandomFunc("uniform", low=0, high=360, seed=seed + 9),
                node_label="b",
            )
            m = cls([a, b], node_label="m")
            if cls is RandomMultiObjectModel:
                m.setters["selected_object"].dependency.set_seed(seed + 50)
            return m

        return make

    plain = lambda node, seed: node.set_seed(seed)  # noqa: E731
    return {
        "uniform": (lambda s: NumpyRandomFunc("uniform", seed=s), plain),
        "normal_vec": (lambda s: NumpyRandomFunc("normal", size=2, loc=3.0, scale=2.0, seed=s), plain),
        "integers": (lambda s: NumpyRandomFunc("integers", low=0, high=1000000, seed=s), plain),
        "exponential": (lambda s: NumpyRandomFunc("exponential", scale=2.0, seed=s), plain),
        "binary": (lambda s: BinarySampler(0.5, seed=s), plain),
        "values": (lambda s: GivenValueSampler(list(range(1000)), seed=s), plain),
        "weighted": (lambda s: GivenValueSampler([1.0, 2.0, 3.0, 4.0], weights=[1.0, 2.0, 3.0, 4.0], seed=s), plain),
        "table": (lambda s: TableSampler({"p": np.arange(500), "q": np.arange(500) * 2.0}, seed=s), plain),
        "pdf": (lambda s: SamplePDF(tri if False else Gauss(), seed=s), plain),
        "pdf_class": (lambda s: NumericalInversePolynomialFunc(Gauss, seed=s, mu=2.0), plain),
        "density": (lambda s: DistributionSampler(np.arange(9.0), np.ones(9), seed=s, outputs=["z"]), plain),
        "radec": (lambda s: UniformRADEC(seed=s), plain),
        "radec_radians": (lambda s: UniformRADEC(seed=s, use_degrees=False), plain),
        "pointings": (lambda s: ObsTableRADECSampler(obs, radius=1.5, seed=s), plain),
        "pointing_centers": (lambda s: ObsTableRADECSampler(obs, radius=0.0, seed=s), plain),
        "coverage": (lambda s: ObsTableUniformRADECSampler(obs, seed=s), plain),
        "moc": (moc, plain),
        "chain": (chain, chain_seeds),
        "additive": (models(AdditiveMultiObjectModel), None),
        "random": (models(RandomMultiObjectModel), None),
    }


def draw(node, n, rng=None):
    state = node.sample_parameters(num_samples=n, rng_info=rng)
    return {k: np.asarray(v) for k, v in state.to_dict().items()}


OPS_SEED = [["seed", 0], ["seed", 6]]


def run(ctx, kind, hist):
    make, reseed = kinds()[kind]
    node = make(5)
    node.set_graph_positions()
    own, seed = [], 5
    for op in hist:
        ctx.step()
        if op[0] == "seed":
            reseed(node, op[1])
            own, seed = [], op[1]
            continue
        fresh = make(seed if op[0] == "own" else 12345)  # with seed 0 both ways of seeding are compared
        fresh.set_graph_positions()
        if op[0] == "own":
            own.append(op[1])
            got = draw(node, op[1])
            for n in own:
                want = draw(fresh, n)
        else:
            got = draw(node, op[1], np.random.default_rng(op[2]))
            want = draw(fresh, op[1], np.random.default_rng(op[2]))
        ctx.compared += 1
        if set(got) != set(want) or not all(same(got[k], want[k], 1e-12, 1e-12) for k in got):
            ctx.fail(f"{kind} after {hist}: {op} gave {got}, a fresh node gives {want}")
            return
        for k, v in got.items():
            lead = () if op[1] == 1 else (op[1],)
            if kind != "normal_vec":
                ctx.check(v.shape == lead, lambda: f"{kind} {op}: {k} has shape {v.shape}, expected {lead}")
        ctx.state((kind, seed, tuple(own), op))
    ctx.outcome(kind)


def sec_histories(ctx):
    for kind, (_, reseed) in kinds().items():
        ops = [["own", 1], ["own", 3], ["rng", 1, 11], ["rng", 3, 11], ["rng", 3, 12]]
        if reseed is not None:
            ops += OPS_SEED[: ctx.pick(1, 2)]
        deep = 1 if kind in ("pdf_class", "additive", "random") else 0
        for ln in range(1, ctx.pick(4, 5) - deep):
            for hist in itertools.product(ops, repeat=ln):
                if hist[-1][0] == "seed":
                    continue
                ctx.case({"kind": kind, "hist": hist}, run, ctx, kind, hist)


def sec_sensitive(ctx):
    """Different seeds and different generators lead to different draws (none is ignored)."""
    for kind in kinds():
        ctx.case({"kind": kind}, _sensitive, ctx, kind)


def _sensitive(ctx, kind):
    make, reseed = kinds()[kind]
    n = 12
    outs = {}
    for s in (0, 1, 2):
        node = make(s)
        node.set_graph_positions()
        outs[("seed", s)] = draw(node, n)
    node = make(1)
    node.set_graph_positions()
    for s in (1, 2, 3):
        outs[("rng", s)] = draw(node, n, np.random.default_rng(1000 + s))
    a = make(None) if kind not in ("chain", "additive", "random") else None
    if a is not None:
        a.set_graph_positions()
        b = make(None)
        b.set_graph_positions()
        outs[("none", 1)], outs[("none", 2)] = draw(a, n), draw(b, n)
    keys = list(outs)
    for i, j in itertools.combinations(range(len(keys)), 2):
        x, y = outs[keys[i]], outs[keys[j]]
        varying = [k for k in x if np.asarray(x[k]).dtype != object and len(np.unique(np.asarray(x[k]))) > 1]
        ctx.check(
            any(not same(x[k], y[k]) for k in varying),
            lambda: f"{kind}: draws of {keys[i]} and {keys[j]} coincide",
        )
    ctx.state(kind)
    ctx.outcome("sensitive")


def sec_flow(ctx):
    """A wrapped flow is driven by the caller's generator, keeps rows aligned and n=1 bare."""
    from lightcurvelynx.astro_utils.pzflow_node import PZFlowNode

    for hist in itertools.product([1, 2, 4], ["own", 3, 4], repeat=2):

        def go(hist=hist):
            node = PZFlowNode(StubFlow(), node_label="f")
            for n, src in (hist[:2], hist[2:]):
                rng = None if src == "own" else np.random.default_rng(src)
                st = node.sample_parameters(num_samples=n, rng_info=rng)
                x, y = np.asarray(st["f.x"]), np.asarray(st["f.y"])
                ctx.eq(y, 2 * x, "row alignment")
                ctx.check(x.shape == (() if n == 1 else (n,)), f"shape {x.shape} for {n} samples")
                if rng is not None:
                    again = PZFlowNode(StubFlow(), node_label="f").sample_parameters(
                        num_samples=n, rng_info=np.random.default_rng(src)
                    )
                    ctx.eq(np.asarray(again["f.x"]), x, "same generator, same draw")
                ctx.state((n, src))
            ctx.outcome("flow")

        ctx.case({"hist": hist}, go)

    def many(n):
        first = [np.ravel(PZFlowNode(StubFlow(), node_label="f").sample_parameters(num_samples=n, rng_info=np.random.default_rng(s))["f.x"])[0] for s in range(400)]
        ctx.check(len(set(first)) == 400, f"only {len(set(first))} different draws from 400 generators")
        one = np.random.default_rng(7)
        node = PZFlowNode(StubFlow(), node_label="f")
        first = [np.ravel(node.sample_parameters(num_samples=n, rng_info=one)["f.x"])[0] for _ in range(400)]
        ctx.check(len(set(first)) == 400, f"only {len(set(first))} different draws in 400 draws from one generator")
        ctx.step(800)
        ctx.state(("many", n))
        ctx.outcome("flow")

    for n in (1, 3):
        ctx.case({"many": n}, many, n)


def sec_shapes(ctx):
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc

    for n in (1, 2, 3, 5):
        for size in (None, 1, 2, [2, 3], [1, 2]):
            for own in (True, False):
                for func, args in (("uniform", {"low": 2.0, "high": 3.0}), ("normal", {"loc": 5.0, "scale": 0.1})):

                    def go(n=n, size=size, own=own, func=func, args=args):
                        sz = tuple(size) if isinstance(size, list) else size
                        node = NumpyRandomFunc(func, size=sz, seed=3, node_label="r", **args)
                        st = node.sample_parameters(num_samples=n, rng_info=None if own else np.random.default_rng(1))
                        v = np.asarray(st["r.function_node_result"])
                        per = () if size in (None, 1) else ((size,) if isinstance(size, int) else tuple(size))
                        want = per if (n == 1 and not per) else (n, *per)
                        ctx.check(v.shape == want, f"shape {v.shape}, expected {want}")
                        ctx.check(len(np.unique(v)) == v.size, "draws are repeated")
                        if func == "uniform":
                            ctx.check(bool(np.all((v >= 2) & (v < 3))), "draw outside of [low, high)")
                        ctx.state((n, str(size), own, func))
                        ctx.outcome("shape")

                    ctx.case({"n": n, "size": size, "own": own, "func": func}, go)
    # Each sample's own parameters drive that sample's draw, whatever the shape of the draw.
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    for n in (1, 2, 3, 4):
        for size in (None, 2, 3, [2, 2], [3, 2]):

            def rows(n=n, size=size):
                sz = tuple(size) if isinstance(size, list) else size
                node = NumpyRandomFunc(
                    "normal", size=sz, seed=3, node_label="r", scale=1e-6, loc=GivenValueList([100.0 * i for i in range(n)])
                )
                v = np.asarray(node.sample_parameters(num_samples=n)["r.function_node_result"]).reshape(n, -1)
                for i in range(n):
                    ctx.check(bool(np.all(np.abs(v[i] - 100.0 * i) < 1e-3)), lambda: f"sample {i} drew {v[i]} around {100.0 * i}")
                ctx.state(("rows", n, str(size)))
                ctx.outcome("rows")

            ctx.case({"rows": n, "size": size}, rows)

    from lightcurvelynx.math_nodes.scipy_random import NumericalInversePolynomialFunc, SampleLogPDF, SamplePDF

    bad = {f"size {size}": lambda size=size: NumpyRandomFunc("uniform", size=size) for size in (0, -1, (2, 0), (-1, 2), [0])}
    bad |= {f"function {name}": lambda name=name: NumpyRandomFunc(name) for name in ("choice", "no_such", "Uniform", "")}
    bad |= {f"{cls.__name__} of {d!r}": lambda cls=cls, d=d: cls(d) for cls in (SamplePDF, SampleLogPDF) for d in (5, None, "pdf", [1.0])}
    bad |= {f"inverse of {d!r}": lambda d=d: NumericalInversePolynomialFunc(d) for d in (5, None, "pdf", np.sin)}
    for name, fn in bad.items():
        ctx.case({"bad": name}, ctx.raises, ValueError, fn, name)


def sec_processes(ctx):
    """The same in fresh processes, under every order in which Python may iterate over a set of the filters' names."""
    from mc import procs

    procs.check(ctx, "g05", ["g", "r", "i"], "a draw of a node with the same seed")


SECTIONS = [("processes", sec_processes), ("histories", sec_histories, 8), ("sensitive", sec_sensitive), ("flow", sec_flow), ("shapes", sec_shapes)]
