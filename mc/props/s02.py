"""S02: a simulation is a function of the model, the surveys and the generator; objects do not influence each other."""

import copy
import itertools

import numpy as np

from mc.core import canon

ID = "S02"
RULE = (
    "every sequence of up to the depth bound of simulations with a caller's generator, simulations from the model's own "
    "streams, plain draws, noise-free light curves and uses of numpy's global generator, for every model kind, each "
    "caller-generator simulation compared with a fresh model's; every ordered selection of objects compared with each "
    "object simulated alone; the same simulations in a fresh process for every order in which Python may iterate over the set "
    "of the filters' names; every evaluation and draw of every tree of noisy objects and effects, with and without a state and with "
    "uses before it, on two models with different seeds and equal generators; a state is (model kind, history), (model kind, "
    "objects), (tree, effect, call) or an iteration order"
)
ASSUMPTIONS = ["numpy generators created from equal seeds produce equal streams"]


def make(kind):
    from lightcurvelynx.effects.white_noise import WhiteNoise
    from lightcurvelynx.math_nodes.given_sampler import GivenValueSampler
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
    from lightcurvelynx.models.basic_models import ConstantSEDModel, SinWaveModel, StepModel
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

    ra = GivenValueSampler([10.0, 359.9, 200.0], seed=11)
    pos = {"ra": ra, "dec": NumpyRandomFunc("uniform", low=-5.2, high=-4.8, seed=12)}
    if kind in ("constant", "white", "white obs"):
        m = ConstantSEDModel(brightness=NumpyRandomFunc("uniform", low=100.0, high=900.0, seed=13), node_label="obj", **pos)
        if kind != "constant":
            m.add_effect(WhiteNoise(white_noise_sigma=NumpyRandomFunc("uniform", low=1.0, high=2.0, seed=14), rest_frame=kind == "white"))
    elif kind == "step":
        t0 = NumpyRandomFunc("uniform", low=85.0, high=95.0, seed=15)
        m = StepModel(brightness=500.0, t1=NumpyRandomFunc("uniform", low=96.0, high=115.0, seed=16), t0=t0, redshift=NumpyRandomFunc("uniform", low=0.1, high=0.5, seed=17), node_label="obj", **pos)
    elif kind in ("additive", "random"):
        a = ConstantSEDModel(brightness=NumpyRandomFunc("uniform", low=100.0, high=900.0, seed=13), node_label="a", **pos)
        b = SinWaveModel(amplitude=10.0, brightness=NumpyRandomFunc("normal", loc=50.0, scale=5.0, seed=18), frequency=0.1, t0=0.0, node_label="b", ra=a.ra, dec=a.dec)
        b.add_effect(WhiteNoise(white_noise_sigma=1.0))
        if kind == "additive":
            m = AdditiveMultiObjectModel([a, b], node_label="obj", ra=a.ra, dec=a.dec)
        else:
            m = RandomMultiObjectModel([a, b], seed=19, node_label="obj", ra=a.ra, dec=a.dec)
    return m


KINDS = ["constant", "white", "white obs", "step", "additive", "random"]


def simulate(model, n, rng, window=None):
    from lightcurvelynx.simulate import simulate_lightcurves
    from mc.props.s01 import group, survey

    res = simulate_lightcurves(model, n, [survey(0), survey(1)], [group(0), group(1)], rng=rng, obstable_save_cols=["extra"], time_window_offset=window)
    return flat(res)


def flat(res):
    out = []
    for i in range(len(res)):
        row = res.iloc[i]
        d = {c: row[c] for c in res.columns if c not in ("lightcurve",)}
        d["params"] = dict(d["params"])
        lc = row["lightcurve"]
        d["lc"] = [] if lc is None or len(lc) == 0 else [list(lc[c]) for c in sorted(lc.columns)]
        out.append(canon(d))
    return out


SIMS = ("sim7", "sim8", "sim9")  # three objects, two, one
OPS = [*SIMS, "own", "draw", "free", "global"]


def apply(op, model):
    from lightcurvelynx.simulate import compute_noise_free_lightcurves
    from mc.props.s01 import group

    if op == "sim7":
        return simulate(model, 3, np.random.default_rng(7))
    if op == "sim8":
        return simulate(model, 2, np.random.default_rng(8))
    if op == "sim9":
        return simulate(model, 1, np.random.default_rng(9))
    if op == "own":
        simulate(model, 2, None)
    elif op == "draw":
        model.sample_parameters(num_samples=2)
    elif op == "free":
        st = model.sample_parameters(num_samples=2, rng_info=np.random.default_rng(3))
        compute_noise_free_lightcurves(model, st, group(0), rest_frame_phase_min=0.0, rest_frame_phase_max=4.0)
    elif op == "global":
        np.random.seed(5)
        np.random.random(3)
    return None


def history(ctx, kind, ops, fresh):
    model = make(kind)
    np.random.seed(1)
    for k, op in enumerate(ops):
        before = repr(np.random.get_state())
        got = apply(op, model)
        ctx.step()
        if op != "global":
            ctx.check(repr(np.random.get_state()) == before, f"{kind}: {op} changed numpy's global generator")
        if got is not None:
            ctx.check(got == fresh[op], lambda: f"{kind}: after {ops[:k]} the simulation {op} differs from a fresh model's")
    ctx.state((kind, ops))
    ctx.outcome("history")


def sec_histories(ctx):
    for kind in KINDS:
        fresh = {op: apply(op, make(kind)) for op in SIMS}
        again = {op: apply(op, make(kind)) for op in SIMS}

        def base(fresh=fresh, again=again, kind=kind):
            ctx.check(fresh == again, f"{kind}: two fresh models give different simulations with equal generators")
            vals = {repr(r) for r in fresh["sim7"]}
            ctx.check(len(vals) == 3, f"{kind}: the three objects of a simulation are not distinct")
            ctx.check(fresh["sim7"][:2] != fresh["sim8"], f"{kind}: different generators give the same simulation")
            # the same model with its own streams: same seeds, same parameters
            a, b = make(kind).sample_parameters(num_samples=3), make(kind).sample_parameters(num_samples=3)
            if kind not in ("additive", "random"):
                ctx.check(a == b, f"{kind}: equal seeds draw different parameters")

        ctx.case({"kind": kind, "base": 1}, base)
        for d in range(1, ctx.pick(2, 4) + 1):
            for ops in itertools.product(OPS, repeat=d):
                if ops[-1] not in SIMS:
                    continue
                ctx.case({"kind": kind, "ops": list(ops)}, history, ctx, kind, list(ops), fresh)


def sec_objects(ctx):
    """Every ordered selection of objects: each object's noise-free result is that of the object alone."""
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from mc.props.s01 import SPOT, models

    Flux, Sed = models()
    pool = [("a", 3.0, 100.0, 0.0), ("b", 5.0, 95.0, 0.3), ("c", 2.0, 101.0, 1.0), ("x", 7.0, 99.0, 0.2), ("a", 4.0, 90.0, 0.7)]

    def build(sel):
        rows = [pool[i] for i in sel]
        return Sed(
            ra=GivenValueList([SPOT[r[0]][0] for r in rows]), dec=GivenValueList([SPOT[r[0]][1] for r in rows]),
            b=GivenValueList([r[1] for r in rows]), t0=GivenValueList([r[2] for r in rows]), redshift=GivenValueList([r[3] for r in rows]),
            node_label="obj",
        )  # fmt: skip

    def clean(res):
        from lightcurvelynx.simulate import simulate_lightcurves  # noqa: F401

        out = []
        for i in range(len(res)):
            lc = res["lightcurve"].iloc[i]
            empty = lc is None or len(lc) == 0
            out.append(
                canon(
                    {
                        "pos": [res[c].iloc[i] for c in ("ra", "dec", "t0", "z", "nobs")],
                        "params": dict(res["params"].iloc[i]),
                        "lc": [] if empty else sorted(zip(*[list(lc[c]) for c in ("mjd", "survey_idx", "filter", "flux_perfect", "fluxerr")])),
                    }
                )
            )
        return out

    def sim(sel, window):
        from lightcurvelynx.simulate import simulate_lightcurves
        from mc.props.s01 import group, survey

        return clean(simulate_lightcurves(build(sel), len(sel), [survey(0), survey(1)], [group(0), group(1)], time_window_offset=window, rng=np.random.default_rng(1)))

    for window in (None, (6.0, 6.0)):
        alone = {i: sim((i,), window)[0] for i in range(len(pool))}
        for n in range(2, ctx.pick(3, 5) + 1):
            for sel in itertools.permutations(range(len(pool)), n):

                def go(sel=sel, window=window, alone=alone):
                    got = sim(sel, window)
                    ctx.step(len(sel))
                    for k, i in enumerate(sel):
                        ctx.check(got[k] == alone[i], lambda: f"object {i} simulated in {sel} (window {window}): {got[k]}, alone: {alone[i]}")
                    ctx.state((sel, window))
                    ctx.outcome("objects")

                ctx.case({"objects": list(sel), "window": window}, go)


def sec_processes(ctx):
    """The same in fresh processes, under every order in which Python may iterate over a set of the filters' names."""
    from mc import procs

    procs.check(ctx, "s02", ["g", "r", "infra"], "a simulation")


# ---------------------------------------------------------------------- evaluations
def noisy_classes():
    from lightcurvelynx.effects.effect_model import EffectModel
    from lightcurvelynx.models.physical_model import BandfluxModel, SEDModel

    def gen(rng):
        return rng if rng is not None else np.random.default_rng()

    class NoisySED(SEDModel):
        def __init__(self, amp, **kw):
            super().__init__(**kw)
            self.add_parameter("amp", amp)

        def compute_sed(self, times, wavelengths, graph_state, **kw):
            return self.get_param(graph_state, "amp") + np.zeros((len(times), len(wavelengths)))

    class NoisyBand(BandfluxModel):
        def __init__(self, amp, **kw):
            super().__init__(**kw)
            self.add_parameter("amp", amp)

        def compute_bandflux(self, times, filters, state, rng_info=None):
            return self.get_param(state, "amp") + gen(rng_info).random(len(times))

    class NoisyEffect(EffectModel):
        def __init__(self, scale, **kw):
            super().__init__(**kw)
            self.add_effect_parameter("scale", scale)

        def apply(self, flux_density, times=None, wavelengths=None, scale=None, rng_info=None, **kw):
            return flux_density + scale * gen(rng_info).random(flux_density.shape)

        def apply_bandflux(self, bandfluxes, *, times=None, filters=None, scale=None, rng_info=None, **kw):
            return bandfluxes + scale * gen(rng_info).random(len(bandfluxes))

    return NoisySED, NoisyBand, NoisyEffect


# A tree: a leaf ("s": SED, "b": band flux) or ["sum" | "rand", [trees]].
TREES = ["s", "b"] + [[k, list(c)] for k in ("sum", "rand") for c in itertools.product("sb", repeat=2)]
TREES += [[k, [[j, list(c)], "s"]] for k in ("sum", "rand") for j in ("sum", "rand") for c in ("sb", "bs", "ss")]


def make_tree(spec, seeds, at):
    """The model of a tree; at is the path of the node that gets the effect (None: no effect)."""
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

    NoisySED, NoisyBand, NoisyEffect = noisy_classes()

    def build(spec, path):
        if isinstance(spec, str):
            m = (NoisySED if spec == "s" else NoisyBand)(NumpyRandomFunc("uniform", low=10.0, high=20.0, seed=next(seeds)), node_label=f"o{path}")
        else:
            cls = AdditiveMultiObjectModel if spec[0] == "sum" else RandomMultiObjectModel
            kw = {} if spec[0] == "sum" else {"seed": next(seeds)}
            m = cls([build(x, f"{path}{i}") for i, x in enumerate(spec[1])], node_label=f"m{path}", **kw)
        if at is not None and path == at[0]:
            m.add_effect(NoisyEffect(NumpyRandomFunc("uniform", low=1.0, high=2.0, seed=next(seeds)), rest_frame=at[1]))
        return m

    return build(spec, "r")


def tree_paths(spec, path="r"):
    return [path] + ([] if isinstance(spec, str) else [p for i, x in enumerate(spec[1]) for p in tree_paths(x, f"{path}{i}")])


def has_band(spec):
    return spec == "b" or (not isinstance(spec, str) and any(has_band(x) for x in spec[1]))


def sec_evaluations(ctx):
    """Every way of evaluating a model with the caller's generator, in every frame, object and effect, uses that generator alone."""
    from mc.props.s01 import group

    times, waves, filters = np.array([1.0, 2.0, 3.0]), np.array([4000.0, 5000.0]), ["g", "r", "g"]

    def calls(m, kind, n, state, rng):
        if kind == "sed":
            return m.evaluate_sed(times, waves, state, rng_info=rng)
        if kind == "band":
            return m.evaluate_bandfluxes(group(0), times, filters, state, rng_info=rng)
        if kind == "one band":
            return m.evaluate_bandfluxes(next(iter(group(0).passbands.values())), times, None, state, rng_info=rng)
        st = m.sample_parameters(num_samples=n, rng_info=rng)
        return [st[x][y] for x in sorted(st.states) for y in sorted(st[x])]

    def go(spec, at, kind, n, noise):
        got = []
        for k, first in enumerate((0, 100)):
            m = make_tree(spec, itertools.count(first), at)
            if k and noise:
                m.sample_parameters(num_samples=2)
                m.evaluate_bandfluxes(group(0), times, filters, None)
            state = None if n is None else m.sample_parameters(num_samples=n, rng_info=np.random.default_rng(5))
            before = repr(np.random.get_state())
            rng = np.random.default_rng(9)
            out = [calls(m, kind, n or 1, state, rng) for _ in range(2)]
            ctx.check(repr(np.random.get_state()) == before, f"{spec} {kind}: numpy's global generator was used")
            got.append((canon(out), canon(rng.random())))
            if kind != "draw" and at is not None and at[0] == "r":
                ctx.check(canon(out[0]) != canon(out[1]), f"{spec} {kind}: two evaluations with one generator are equal")
        ctx.check(got[0] == got[1], f"{spec} effect at {at} {kind} n={n}: differs between two models given equal generators")
        ctx.step(4)
        ctx.state((spec, at, kind, n, noise))
        ctx.outcome(kind)

    for spec in TREES:
        ats = [None] + [(p, rest) for p in tree_paths(spec) for rest in (True, False)]
        kinds = ["band", "one band", "draw"] + ([] if has_band(spec) else ["sed"])
        for at, kind, n, noise in itertools.product(ats, kinds, (None, 1, 2), (False, True)):
            if kind == "one band" and has_band(spec):
                continue
            ctx.case([spec, at, kind, n, noise], go, spec, at, kind, n, noise)


SECTIONS = [("processes", sec_processes), ("histories", sec_histories, 8), ("objects", sec_objects, 8), ("evaluations", sec_evaluations, 4)]
