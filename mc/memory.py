"""Histories of questions and edits put to one object: no earlier question may change a later answer.

A subject is an object, a menu of questions (same shapes, other contents) and a menu of edits.  Every sequence of menu entries
up to the depth is carried out on one object; its last answer must be the one that a fresh object gives which saw the edits only.
"""

import itertools

import numpy as np
import pandas as pd

from mc.core import same

TIMES = [[10.0, 12.0, 13.0, 20.0], [10.0, 14.5, 17.0, 20.0]]
WAVES = [[3300.0, 4100.0, 4700.0, 7000.0], [3300.0, 5200.0, 6400.0, 7000.0]]


def intact(fn, *args, **kw):
    """fn(*args), which must leave its arguments as they were."""
    arrays = [np.asarray(a) if not isinstance(a, np.ndarray) else a for a in args]
    before = [a.copy() for a in arrays]
    out = fn(*args, **kw)
    for a, b in zip(arrays, before):
        if not np.array_equal(a, b):
            raise AssertionError(f"an argument was changed from {b} to {a}")
    return out


def unchanged(fn, state, *args, **kw):
    """fn(*args, state), which must leave the state and the arrays as they were."""
    before = state.to_dict()
    before = {k: np.array(v) for k, v in before.items()}
    out = intact(lambda *a: fn(*a, state, **kw), *args)
    after = state.to_dict()
    if list(before) != list(after) or not all(same(before[k], np.array(after[k]), 0.0, 0.0) for k in before):
        raise AssertionError(f"the state was changed from {before} to {after}")
    return out


def explore(ctx, name, build, asks, edits=(), depth=None, rtol=1e-12):
    """asks, edits: lists of (label, function of the object)."""
    ops = [(lab, fn, True) for lab, fn in asks] + [(lab, fn, False) for lab, fn in edits]
    depth = depth or ctx.pick(2 if len(ops) > 14 else 3, 3 if len(ops) > 14 else 4)
    fresh = {}

    def go(seq):
        kept = tuple(k for k in seq[:-1] if not ops[k][2])
        key = (kept, seq[-1])
        if key not in fresh:
            obj = build()
            for k in kept:
                ops[k][1](obj)
            fresh[key] = ops[seq[-1]][1](obj)
        obj = build()
        for k in seq[:-1]:
            ops[k][1](obj)
        got = ops[seq[-1]][1](obj)
        ctx.step()
        ctx.check(
            same(got, fresh[key], rtol, 0.0),
            lambda: f"{name}: after {[ops[k][0] for k in seq[:-1]]}, {ops[seq[-1]][0]} gave {got}, a fresh object gives {fresh[key]}",
        )
        ctx.state((name, key))

    n = len(ops)
    for d in range(2, depth + 1):
        for seq in itertools.product(range(n), repeat=d):
            if not ops[seq[-1]][2] or not any(ops[k][2] for k in seq[:-1]):
                continue
            ctx.case([name, list(seq)], go, seq)
    ctx.outcome(name)


# ---------------------------------------------------------------------- models
def model_parts(make, ask):
    """ask: list of (label, function of (model, state)).  make(value) builds the model; value(a, b) is a parameter of sample 0 and 1."""
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    def sampled(seed):
        m = make(lambda a, b: GivenValueList([a, b]))
        both = m.sample_parameters(num_samples=2, rng_info=np.random.default_rng(seed))
        return m, both, [both.extract_single_sample(k) for k in range(2)]

    def differ(own):
        """Random selections should not be the same in both samples."""
        return all(own[0].states[n][p] != own[1].states[n][p] for n in own[0].states for p in own[0].states[n] if p.startswith("selected"))

    seed = next(s for s in range(100) if differ(sampled(s)[2]))

    def build():
        m, both, own = sampled(seed)
        return {"m": m, "own": own, "both": both, "shared": own[0].copy()}

    def put(box, k):
        for node, values in box["own"][k].states.items():
            for var, v in values.items():
                box["shared"].set(node, var, v)

    asks = []
    for lab, fn in ask:
        for k in range(2):
            asks.append((f"{lab} of state {k}", lambda box, fn=fn, k=k: np.array(fn(box["m"], box["own"][k]))))
        asks.append((f"{lab} of the edited state", lambda box, fn=fn: np.array(fn(box["m"], box["shared"]))))
    asks.append((f"{ask[0][0]} of both states", lambda box, fn=ask[0][1]: np.array(fn(box["m"], box["both"]))))
    edits = [(f"the state gets the values of state {k}", lambda box, k=k: put(box, k)) for k in range(2)]
    return build, asks, edits


def rng():
    return np.random.default_rng(11)


def sed_asks(combos=((0, 0), (1, 1), (0, 1)), **kw):
    def ask(m, s, i, j):
        if not hasattr(m, "evaluate_sed"):
            return [unchanged(m.compute_sed, x, np.array(TIMES[i]), np.array(WAVES[j])) for x in s]
        return unchanged(m.evaluate_sed, s, np.array(TIMES[i]), np.array(WAVES[j]), rng_info=rng(), **kw)

    return [(f"SED at times {i} and wavelengths {j}", lambda m, s, i=i, j=j: ask(m, s, i, j)) for i, j in combos]


BAND = {
    0: {"g": [[3500.0, 0.3], [4500.0, 1.0]], "r": [[4400.0, 0.7], [6000.0, 0.2]]},
    1: {"g": [[3400.0, 1.0], [4700.0, 0.1]], "r": [[4300.0, 0.2], [6400.0, 0.9]]},
}


def group(k):
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    return PassbandGroup([Passband(np.array(t), "S", f, delta_wave=100.0, trim_quantile=None) for f, t in BAND[k].items()])


def band_asks(combos=((0, 0, "grgr"), (1, 1, "grgr"), (0, 0, "rrgg"))):
    pbs = [group(0), group(1)]
    return [
        (f"bands {f} of passbands {k} at times {i}", lambda m, s, k=k, i=i, f=f: unchanged(lambda *a, **b: m.evaluate_bandfluxes(pbs[k], *a, **b), s, np.array(TIMES[i]), np.array(list(f)), rng_info=rng()))
        for k, i, f in combos
    ]


def curves():
    return {"g": np.array([[0.0, 10.0], [4.0, 30.0], [12.0, 20.0]]), "r": np.array([[0.0, 7.0], [6.0, 1.0], [11.0, 9.0]])}


def analytic_models(ctx):
    """Closed formulas: M05."""
    from lightcurvelynx.models.basic_models import LinearWavelengthModel, SinWaveModel, StepModel
    from lightcurvelynx.models.galaxy_models import GaussianGalaxy
    from lightcurvelynx.models.periodic_model import PeriodicModel
    from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar
    from lightcurvelynx.models.spline_model import SplineModel
    from lightcurvelynx.models.static_sed_model import StaticBandfluxModel, StaticSEDModel

    class ByPhase(PeriodicModel):
        def _evaluate_phases(self, phases, wavelengths, graph_state, **kwargs):
            return phases[:, None] * 10 + wavelengths[None, :] * 1e-3

    seds = [np.array([[3000.0, 5000.0, 8000.0], [a, b, c]]) for a, b, c in ((1.0, 5.0, 2.0), (9.0, 4.0, 7.0))]
    grid = np.add.outer(np.arange(9.0) ** 2, np.arange(6.0) * 3.0)
    base = {"node_label": "m"}
    yield "linear", lambda v: LinearWavelengthModel(v(1.0, 3.0), 1e-3, min_wave=3400.0, t0=v(1.0, 2.0), redshift=v(0.1, 0.4), **base), sed_asks()
    yield "sine", lambda v: SinWaveModel(brightness=v(1.0, 3.0), amplitude=v(2.0, 1.5), frequency=v(0.3, 0.7), t0=v(1.0, 2.0), **base), sed_asks()
    yield "step", lambda v: StepModel(v(1.0, 3.0), v(18.0, 15.0), t0=v(11.0, 13.5), **base), sed_asks()
    yield "periodic", lambda v: ByPhase(v(3.0, 7.0), t0=v(1.0, 2.5), **base), sed_asks()
    yield "spline", lambda v: SplineModel(np.linspace(0, 40, 9), np.linspace(3000, 8000, 6), grid, amplitude=v(1.0, 2.0), **base), sed_asks()
    yield "static", lambda v: StaticSEDModel(seds, weights=None, **base), sed_asks()
    yield "static bands", lambda v: StaticBandfluxModel([{"g": 1.0, "r": 2.0}, {"g": 30.0, "r": 50.0}], **base), band_asks()
    yield "galaxy", lambda v: GaussianGalaxy(v(1.0, 5.0), v(0.1, 0.2), ra=v(10.0, 10.1), dec=0.0, **base), sed_asks() + sed_asks(((0, 0),), ra=10.05, dec=0.02)
    yield (
        "binary",
        lambda v: EclipsingBinaryStar(
            period=v(4.0, 7.0), t0=v(1.0, 2.0), distance=10.0, major_semiaxis=v(5.0e11, 6.0e11), inclination=90.0, primary_radius=v(2.0e11, 1.9e11),
            secondary_radius=1.5e11, primary_temperature=v(6000.0, 5000.0), secondary_temperature=4000.0, **base,
        ),
        sed_asks(),
    )  # fmt: skip


def template_models(ctx):
    """Light-curve templates: M04."""
    from lightcurvelynx.models.lightcurve_template_model import LightcurveTemplateModel, MultiLightcurveTemplateModel, LightcurveData

    base = {"node_label": "m"}
    yield "template", lambda v: LightcurveTemplateModel(curves(), group(0), 0.0, t0=v(8.0, 9.5), **base), sed_asks() + band_asks(((0, 0, "grgr"), (1, 1, "grgr"), (0, 0, "rrgg")))
    two = lambda: [LightcurveData(curves(), 0.0), LightcurveData({f: c * [1, 3] for f, c in curves().items()}, 1.0)]  # noqa: E731
    yield "templates", lambda v: MultiLightcurveTemplateModel(two(), group(0), t0=v(8.0, 9.5), **base), sed_asks() + band_asks()


def physical_models(ctx):
    """Redshift, effects, extrapolation: M01 and E01."""
    from lightcurvelynx.effects.basic_effects import ConstantDimming
    from lightcurvelynx.effects.extinction import ExtinctionEffect
    from lightcurvelynx.effects.microlensing import Microlensing
    from lightcurvelynx.effects.white_noise import WhiteNoise
    from lightcurvelynx.models.basic_models import LinearWavelengthModel, SinWaveModel
    from lightcurvelynx.models.spline_model import SplineModel
    from lightcurvelynx.utils.wave_extrapolate import ExponentialDecay, LinearDecay

    base = {"node_label": "m"}

    def one(eff, **kw):
        def make(v):
            m = LinearWavelengthModel(v(1.0, 3.0), 1e-3, t0=v(1.0, 2.0), redshift=v(0.1, 0.4), **base, **kw)
            m.add_effect(eff(v))
            return m

        return make

    # Values given by nodes that effects share would be sampled twice, so every node belongs to one parameter.
    yield "dimming", one(lambda v: ConstantDimming(v(0.5, 0.25))), sed_asks() + band_asks(((0, 0, "grgr"),))
    yield "extinction", one(lambda v: ExtinctionEffect("CCM89", ebv=v(0.1, 0.3), Rv=3.1, frame="observer")), sed_asks()
    yield "rest extinction", one(lambda v: ExtinctionEffect("G23", ebv=0.2, Rv=3.1, frame="rest")), sed_asks()
    yield "noise", one(lambda v: WhiteNoise(v(0.5, 0.25))), sed_asks()
    yield "microlensing", one(lambda v: Microlensing(v(12.0, 15.0), v(0.1, 0.5), 20.0)), sed_asks()

    def curved(v, extrapolation):
        grid = np.add.outer(np.arange(9.0) ** 2, np.arange(6.0) * 3.0)
        return SplineModel(np.linspace(0, 40, 9), np.linspace(4000, 6000, 6), grid, amplitude=v(1.0, 2.0), redshift=v(0.1, 0.4), t0=v(1.0, 2.0), wave_extrapolation=extrapolation, **base)

    for rule in (ExponentialDecay(300.0), LinearDecay(400.0)):
        yield f"beyond the ends, {type(rule).__name__}", lambda v, rule=rule: curved(v, rule), sed_asks() + band_asks(((0, 0, "grgr"), (1, 1, "grgr")))


def band_models(ctx):
    """Band fluxes through several passband groups: M02."""
    from lightcurvelynx.models.basic_models import LinearWavelengthModel

    base = {"node_label": "m"}
    asks = band_asks(((0, 0, "grgr"), (1, 0, "grgr"), (0, 1, "grgr"), (0, 0, "rgrg"), (1, 1, "rrgg")))
    yield "bands of an SED", lambda v: LinearWavelengthModel(v(1.0, 3.0), 1e-3, t0=v(1.0, 2.0), redshift=v(0.1, 0.4), **base), asks


def multi_models(ctx):
    """Sums and random choices: M03."""
    from lightcurvelynx.effects.basic_effects import ConstantDimming
    from lightcurvelynx.models.basic_models import LinearWavelengthModel, SinWaveModel
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

    def kids(v):
        return [
            LinearWavelengthModel(v(1.0, 3.0), 1e-3, t0=1.0, redshift=0.2, node_label="a"),
            SinWaveModel(brightness=v(7.0, 5.0), amplitude=2.0, frequency=0.3, t0=2.0, redshift=v(0.5, 0.1), node_label="b"),
        ]

    def effects(m, v):
        m.add_effect(ConstantDimming(v(0.5, 0.25)))
        return m

    yield "sum", lambda v: effects(AdditiveMultiObjectModel(kids(v), node_label="m"), v), sed_asks(((0, 0), (1, 1))) + band_asks(((0, 0, "grgr"), (1, 1, "grgr"), (0, 0, "rrgg")))
    yield "choice", lambda v: effects(RandomMultiObjectModel(kids(v), node_label="m"), v), sed_asks(((0, 0), (1, 1))) + band_asks(((0, 0, "grgr"), (1, 1, "grgr")))


def supernovae(ctx):
    """Template supernovae: M07."""
    import sncosmo
    from lightcurvelynx.models.bayesn import BayesnModel
    from lightcurvelynx.models.salt2_jax import SALT2JaxModel
    from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel
    from mc.props import m07

    d, b = m07.salt_dir(), m07.bayes_dir()
    sncosmo.register(sncosmo.SALT2Source(modeldir=str(d)), name="mc-salt2", force=True)
    m07.register()
    base = {"node_label": "m"}
    salt = lambda v: {"x0": v(0.1, 0.3), "x1": v(1.0, -1.0), "c": v(0.1, -0.2), "t0": v(8.0, 11.0), "redshift": v(0.1, 0.3), **base}  # noqa: E731
    yield "SALT2", lambda v: SALT2JaxModel(model_dir=d, **salt(v)), sed_asks()
    yield "sncosmo", lambda v: SncosmoWrapperModel("mc-salt2", **salt(v)), sed_asks(((0, 0), (1, 1)))
    yield "sncosmo series", lambda v: SncosmoWrapperModel("mc-poly", amplitude=v(2.0, 3.0), t0=v(5.0, 6.0), redshift=v(0.5, 0.1), **base), sed_asks(((0, 0), (1, 1)))
    yield (
        "BayeSN",
        lambda v: BayesnModel(_M20_model_path=b, hsiao_model_path=b / "hsiao.h5", theta=v(0.0, 0.5), Av=v(0.1, 0.6), Rv=v(2.0, 3.1), Amplitude=v(1.0, 2.0), redshift=v(0.1, 0.3), t0=v(8.0, 11.0), **base),
        sed_asks(),
    )


def agn_models(ctx):
    """Active galaxies: M06."""
    from lightcurvelynx.models.agn import AGN

    def make(v):
        m = AGN(t0=v(0.0, 1.0), blackhole_mass=v(1e9, 1e7), edd_ratio=v(0.9, 0.1), distance=v(1e9, 1e7), redshift=v(0.1, 0.4), node_label="m", seed=7)
        m.set_parameter("inclination_rad", 0.5)
        return m

    yield "AGN", make, sed_asks()


def sec_models(which):
    def sec(ctx):
        for name, make, ask in which(ctx):
            explore(ctx, name, *model_parts(make, ask))

    return sec


# ---------------------------------------------------------------------- passbands
def sec_passbands(ctx):
    """Band fluxes, before and after the tables are processed anew (P01, P02)."""
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    def build():
        return group(0)

    def flux(g, seed):
        return np.random.default_rng(seed).uniform(1.0, 2.0, (3, len(g.waves)))

    asks = [("wavelengths", lambda g: (np.array(g.waves), g.wave_bounds(), list(g.filters)))]
    for seed in (1, 2):
        for f in "gr":
            asks.append((f"flux {seed} in {f}", lambda g, seed=seed, f=f: intact(lambda x: g.fluxes_to_bandflux(x, f), flux(g, seed))))
        asks.append((f"flux {seed} in all", lambda g, seed=seed: intact(g.fluxes_to_bandfluxes, flux(g, seed))))
    one = lambda g: g["g"]  # noqa: E731
    asks.append(("own band", lambda g: intact(one(g).fluxes_to_bandflux, np.random.default_rng(3).uniform(1.0, 2.0, (2, len(one(g).waves))))))

    def again(delta, trim):
        return lambda g: g.process_transmission_tables(delta_wave=delta, trim_quantile=trim)

    def add(g):
        if "S_i" not in g.filters:
            g.add_passband(Passband(np.array([[6000.0, 0.5], [6600.0, 0.9]]), "S", "i", delta_wave=100.0, trim_quantile=None))

    edits = [("process 50", again(50.0, None)), ("process 100 trimmed", again(100.0, 0.05)), ("one more band", add)]
    explore(ctx, "passbands", build, asks, edits, depth=ctx.pick(3, 4))


# ---------------------------------------------------------------------- observation tables
DATA = {
    "ra": [10.0, 10.2, 40.0, 10.1, 40.1],
    "dec": [-5.0, -5.1, 20.0, -5.2, 20.2],
    "time": [60000.0, 60001.0, 60002.5, 60004.0, 60005.5],
    "filter": ["g", "r", "g", "r", "g"],
}


def table_asks():
    def search(t, **kw):
        r = t.range_search(10.1, -5.1, **kw)
        return sorted(int(x) for x in r)

    return [
        ("bounds", lambda t: tuple(float(x) for x in t.time_bounds())),
        ("search", lambda t: search(t, radius=0.5)),
        ("narrow search", lambda t: search(t, radius=0.12)),
        ("search in time", lambda t: search(t, radius=0.5, t_min=60000.5, t_max=60004.5)),
        ("own radius", lambda t: search(t)),
        ("observed", lambda t: intact(lambda a, d, m: t.is_observed(a, d, radius=0.5, t_min=m), np.array([10.1, 40.0, 80.0]), np.array([-5.1, 20.0, 0.0]), np.array([60000.5, 0.0, 1.0]))),
        ("searches", lambda t: [sorted(int(x) for x in r) for r in intact(lambda a, d, r, m: t.range_search(a, d, radius=r, t_max=m), np.array([40.1, 10.1]), np.array([20.1, -5.1]), np.array([1.0, 0.15]), np.array([60003.0, 60009.0]))]),
        ("observations", lambda t: {k: list(v) for k, v in t.get_observations(40.0, 20.0, radius=0.5, cols=["time", "filter"]).items()}),
        ("filters", lambda t: ([str(f) for f in t.get_filters()] if hasattr(t, "get_filters") else [str(f) for f in t.filters], len(t))),
    ]


def overwrite(col, values):
    def do(t):
        n = len(t)
        t.add_column(col, list(values)[:n], overwrite=True)

    return do


def sec_tables(ctx):
    """Queries of an observation table (O01)."""
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
    from lightcurvelynx.obstable.obs_table import ObsTable

    def radius(r):
        def do(t):
            t.radius = r

        return do

    edits = [
        ("new times", overwrite("time", [60007.0, 60003.0, 60002.0, 60000.6, 60009.0])),
        ("new positions", overwrite("ra", [40.0, 40.1, 10.1, 40.2, 10.15])),
        ("new declinations", overwrite("dec", [20.0, -5.1, -5.15, 20.1, -5.0])),
        ("new filters", overwrite("filter", ["z", "z", "r", "y", "r"])),
        ("radius 1", radius(1.0)),
        ("radius 0.05", radius(0.05)),
        ("drop a row", lambda t: t.filter_rows(np.arange(len(t)) != 1)),
    ]

    def build():
        return ObsTable(pd.DataFrame(DATA), radius=0.3)

    explore(ctx, "table", build, table_asks(), edits, depth=3)


def sec_errors(ctx):
    """Flux errors of the survey tables (O04)."""
    from mc.props.o04 import OPS, ZTF
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
    from lightcurvelynx.obstable.opsim import OpSim
    from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

    rows = [[0, 1], [2, 1], [1, 0], [2, 0]]
    asks = [(f"errors of {r} for {f}", lambda t, r=r, f=f: np.array(intact(t.bandflux_error_point_source, np.array(f), np.array(r)), dtype=float)) for r in rows for f in ([10.0, 200.0], [200.0, 10.0])]
    asks.append(("zero points", lambda t: np.array(t["zp"], dtype=float)[:3]))

    def value(k, v):
        def do(t):
            t.survey_values[k] = v

        return do

    def scaled(col, by):
        def do(t):
            col_ = np.array(t[col], dtype=float)
            t.add_column(col, col_ * by if np.isscalar(by) else col_ * np.array(by)[: len(col_)], overwrite=True)

        return do

    drop = ("drop a row", lambda t: t.filter_rows(np.arange(len(t)) != 1))
    bend = [1.5, 0.5, 2.0, 3.0, 0.25]
    explore(
        ctx, "OpSim", lambda: OpSim(pd.DataFrame(OPS)), asks,
        [("pixel scale", value("pixel_scale", 0.4)), ("read noise", value("read_noise", 30.0)), ("dark current", value("dark_current", 5.0)), ("seeing", scaled("seeing", bend)), ("sky", scaled("skybrightness", 1.01)), ("zp", scaled("zp", bend)), drop],
        depth=3,
    )  # fmt: skip
    explore(
        ctx, "ZTF", lambda: ZTFObsTable(pd.DataFrame(ZTF)), asks,
        [("gain", value("gain", 2.0)), ("read noise", value("read_noise", 30.0)), ("dark current", value("dark_current", 5.0)), ("fwhm", scaled("fwhm", bend)), ("sky", scaled("sky", bend)), ("zp", scaled("zp", bend)), drop],
        depth=3,
    )  # fmt: skip
    fake = lambda: FakeObsTable(pd.DataFrame(DATA), zp_per_band={"g": 1.0, "r": 2.0}, fwhm_px=2.0, sky=10.0, read_noise=3.0, dark_current=0.5, exptime=30.0, nexposure=1)  # noqa: E731
    explore(
        ctx, "fake survey", fake, asks,
        [("read noise", value("read_noise", 30.0)), ("dark current", value("dark_current", 5.0)), ("exptime", scaled("exptime", bend)), ("sky", scaled("sky", bend)), ("zp", scaled("zp", bend)), drop],
        depth=3,
    )  # fmt: skip


# ---------------------------------------------------------------------- footprints
def sec_footprints(ctx):
    """Detector footprints (D01)."""
    from mc.props.d01 import make

    asks = []
    for cra, cdec, rot in ((10.0, -30.0, 0.0), (10.0, -30.0, 90.0), (10.5, -30.0, 90.0), (10.0, 60.0, None), (10.0, -30.4, 30.0)):
        for pts in ([(10.3, -30.2), (10.7, -30.45), (9.2, -29.9)], [(10.3, -29.8), (10.0, -30.9), (9.2, -29.9)]):
            p = np.array([[a, b - (0 if cdec < 0 else -90.0)] for a, b in pts])
            asks.append((f"{pts} around {cra}, {cdec}, {rot}", lambda fp, p=p, c=(cra, cdec), rot=rot: np.array(intact(lambda a, d: fp.contains(a, d, *c, rotation=rot), p[:, 0].copy(), p[:, 1].copy()))))
    for shape in ("rect", "ell"):
        explore(ctx, f"footprint {shape}", lambda shape=shape: make(shape, 36.0, "scale"), asks, depth=ctx.pick(2, 3))


# ---------------------------------------------------------------------- simulation
def sec_simulate(ctx):
    """Light curves of one model, seen by several surveys and passband groups (S01)."""
    from lightcurvelynx.models.basic_models import LinearWavelengthModel
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
    from lightcurvelynx.simulate import simulate_lightcurves

    def build():
        def survey(k):
            d = {**DATA, "time": [t + 3.25 * k * (i + 1) for i, t in enumerate(DATA["time"])], "filter": DATA["filter"] if not k else ["r", "g", "r", "g", "r"]}
            return FakeObsTable(pd.DataFrame(d), zp_per_band={"g": 1.0 + k, "r": 2.0 - k / 2}, fwhm_px=2.0, sky=10.0, exptime=30.0, nexposure=1, read_noise=3.0, dark_current=0.5, radius=1.0 + 60 * k)

        return {
            "m": LinearWavelengthModel(5.0, 1e-3, t0=60000.0, redshift=0.2, ra=10.1, dec=-5.1, node_label="m"),
            "survey": [survey(0), survey(1)],
            "pb": [group(0), group(1)],
        }

    def ask(n, s, p):
        def do(box):
            res = simulate_lightcurves(box["m"], n, box["survey"][s], box["pb"][p], rng=np.random.default_rng(3))
            out = []
            for i in range(len(res)):
                lc = res["lightcurve"].iloc[i]
                out.append({c: [str(x) for x in lc[c]] if lc[c].dtype.kind in "OUST" else np.array(lc[c], dtype=float) for c in lc.columns})
            return out

        return do

    asks = [(f"{n} objects, survey {s}, passbands {p}", ask(n, s, p)) for n in (1, 2) for s in (0, 1) for p in (0, 1)]
    edits = [
        ("survey 0 loses a row", lambda box: box["survey"][0].filter_rows(np.arange(len(box["survey"][0])) != 1)),
        ("survey 0 has other zero points", lambda box: box["survey"][0].add_column("zp", np.array(box["survey"][0]["zp"]) * 3.0, overwrite=True)),
        ("survey 1 has a smaller radius", lambda box: setattr(box["survey"][1], "radius", 2.0)),
        ("passbands 1 are processed anew", lambda box: box["pb"][1].process_transmission_tables(delta_wave=40.0, trim_quantile=0.05)),
    ]
    explore(ctx, "simulation", build, asks, edits, depth=3)


# ---------------------------------------------------------------------- interpolators
def sec_interpolators(ctx):
    """Bicubic grids, color laws, light-curve data and extrapolation, queried with equally long lists."""
    from lightcurvelynx.astro_utils.salt2_color_law import SALT2ColorLaw
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData
    from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator
    from lightcurvelynx.utils.wave_extrapolate import ConstantExtrapolation, ExponentialDecay, LastValueExtrapolation, LinearDecay

    xs, ys = np.arange(6.0), np.array([1.0, 2.0, 4.0, 5.0, 9.0])
    grid = np.cos(np.add.outer(xs**1.5, ys**2))
    qx = [[0.5, 1.25, 2.0, 4.5], [0.5, 3.25, 2.75, 4.5], [4.5, 2.0, 1.25, 0.5]]
    qy = [[1.5, 3.0, 8.0], [1.5, 4.5, 8.0], [8.0, 3.0, 1.5]]
    asks = [(f"{a} x {b}", lambda f, a=a, b=b: np.array(intact(f, np.array(qx[a]), np.array(qy[b])))) for a in range(3) for b in range(3)]
    explore(ctx, "bicubic", lambda: BicubicInterpolator(xs, ys, grid), asks, depth=ctx.pick(2, 3), rtol=1e-6)
    asks = [(str(w), lambda f, w=w: np.array(intact(f.apply, np.array(w)))) for w in WAVES + [WAVES[0][::-1], [2000.0, 3000.0, 4000.0, 9900.0]]]
    explore(ctx, "color law", lambda: SALT2ColorLaw(2800.0, 7000.0, [-0.5, 0.8, -0.46, 0.08]), asks, rtol=1e-6)
    for periodic in (False, True):
        def data(periodic=periodic):
            c = curves()
            if periodic:
                c = {f: np.array([[0.0, v[0, 1]], [5.0, v[1, 1]], [9.0, v[2, 1]], [15.0, v[0, 1]]]) for f, v in c.items()}
            return LightcurveData(c, 0.0 if periodic else 2.0, periodic=periodic, baseline={"g": 3.0, "r": 4.0} if not periodic else None)

        ts = [[1.0, 3.0, 5.0, 40.0], [1.0, 7.5, 8.0, 40.0], [40.0, 5.0, 3.0, 1.0]]
        asks = [(f"{t} in {f}", lambda d, t=t, f=f: np.array(intact(lambda x: d.evaluate_sed(x, f), np.array(t)))) for t in ts for f in "gr"]
        explore(ctx, f"curves, periodic={periodic}", data, asks)
    for make in (lambda: ConstantExtrapolation(3.0), LastValueExtrapolation, lambda: LinearDecay(300.0), lambda: ExponentialDecay(300.0)):
        asks = [
            (f"from {last} with {flux} at {w}", lambda e, last=last, flux=flux, w=w: np.array(intact(lambda f, q: e(last, f, q), np.array(flux), np.array(w))))
            for last, flux, w in itertools.product((5000.0, 5100.0), ([1.0, 2.0], [1.0, 3.0]), ([5150.0, 5200.0, 5900.0], [5150.0, 5300.0, 5900.0]))
        ]
        explore(ctx, f"extrapolation {type(make()).__name__}", make, asks)


# ---------------------------------------------------------------------- parameter nodes
def sec_nodes(ctx):
    """Draws with a given generator and given inputs, before and after parameters are set anew."""
    from astropy.cosmology import FlatLambdaCDM
    from lightcurvelynx.astro_utils.dustmap import ConstantHemisphereDustMap, DustmapWrapper
    from lightcurvelynx.astro_utils.redshift import RedshiftDistFunc
    from lightcurvelynx.astro_utils.snia_utils import DistModFromRedshift, HostmassX1Func, SNCoordGivenPhysicalSep, X0FromDistMod
    from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
    from lightcurvelynx.math_nodes.distribution_sampler import DistributionSampler
    from lightcurvelynx.math_nodes.given_sampler import GivenValueSampler, GivenValueSelector, TableSampler
    from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
    from lightcurvelynx.math_nodes.ra_dec_sampler import ObsTableRADECSampler, ObsTableUniformRADECSampler, UniformRADEC
    from lightcurvelynx.obstable.obs_table import ObsTable

    def draw(n, seed):
        return (f"{n} draws with seed {seed}", lambda node: node.sample_parameters(num_samples=n, rng_info=np.random.default_rng(seed)).to_dict())

    def given(n, **vals):
        return (f"{n} with {vals}", lambda node: node.sample_parameters(given_args={"n": {k: np.array(v) if n > 1 else v for k, v in vals.items()}}, num_samples=n, rng_info=np.random.default_rng(3)).to_dict())

    def put(**vals):
        def do(node):
            for k, v in vals.items():
                node.set_parameter(k, v)

        return (f"set {vals}", do)

    draws = [draw(n, s) for n in (1, 3) for s in (1, 2)]
    lab = {"node_label": "n"}
    explore(ctx, "normal", lambda: NumpyRandomFunc("normal", loc=0.0, scale=1.0, **lab), draws + [given(3, loc=[1.0, 2.0, 3.0], scale=[0.0, 0.0, 0.0])], [put(loc=5.0), put(scale=0.1), ("set loc to a node", lambda node: node.set_parameter("loc", NumpyRandomFunc("uniform", low=3.0, high=4.0, node_label="u")))])
    explore(
        ctx, "expression", lambda: BasicMathNode("a * b + sin(a)", a=1.0, b=2.0, **lab),
        [draw(1, 1), draw(3, 1), given(3, a=[1.0, 2.0, 3.0]), given(3, a=[1.0, 5.0, 3.0]), given(3, a=[1.0, 2.0, 3.0], b=[4.0, 5.0, 6.0]), given(1, a=2.0), given(1, a=3.0)],
        [put(a=7.0), put(b=0.5)],
    )  # fmt: skip
    zs = [[0.1, 0.2, 0.3], [0.3, 0.2, 0.1], [0.1, 0.25, 0.25]]
    byz = [given(3, redshift=z) for z in zs] + [given(1, redshift=0.1), given(1, redshift=0.4), draw(1, 1), draw(3, 1)]
    explore(ctx, "distance modulus", lambda: DistModFromRedshift(0.5, H0=70.0, **lab), byz, [put(redshift=0.7)])
    explore(ctx, "distance", lambda: RedshiftDistFunc(0.5, FlatLambdaCDM(H0=73.0, Om0=0.3), **lab), byz, [put(redshift=0.7)])
    explore(ctx, "brightness", lambda: X0FromDistMod(40.0, 0.5, 0.1, 0.14, 3.1, -19.3, **lab), [
        draw(1, 1), draw(3, 1), given(3, distmod=[39.0, 40.0, 41.0]), given(3, distmod=[41.0, 40.0, 39.0]), given(3, x1=[0.0, 1.0, 2.0]), given(3, c=[0.0, 0.1, 0.2]), given(1, m_abs=-19.0),
    ], [put(distmod=42.0), put(alpha=0.2)])  # fmt: skip
    explore(ctx, "stretch", lambda: HostmassX1Func(9.0, **lab), draws + [given(3, hostmass=[9.0, 11.0, 9.5]), given(3, hostmass=[11.0, 9.0, 9.5]), given(1, hostmass=11.0)], [put(hostmass=10.5)], depth=ctx.pick(2, 3))
    explore(ctx, "offset", lambda: SNCoordGivenPhysicalSep(10.0, -20.0, 5.0, 0.1, **lab), draws + byz[:4] + [given(3, physical_sep_kpc=[1.0, 9.0, 5.0])], [put(redshift=0.7), put(host_ra=50.0)], depth=ctx.pick(2, 3))
    explore(ctx, "distribution", lambda: DistributionSampler([0.0, 1.0, 3.0], [1.0, 2.0, 1.0], **lab), draws)
    explore(ctx, "values", lambda: GivenValueSampler([5.0, 6.0, 9.0], weights=[1.0, 2.0, 1.0], **lab), draws)
    explore(ctx, "selector", lambda: GivenValueSelector([5.0, 6.0, 9.0], 1, **lab), [draw(1, 1), draw(3, 1), given(3, index=[0, 2, 1]), given(3, index=[0, 1, 1]), given(1, index=2)], [put(index=0), put(index=2)])
    explore(ctx, "table rows", lambda: TableSampler({"a": [1.0, 2.0, 3.0, 4.0], "b": [5.0, 6.0, 7.0, 8.0]}, **lab), draws)
    explore(ctx, "sky", lambda: UniformRADEC(**lab), draws)

    def survey():
        return ObsTable(pd.DataFrame({"ra": [10.0, 200.0], "dec": [0.0, -40.0], "time": [1.0, 2.0]}), radius=40.0)

    explore(ctx, "pointings", lambda: ObsTableRADECSampler(survey(), **lab), draws)
    explore(ctx, "covered sky", lambda: ObsTableUniformRADECSampler(survey(), **lab), draws)
    pts = [([10.0, 20.0, 30.0], [5.0, 6.0, -7.0]), ([10.0, 50.0, 30.0], [5.0, -6.0, -7.0])]
    explore(
        ctx, "dust", lambda: DustmapWrapper(ConstantHemisphereDustMap(0.75, 0.125), ra=10.0, dec=3.0, **lab),
        [draw(1, 1), draw(3, 1)] + [given(3, ra=a, dec=d) for a, d in pts] + [given(1, ra=10.0, dec=-5.0), given(1, ra=10.0, dec=5.0)],
        [put(dec=-9.0), put(ra=11.0)],
    )  # fmt: skip


# ---------------------------------------------------------------------- functions
def sec_functions(ctx):
    """Functions of their arguments alone.  The fresh object is the module loaded anew."""
    import importlib

    from astropy import units as u
    from astropy.cosmology import FlatLambdaCDM

    def module(name):
        return lambda: importlib.reload(importlib.import_module(f"lightcurvelynx.astro_utils.{name}"))

    def ask(fn, *args, **kw):
        def do(mod):
            call = [np.array(a) if isinstance(a, list) else a for a in args]
            named = {k: np.array(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
            return intact(getattr(mod, fn), *call, **named)

        return f"{fn}{args}{kw}", do

    zps, exts = [{"g": 28.5, "r": 28.0}, {"g": 27.5, "r": 28.0}], [{"g": -0.2, "r": -0.1}, {"g": -0.3, "r": -0.1}]
    obs = [dict(band=["g", "r", "g"], airmass=[1.0, 1.5, a], exptime=[30.0, e, 30.0]) for a, e in ((1.2, 30.0), (1.4, 30.0), (1.2, 60.0))]
    obs.append({**obs[0], "band": ["g", "g", "r"]})
    lsst = {"instr_zp": None, "ext_coeff": None}
    asks = [ask("magnitude_electron_zeropoint", instr_zp=z, ext_coeff=e, **obs[0]) for z in zps for e in exts]
    asks += [ask("magnitude_electron_zeropoint", **lsst, **ob) for ob in obs]
    asks += [ask("flux_electron_zeropoint", instr_zp_mag=z, ext_coeff=exts[0], **ob) for z in zps for ob in obs[:2]]
    base = dict(maglim=[24.0, 23.0], sky=[100.0, 200.0], fwhm=[2.0, 3.0], gain=1.5, readnoise=8.0, darkcurrent=0.2, exptime=[30.0, 30.0], nexposure=1)
    for more in ({}, {"maglim": [24.0, 22.0]}, {"sky": [200.0, 100.0]}, {"gain": 2.0}, {"nexposure": 2}):
        asks.append(ask("calculate_zp_from_maglim", **{**base, **more}))
    explore(ctx, "zero points", module("zeropoint"), asks)

    mags = [[20.0, 22.0, 24.0], [20.0, 23.0, 24.0], [24.0, 22.0, 20.0], [22.0]]
    explore(ctx, "magnitudes", module("mag_flux"), [ask(f, m) for f in ("mag2flux", "flux2mag") for m in mags])

    base = dict(total_exposure_time=[30.0, 60.0], exposure_count=[1, 2], psf_footprint=[5.0, 6.0], sky=[10.0, 20.0], zp=[0.5, 0.25], readout_noise=3.0, dark_current=0.1)
    asks = [ask("poisson_bandflux_std", f, **base) for f in ([100.0, 200.0], [200.0, 100.0], [100.0, 300.0])]
    for k, v in {"total_exposure_time": [30.0, 90.0], "exposure_count": [2, 1], "psf_footprint": [6.0, 5.0], "sky": [20.0, 10.0], "zp": [0.25, 0.5], "readout_noise": 4.0, "dark_current": 0.4}.items():
        asks.append(ask("poisson_bandflux_std", [100.0, 200.0], **{**base, k: v}))
    asks += [(f"apply_noise({f}, {e}), seed {s}", lambda mod, f=f, e=e, s=s: intact(lambda a, b: mod.apply_noise(a, b, rng=np.random.default_rng(s)), np.array(f), np.array(e))) for f in ([1.0, 2.0], [2.0, 1.0]) for e in ([0.5, 0.0], [0.0, 0.5]) for s in (1, 2)]
    explore(ctx, "noise", module("noise_model"), asks)

    asks = [ask("obs_to_rest_times_waves", t, w, z, t0) for t in ([1.0, 2.0, 9.0], [1.0, 5.0, 9.0]) for w in ([4000.0, 5000.0], [4000.0, 5100.0]) for z, t0 in ((0.5, 1.0), (0.25, 1.0), (0.5, 3.0))]
    asks += [ask("rest_to_obs_flux", f, z) for f in ([1.0, 2.0], [2.0, 1.0]) for z in (0.5, 0.25)]
    asks += [ask("redshift_to_distance", z, FlatLambdaCDM(H0=h, Om0=m)) for z in (0.5, [0.1, 0.2], [0.2, 0.1]) for h, m in ((70.0, 0.3), (73.0, 0.3), (70.0, 0.2))]
    explore(ctx, "redshifts", module("redshift"), asks)

    asks = [ask("black_body_luminosity_density_per_solid", t, r, w) for t in (5000.0, 6000.0) for r in (1e10, 2e10) for w in ([4e-5, 5e-5, 6e-5], [4e-5, 5.5e-5, 6e-5])]
    explore(ctx, "black body", module("black_body"), asks, depth=ctx.pick(3, 4))

    asks = []
    for f, w, unit in itertools.product(([1.0, 2.0, 3.0], [1.0, 5.0, 3.0]), ([4000.0, 5000.0, 6000.0], [4000.0, 5500.0, 6000.0]), (u.AA, u.nm)):
        asks.append(ask("flam_to_fnu", f, w, wave_unit=unit, flam_unit=u.erg / u.s / u.cm**2 / u.AA, fnu_unit=u.nJy))
        asks.append(ask("fnu_to_flam", f, w, wave_unit=unit, flam_unit=u.erg / u.s / u.cm**2 / u.AA, fnu_unit=u.nJy))
    asks += [ask("bulk_convert_matrix", f, a, b) for f in ([1.0, 2.0], [2.0, 1.0]) for a, b in ((u.Jy, u.nJy), (u.mJy, u.nJy), (u.Jy, u.uJy))]
    explore(ctx, "units", module("unit_utils"), asks)

    explore(ctx, "efficiency", module("obs_utils"), [ask(f, v) for f in ("phot_eff_function", "spec_eff_function") for v in ([4.0, 6.0, 20.0], [4.0, 16.0, 20.0], [22.0, 24.5, 23.0])], depth=ctx.pick(3, 4))

    asks = [ask("snia_volumetric_rates", z) for z in ([0.1, 0.5, 1.0], [0.1, 0.6, 1.0], [1.0, 0.5, 0.1])]
    base = {"zmin": 0.1, "zmax": 1.1, "znbins": 4, "solid_angle": 1.0, "H0": 70.0, "Omega_m": 0.3}
    for more in ({}, {"zmin": 0.2}, {"zmax": 1.4}, {"znbins": 5}, {"solid_angle": None}, {"H0": 73.0}, {"Omega_m": 0.2}):
        asks.append((f"numbers {more}", lambda mod, more=more: [np.array(x) for x in mod.num_snia_per_redshift_bin(**{**base, **more})]))
    explore(ctx, "supernova numbers", module("snia_utils"), asks, depth=ctx.pick(2, 3))


# ---------------------------------------------------------------------- files
_COUNT = itertools.count()


def sec_files(ctx):
    """Files that are written anew between readings: same names, same sizes, other contents."""
    import os
    import sqlite3
    from pathlib import Path

    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
    from lightcurvelynx.graph_state import GraphState
    from lightcurvelynx.models.static_sed_model import StaticSEDModel
    from lightcurvelynx.obstable.obs_table import ObsTable
    from lightcurvelynx.utils.bicubic_interp import BicubicInterpolator
    from lightcurvelynx.utils.io_utils import read_grid_data, read_lclib_data, read_numpy_data

    def write(d, k):
        a = np.array([[4000.0, 0.25 + k], [4500.0, 0.5], [5000.0, 0.75 - 0.5 * k]])
        np.save(d / "a.npy", a)
        np.savetxt(d / "a.txt", a)
        np.savetxt(d / "a.csv", a, delimiter=",")
        (d / "grid.dat").write_text("".join(f"{x} {y} {(x + 1) * (y + 2) * (k + 1):.1f}\n" for x in range(4) for y in range(5)))
        (d / "lc.txt").write_text(f"FILTERS: gr\nSTART_EVENT: {k}\nT: 0.0 2{k} 21\nS: 1.0 22 2{4 - k}\nEND_EVENT: {k}\n")
        df = pd.DataFrame({**DATA, "ra": [x + k for x in DATA["ra"]]})
        df.to_parquet(d / "t.parquet")
        con = sqlite3.connect(d / "t.db")
        df.to_sql("observations", con, if_exists="replace", index=False)
        con.close()
        GraphState.from_dict({"n.a": [1.0 + k, 2.0], "n.b": [3.0, 4.0 - k]}, num_samples=2).save_to_file(d / "s.ecsv", overwrite=True)

    def build():
        d = Path(os.environ.get("VERIF_SCRATCH", "/tmp")) / f"h01_{os.getpid()}_{next(_COUNT)}"
        d.mkdir(parents=True)
        write(d, 0)
        return d

    def survey(t):
        return {c: [str(x) for x in t[c]] for c in t.columns}

    asks = [(f"read {n}", lambda d, n=n: np.array(read_numpy_data(d / n))) for n in ("a.npy", "a.txt", "a.csv")] + [
        ("read grid", lambda d: [np.array(x) for x in read_grid_data(d / "grid.dat")]),
        ("interpolator", lambda d: np.array(BicubicInterpolator.from_grid_file(d / "grid.dat")([1.5], [2.5]))),
        ("read LCLIB", lambda d: [{c: [str(x) for x in t[c]] for c in t.colnames} for t in read_lclib_data(d / "lc.txt")]),
        ("passband", lambda d: np.array(Passband.from_file("S", "g", table_path=d / "a.txt", trim_quantile=None).processed_transmission_table)),
        ("table file", lambda d: survey(ObsTable.from_parquet(d / "t.parquet"))),
        ("database", lambda d: survey(ObsTable.from_db(d / "t.db"))),
        ("state", lambda d: GraphState.from_file(d / "s.ecsv").to_dict()),
        ("SED", lambda d: np.array(StaticSEDModel.from_file(d / "a.npy").sed_values[0])),
    ]
    edits = [(f"write contents {k}", lambda d, k=k: write(d, k)) for k in (0, 1)]
    explore(ctx, "files", build, asks, edits, depth=ctx.pick(3, 3))
