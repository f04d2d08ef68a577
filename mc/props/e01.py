"""E01: the built-in effects do what they document, to SEDs and band fluxes alike, in their frame and in their order."""

import itertools
import math

import numpy as np

from ..rng import ScriptedRNG
from mc import memory

ID = "E01"
RULE = (
    "every built-in effect with every combination of its parameter values on every shape of flux; every ordered selection "
    "of effects added to SED, band and combined models, with and without redshift, for every assignment of sampled "
    "parameter values; every extinction law in both frames; every outcome of a microlensing draw; a state is one setup"
)
ASSUMPTIONS = ["the dust_extinction laws themselves and the scripted normal quantiles are taken as given"]


def magnification(t, t0, u0, te):
    u = math.hypot(u0, (t - t0) / te)
    return (u * u + 2) / (u * math.sqrt(u * u + 4))


TIMES = [10.0, 3.0, 55.5, 10.0, 12.25]
WAVES = [5000.0, 3000.0, 8000.0]


# ---------------------------------------------------------------------- effects on their own
def sec_single(ctx):
    from scipy.special import ndtri

    from lightcurvelynx.effects.basic_effects import ConstantDimming
    from lightcurvelynx.effects.effect_model import EffectModel
    from lightcurvelynx.effects.microlensing import Microlensing
    from lightcurvelynx.effects.white_noise import WhiteNoise

    def matrices():
        for nt, nw in itertools.product((1, 2, 5), (1, 3)):
            for base in (0.0, 1.0, -2.0):
                yield np.array([[base + i + 10 * j for j in range(nw)] for i in range(nt)]), nt, nw

    def dimming(frac, kind):
        eff = ConstantDimming(frac)
        for m, nt, nw in matrices():
            flux = m.astype(kind)
            keep = flux.copy()
            ctx.step()
            what = f"dimming by {frac} of {flux.tolist()}"
            ctx.eq(eff.apply(flux, times=np.array(TIMES[:nt]), wavelengths=np.array(WAVES[:nw]), flux_fraction=frac, ra=1.0), m * frac, what)
            ctx.eq(eff.apply_bandflux(flux[:, 0], times=np.array(TIMES[:nt]), filters=np.full(nt, "r"), flux_fraction=frac, ra=1.0), m[:, 0] * frac, what)
            ctx.check(np.array_equal(flux, keep), f"{what}: the input was changed")
        ctx.raises(ValueError, lambda: eff.apply(m), "dimming without a fraction")
        ctx.raises(ValueError, lambda: eff.apply_bandflux(m[:, 0]), "dimming without a fraction")
        ctx.state(("dimming", frac, kind))

    for frac, kind in itertools.product((0.0, 0.5, 1.0, 2.0), ("float", "int")):
        ctx.case(["dimming", frac, kind], dimming, frac, kind)

    def noise(sigma, q):
        eff = WhiteNoise(sigma)
        for m, nt, nw in matrices():
            keep = m.copy()
            ctx.step()
            what = f"noise of {sigma} with draws {q} on {m.tolist()}"
            z = np.array([ndtri(q[i % len(q)]) for i in range(nt * nw)]).reshape(nt, nw)
            got = eff.apply(m, times=np.array(TIMES[:nt]), wavelengths=np.array(WAVES[:nw]), white_noise_sigma=sigma, rng_info=ScriptedRNG(q), dec=2.0)
            ctx.eq(got, m + sigma * z, what)
            zb = np.array([ndtri(q[i % len(q)]) for i in range(nt)])
            got = eff.apply_bandflux(m[:, 0], times=np.array(TIMES[:nt]), filters=np.full(nt, "r"), white_noise_sigma=sigma, rng_info=ScriptedRNG(q), dec=2.0)
            ctx.eq(got, m[:, 0] + sigma * zb, f"{what}: band fluxes")
            ctx.check(np.array_equal(m, keep), f"{what}: the input was changed")
        ctx.raises(ValueError, lambda: eff.apply(m, rng_info=ScriptedRNG(q)), "noise without a scale")
        ctx.raises(ValueError, lambda: eff.apply_bandflux(m[:, 0], rng_info=ScriptedRNG(q)), "noise without a scale")
        # Without a generator the draws differ from call to call.
        if sigma:
            a, b = (eff.apply(m, white_noise_sigma=sigma) for _ in range(2))
            ctx.check(not np.array_equal(a, b), "noise without a generator repeats itself")
            a, b = (eff.apply_bandflux(m[:, 0], white_noise_sigma=sigma) for _ in range(2))
            ctx.check(not np.array_equal(a, b), "noise of band fluxes without a generator repeats itself")
        ctx.state(("noise", sigma, q))

    qs = (0.1, 0.5, 0.9)
    for sigma in (0.0, 1.0, 2.5):
        for q in itertools.product(qs, repeat=ctx.pick(3, 5)):
            ctx.case(["noise", sigma, list(q)], noise, sigma, q)

    def lens(t0, u0, te, on):
        eff = Microlensing(t0, u0, te)
        ctx.eq(eff.rest_frame, False, "microlensing acts in the observer frame")
        for m, nt, nw in matrices():
            keep = m.copy()
            ctx.step()
            for ti in itertools.product(range(len(TIMES)), repeat=min(nt, 2)):
                ts = [TIMES[i] for i in ti] + TIMES[: max(0, nt - 2)]
                what = f"microlensing t0={t0} u0={u0} tE={te} apply={on} at {ts}"
                mag = np.array([magnification(t, t0, u0, te) if on else 1.0 for t in ts])
                par = {"apply_microlensing": on, "microlensing_t0": t0, "u_0": u0, "t_E": te, "ra": 4.0}
                ctx.eq(eff.apply(m, times=np.array(ts), wavelengths=np.array(WAVES[:nw]), **par), m * mag[:, None], what, 1e-4)
                ctx.eq(eff.apply_bandflux(m[:, 0], times=np.array(ts), filters=np.full(nt, "r"), **par), m[:, 0] * mag, f"{what}: band fluxes", 1e-4)
            ctx.check(np.array_equal(m, keep), f"{what}: the input was changed")
        if on:
            for drop in ("microlensing_t0", "u_0", "t_E"):
                p = {k: v for k, v in par.items() if k != drop}
                ctx.raises(ValueError, lambda p=p: eff.apply(m, times=np.array(ts), **p), f"microlensing without {drop}")
                ctx.raises(ValueError, lambda p=p: eff.apply_bandflux(m[:, 0], times=np.array(ts), **p), f"microlensing without {drop}")
        ctx.state(("lens", t0, u0, te, on))

    for t0, u0, te, on in itertools.product((10.0, 0.0, 60.0), (0.05, 0.5, 1.0, 3.0), (1.0, 20.0), (True, False)):
        ctx.case(["lens", t0, u0, te, on], lens, t0, u0, te, on)

    def base():
        e = EffectModel()
        ctx.raises(NotImplementedError, lambda: e.apply(np.ones((1, 1))), "effects without apply()")
        ctx.raises(NotImplementedError, lambda: e.apply_bandflux(np.ones(1)), "effects without apply_bandflux()")
        for kw, name in (({}, "EffectModel"), ({"effect_name": "mine"}, "mine")):
            for rest in (True, False):
                e = EffectModel(rest_frame=rest, a=1.0, b=lambda: 2.0, **kw)
                ctx.eq((str(e), e.rest_frame, sorted(e.parameters)), (name, rest, ["a", "b"]), "effect settings")

    ctx.case(["base"], base)


# ---------------------------------------------------------------------- effects of a model
VAL = {"flux_fraction": (0.5, 0.25), "white_noise_sigma": (2.0, 1.0), "u_0": (0.5, 1.5), "ebv": (0.1, 0.4)}


class Ref:
    """Reference chain: SED = 100 (per wavelength +w/1000), effects in frame order, redshift in between."""

    def __init__(self, names, z, sample):
        self.names, self.z, self.k = names, z, sample

    def sed(self, times, waves, q):
        # q: iterator over normal quantiles
        z = self.z
        flux = np.array([[100.0 + w / (1 + z) / 1000.0 for w in waves] for _ in times])
        rest_w = np.array(waves) / (1 + z)
        for n in [n for n in self.names if n.endswith("R")]:
            flux = self.one(n, flux, times, rest_w, q)
        flux = flux * (1 + z)
        for n in [n for n in self.names if not n.endswith("R")]:
            flux = self.one(n, flux, times, np.array(waves), q)
        return flux

    def one(self, n, flux, times, waves, q):
        v = {p: x[self.k] for p, x in VAL.items()}
        if n[0] == "D":
            return flux * v["flux_fraction"]
        if n[0] == "N":
            return flux + v["white_noise_sigma"] * np.array([next(q) for _ in range(flux.size)]).reshape(flux.shape)
        if n[0] == "L":
            mag = np.array([magnification(t, 10.0, v["u_0"], 20.0) for t in times])
            return flux * (mag[:, None] if flux.ndim == 2 else mag)
        if n[0] == "X":
            return flux * extinct("CCM89", waves, v["ebv"])


def extinct(name, waves, ebv, **kw):
    import astropy.units as u
    import dust_extinction

    import importlib
    from pkgutil import iter_modules

    for sub in iter_modules(dust_extinction.__path__):
        mod = importlib.import_module(f"dust_extinction.{sub.name}")
        if hasattr(mod, name):
            return getattr(mod, name)(**kw).extinguish(np.asarray(waves) * u.angstrom, Ebv=ebv)


def make_effect(n, sampled):
    from lightcurvelynx.effects.basic_effects import ConstantDimming
    from lightcurvelynx.effects.extinction import ExtinctionEffect
    from lightcurvelynx.effects.microlensing import Microlensing
    from lightcurvelynx.effects.white_noise import WhiteNoise
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    def par(p):
        return GivenValueList(list(VAL[p])) if sampled else VAL[p][0]

    if n[0] == "D":
        return ConstantDimming(par("flux_fraction"), rest_frame=n.endswith("R"))
    if n[0] == "N":
        return WhiteNoise(par("white_noise_sigma"), rest_frame=n.endswith("R"))
    if n[0] == "L":
        return Microlensing(10.0, par("u_0"), 20.0)
    return ExtinctionEffect("CCM89", ebv=par("ebv"), frame="rest" if n.endswith("R") else "observer")


def sec_models(ctx):
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.models.basic_models import LinearWavelengthModel
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel
    from lightcurvelynx.models.static_sed_model import StaticBandfluxModel
    from scipy.special import ndtri

    qs = (0.2, 0.6, 0.85)

    def go(names, z, sampled, wrapped):
        n = 2 if sampled else 1
        zz = GivenValueList([z, z / 2]) if sampled else z
        obj = LinearWavelengthModel(100.0, 1e-3, t0=10.0, redshift=zz)
        model = AdditiveMultiObjectModel([obj], t0=10.0, redshift=zz) if wrapped else obj
        for e in names:
            model.add_effect(make_effect(e, sampled))
        st = model.sample_parameters(num_samples=n)
        for nt in (1, 3):
            times = TIMES[:nt]
            got = model.evaluate_sed(np.array(times), np.array(WAVES), st, rng_info=ScriptedRNG(qs))
            ctx.step()
            cnt = itertools.count()
            q = (float(ndtri(qs[i % 3])) for i in cnt)
            want = [Ref(names, z if k == 0 else z / 2, k).sed(times, WAVES, q) for k in range(n)]
            ctx.eq(got, want[0] if n == 1 else want, f"effects {names} redshift={z} sampled={sampled} combined={wrapped}, {nt} times", 2e-4, 1e-6)
        ctx.state((names, z, sampled, wrapped))
        ctx.outcome(f"{len(names)} effects")

    pool = ["DR", "DO", "NR", "NO", "L", "XR", "XO"]
    for r in range(0, ctx.pick(3, 4)):
        for names in itertools.permutations(pool, r):
            if len({x[0] for x in names}) < len(names):
                continue  # effects of one kind share their parameters
            for z, sampled, wrapped in itertools.product((0.0, 0.5), (False, True), (False, True)):
                ctx.case([list(names), z, sampled, wrapped], go, names, z, sampled, wrapped)

    def bands(names, sampled):
        n = 2 if sampled else 1
        m = StaticBandfluxModel({"g": 100.0, "r": 40.0})
        for e in names:
            m.add_effect(make_effect(e, sampled))
        st = m.sample_parameters(num_samples=n)
        filters = np.array(["r", "g", "g", "r", "g"])
        got = m.evaluate_bandfluxes(None, np.array(TIMES), filters, st, rng_info=ScriptedRNG(qs))
        ctx.step()
        cnt = itertools.count()
        q = (float(ndtri(qs[i % 3])) for i in cnt)
        want = []
        for k in range(n):
            f = np.array([{"g": 100.0, "r": 40.0}[x] for x in filters])
            for e in names:
                f = Ref(names, 0.0, k).one(e, f, TIMES, None, q)
            want.append(f)
        ctx.eq(got, want[0] if n == 1 else want, f"band effects {names} sampled={sampled}", 2e-4, 1e-6)
        ctx.state(("bands", names, sampled))

    for r in range(0, 4):
        for names in itertools.permutations(["DR", "NO", "L"], r):
            for sampled in (False, True):
                ctx.case(["bands", list(names), sampled], bands, names, sampled)

    def observed(names, obs, sampled):
        """Band fluxes of a noisy SED: every observation has noise of its own, even of one time and filter."""
        from mc.props.s01 import group

        pbs = group(0)
        n = 2 if sampled else 1
        times, filters = np.array([TIMES[i] for i, _ in obs]), np.array([f for _, f in obs])

        def run(which, seed):
            m = LinearWavelengthModel(100.0, 1e-3, t0=10.0)
            for e in which:
                m.add_effect(make_effect(e, sampled))
            st = m.sample_parameters(num_samples=n)
            return np.atleast_2d(m.evaluate_bandfluxes(pbs, times, filters, st, rng_info=np.random.default_rng(seed)))

        ctx.step()
        what = f"effects {names} on observations {obs} sampled={sampled}"
        a, b, c = run(names, 1), run(names, 1), run(names, 2)
        clean = run([e for e in names if e[0] != "N"], 1)
        ctx.eq(a.shape, (n, len(obs)), f"{what}: shape")
        ctx.eq(a, b, f"{what}: equal generators")
        ctx.check(not np.any(a == c), f"{what}: different generators give the same noise")
        for i in range(len(obs)):
            for j in range(i):
                if obs[i] == obs[j]:
                    ctx.eq(clean[:, i], clean[:, j], f"{what}: observations {i} and {j} without noise", 1e-12)
        noise = (a - clean).ravel()
        ctx.check(len(np.unique(np.round(noise, 9))) == len(noise), f"{what}: observations share their noise {noise}")
        ctx.check(np.all(np.abs(noise) < 6 * max(VAL["white_noise_sigma"]) * 100), f"{what}: noise {noise}")
        ctx.state(("observed", names, obs, sampled))
        ctx.outcome("noisy observations")

    for r in range(1, ctx.pick(4, 5)):
        for obs in itertools.product([(0, "g"), (0, "r"), (1, "g")], repeat=r):
            for names in (("NR",), ("NO",), ("DR", "NO"), ("NR", "DO"), ("L", "NO")):
                for sampled in (False, True):
                    ctx.case(["observed", list(names), [list(o) for o in obs], sampled], observed, names, obs, sampled)


# ---------------------------------------------------------------------- extinction laws
def sec_extinction(ctx):
    import dust_extinction.parameter_averages as pa
    from lightcurvelynx.effects.extinction import ExtinctionEffect
    from lightcurvelynx.models.basic_models import ConstantSEDModel


    laws = []
    for n in ("CCM89", "O94", "F99", "F04", "VCG04", "F19", "GCC09", "M14", "D22", "G23"):
        if hasattr(pa, n):
            laws.append(n)
    names = laws + ["G03_SMCBar", "G03_LMCAvg", "G03_LMC2", "GCC09_MWAvg", "F21_avg"]

    def go(name, frame, ebv, z, how, rv):
        listed = ExtinctionEffect.list_extinction_models()
        if name not in listed:
            ctx.outcome("not available")
            return
        kw = {"Rv": rv} if rv is not None else {}
        law = name if how == "name" else ExtinctionEffect.load_extinction_model(name, **kw)
        eff = ExtinctionEffect(law, ebv=ebv, frame=frame, **(kw if how == "name" else {}))
        waves = np.array([9000.0, 5500.0, 12000.0, 5500.0])
        # A wavelength that is valid for this law in both frames
        status, want = ctx.attempt(lambda: extinct(name, waves / (1 + z) if frame == "rest" else waves, ebv, **kw))
        m = ConstantSEDModel(50.0, t0=0.0, redshift=z)
        m.add_effect(eff)
        ctx.step()
        got_s, got = ctx.attempt(lambda: m.evaluate_sed(np.array([1.0, 0.0]), waves, m.sample_parameters()))
        what = f"{name} ({how}, Rv={rv}) E(B-V)={ebv} in the {frame} frame at z={z}"
        if status == "err":
            ctx.check(got_s == "err", f"{what}: wavelengths beyond the law were accepted")
            ctx.outcome("out of range")
            return
        if not ctx.check(got_s == "ok", lambda: f"{what}: {type(got).__name__}: {got}"):
            return
        ctx.eq(got, np.tile(50.0 * (1 + z) * want, (2, 1)), what)
        if ebv == 0.0:
            ctx.eq(got, np.full((2, 4), 50.0 * (1 + z)), f"{what}: no dust")
        ctx.state((name, frame, ebv, z, how, rv))
        ctx.outcome(frame)

    for name, frame, ebv, z, how, rv in itertools.product(names, ("rest", "observer"), (0.0, 0.2, 1.5), (0.0, 0.3), ("name", "object"), (None, 2.6)):
        if rv is not None and name not in laws:
            continue
        ctx.case([name, frame, ebv, z, how, rv], go, name, frame, ebv, z, how, rv)

    def bad():
        ctx.raises(ValueError, lambda: ExtinctionEffect("CCM89", ebv=0.1), "no frame")
        ctx.raises(ValueError, lambda: ExtinctionEffect("CCM89", ebv=0.1, frame="other"), "an unknown frame")
        ctx.raises(KeyError, lambda: ExtinctionEffect("NoSuchLaw", ebv=0.1, frame="rest"), "an unknown law")
        e = ExtinctionEffect("CCM89", ebv=0.1, frame="rest")
        ctx.raises(ValueError, lambda: e.apply(np.ones((1, 1)), wavelengths=np.array([5000.0])), "no E(B-V)")
        ctx.raises(ValueError, lambda: e.apply(np.ones((1, 1)), ebv=0.1), "no wavelengths")
        m = ConstantSEDModel(1.0)
        m.add_effect(ExtinctionEffect("CCM89", frame="rest"))
        ctx.raises(ValueError, lambda: m.evaluate_sed(np.array([0.0]), np.array([5000.0]), m.sample_parameters()), "no E(B-V) in the model")

    ctx.case(["refuse"], bad)


# ---------------------------------------------------------------------- random microlensing
def sec_lottery(ctx):
    """Microlensing with a probability applies to exactly the samples whose draw says so."""
    from lightcurvelynx.effects.microlensing import Microlensing
    from lightcurvelynx.models.basic_models import ConstantSEDModel
    from lightcurvelynx.models.static_sed_model import StaticBandfluxModel

    def go(p, q, band):
        n = len(q)
        m = StaticBandfluxModel({"r": 10.0}) if band else ConstantSEDModel(10.0)
        m.add_effect(Microlensing(10.0, 0.5, 20.0, probability=p))
        st = m.sample_parameters(num_samples=n, rng_info=ScriptedRNG(q))
        on = [x < p for x in q]
        flags = np.atleast_1d(m.get_param(st, "apply_microlensing"))
        ctx.eq([bool(x) for x in flags], on, f"probability {p}, draws {q}: chosen samples")
        ts = np.array([10.0, 25.0])
        got = m.evaluate_bandfluxes(None, ts, np.array(["r", "r"]), st) if band else m.evaluate_sed(ts, np.array([5000.0]), st)[..., 0]
        want = [[10.0 * (magnification(t, 10.0, 0.5, 20.0) if o else 1.0) for t in ts] for o in on]
        ctx.step()
        ctx.eq(got, want[0] if n == 1 else want, f"probability {p}, draws {q}", 1e-4)
        ctx.state((p, q, band))
        ctx.outcome(f"{sum(on)} of {n}")

    for p, band in itertools.product((0.0, 0.3, 0.5, 0.9, 1.0), (False, True)):
        for n in (1, 2, 3):
            for q in itertools.product((0.001, 0.299, 0.301, 0.6, 0.95), repeat=n):
                ctx.case([p, list(q), band], go, p, q, band)


SECTIONS = [
    ("single", sec_single, (2, 4)),
    ("models", sec_models, (4, 8)),
    ("extinction", sec_extinction, (2, 2)),
    ("lottery", sec_lottery, (2, 2)),
    ("memory", memory.sec_models(memory.physical_models), 4),
]
