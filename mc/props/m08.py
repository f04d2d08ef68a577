"""M08: wrapped redback models give the source's own flux, for each sample's own parameters and reference time."""

import itertools
import sys
import types

import numpy as np

ID = "M08"
RULE = (
    "every combination of source wavelength bounds, query wavelengths inside, at and beyond them, extrapolation rule, reference "
    "time, ways of giving the parameters (dictionary, setters per sample, priors, overriding each other) and samples, with a "
    "recording source; a state is one configuration"
)
ASSUMPTIONS = ["redback itself is not installed: its source functions and model library are stand-ins with redback's call interface"]

C_AA = 2.99792458e18
TIMES = [-3.0, 0.0, 0.5, 7.0]
WAVES = {
    "inside": [3500.0, 5000.0, 7999.0],
    "bounds": [3000.0, 8000.0],
    "below": [1000.0, 2999.0, 3000.0, 4000.0],
    "above": [5000.0, 8000.0, 8001.0, 12000.0],
    "both": [2000.0, 3000.0, 5500.0, 8000.0, 9000.0],
    "all below": [1000.0, 2000.0],
    "all above": [9000.0, 9001.0],
    "one": [2500.0],
    "descending": [9000.0, 5000.0, 2500.0],
}
BOUNDS = {"wide": (0.0, np.inf), "both": (3000.0, 8000.0), "low": (3000.0, np.inf), "high": (0.0, 8000.0)}
RULES = ["none", "constant", "last", "linear", "exponential"]


class Source:
    """Like redback's time series source, it covers only the times that it was made for: its flux is zero elsewhere."""

    def __init__(self, bounds, height, slope, times):
        self.bounds, self.height, self.slope, self.times = bounds, height, slope, np.asarray(times)

    def minwave(self):
        return self.bounds[0]

    def maxwave(self):
        return self.bounds[1]

    def get_flux_density(self, times, wavelengths):
        times, wavelengths = np.asarray(times), np.asarray(wavelengths)
        if np.any(wavelengths < self.bounds[0]) or np.any(wavelengths > self.bounds[1]):
            raise ValueError("wavelengths out of the source's range")
        inside = (times >= np.min(self.times)) & (times <= np.max(self.times))
        return np.where(inside[:, None], flam(times, wavelengths, self.height, self.slope), 0.0)


def flam(times, waves, height, slope):
    return 1e-20 * height * (20.0 + np.asarray(times)[:, None]) * (1.0 + slope * np.asarray(waves)[None, :] / 1000.0)


def recording(bounds, log):
    def toy(times, height, slope, **kwargs):
        log.append({"times": np.array(times), "height": height, "slope": slope, **kwargs})
        return Source(bounds, height, slope, times)

    return toy


def rule_of(name):
    from lightcurvelynx.utils import wave_extrapolate as we

    return {
        "none": lambda: None,
        "constant": lambda: we.ConstantExtrapolation(7.5),
        "last": we.LastValueExtrapolation,
        "linear": lambda: we.LinearDecay(1500.0),
        "exponential": lambda: we.ExponentialDecay(0.001),
    }[name]()


def reference(times, waves, height, slope, bounds, rule):
    out = np.zeros((len(times), len(waves)))
    for k, w in enumerate(waves):
        edge = min(max(w, bounds[0]), bounds[1])
        at = flam(times, [edge], height, slope)[:, 0] * edge**2 / C_AA * 1e32
        gap = abs(w - edge)
        if gap:
            at = {
                "none": 0 * at,
                "constant": 0 * at + 7.5,
                "last": at,
                "linear": at * max(0.0, 1 - gap / 1500.0),
                "exponential": at * np.exp(-0.001 * gap),
            }[rule]
        out[:, k] = at
    return out


def sec_flux(ctx):
    from lightcurvelynx.effects.basic_effects import ConstantDimming
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.models.redback_models import RedbackWrapperModel

    def go(bn, wn, rule, t0s, z, n, effect):
        ctx.step()
        log = []
        heights = [3.0, 1.0, 10.0][:n]
        slopes = [0.5, 2.0, 0.0][:n]
        par = {"height": GivenValueList(heights) if n > 1 else heights[0], "slope": GivenValueList(slopes) if n > 1 else slopes[0]}
        if z == "source":
            par["redshift"] = 0.5
        kw = {} if t0s is None else {"t0": GivenValueList(t0s[:n]) if n > 1 else t0s[0]}
        if z == "own":
            kw["redshift"] = 0.5
        before = dict(par)
        m = RedbackWrapperModel(recording(BOUNDS[bn], log), parameters=par, wave_extrapolation=rule_of(rule), ra=1.0, dec=2.0, node_label="m", **kw)
        ctx.eq(sorted(m.param_names), sorted(par), "parameters of the source")
        ctx.check(par.keys() == before.keys() and all(par[k] is before[k] for k in par), "the caller's parameters were changed")
        if effect:
            m.add_effect(ConstantDimming(flux_fraction=0.25, rest_frame=effect == "rest"))
        st = m.sample_parameters(num_samples=n)
        t0 = [0.0] * n if t0s is None else t0s[:n]
        times = np.array(TIMES) + t0[0]
        waves = np.array(WAVES[wn])
        keep = times.copy(), waves.copy()
        got = m.evaluate_sed(times, waves, st)
        ctx.check(np.array_equal(times, keep[0]) and np.array_equal(waves, keep[1]), "the caller's arrays were changed")
        got = got[None] if n == 1 else got
        ctx.eq(got.shape, (n, len(TIMES), len(waves)), "shape")
        for k in range(n):
            want = reference(times - t0[k], WAVES[wn], heights[k], slopes[k], BOUNDS[bn], rule) * (0.25 if effect else 1.0)
            ctx.eq(got[k], want, f"sample {k}: bounds {BOUNDS[bn]}, wavelengths {WAVES[wn]}, rule {rule}", 1e-9, 1e-12)
        seen = {(c["height"], c["slope"]) for c in log}
        ctx.eq(seen, set(zip(heights, slopes)), "parameters handed to the source")
        for c in log:
            k = heights.index(c["height"])
            ctx.eq(c["times"], times - t0[k], "times handed to the source")
            ctx.eq(c.get("output_format"), "sncosmo_source", "output format")
            ctx.eq(c.get("redshift"), 0.5 if z == "source" else None, "redshift handed to the source")
        ctx.state((bn, wn, rule, t0s, z, n, effect))
        ctx.outcome("inside" if all(BOUNDS[bn][0] <= w <= BOUNDS[bn][1] for w in WAVES[wn]) else "extrapolated")

    for bn, wn, rule in itertools.product(BOUNDS, WAVES, RULES):
        for t0s in (None, [60000.5, 59990.0, 60007.25]):
            for n in (1, 2, 3):
                for z, effect in itertools.product((None, "own", "source"), (None, "rest", "obs")):
                    if ctx.tier == "quick" and (z and effect or n == 2 and rule in ("linear", "constant")):
                        continue
                    ctx.case(["flux", bn, wn, rule, t0s, z, n, effect], go, bn, wn, rule, t0s, z, n, effect)


def sec_parameters(ctx):
    from bilby.core.prior import DeltaFunction, PriorDict

    from lightcurvelynx.base_models import FunctionNode
    from lightcurvelynx.math_nodes.bilby_priors import BilbyPriorNode
    from lightcurvelynx.models.redback_models import RedbackWrapperModel

    def go(given, priors, form, how, n):
        """height and slope from the dictionary ("p"), the priors ("q"), both (the dictionary wins) or neither."""
        ctx.step()
        log = []
        src = recording(BOUNDS["wide"], log)
        par = {k: {"height": 4.0, "slope": FunctionNode(lambda a: a / 2, a=3.0)}[k] for k in given}
        pri = {k: DeltaFunction({"height": 6.0, "slope": 2.5}[k], k) for k in priors}
        pr = None
        if priors:
            pr = {"dict": pri, "PriorDict": PriorDict(pri), "node": BilbyPriorNode(prior=pri)}[form]
        name = "toy"
        if how == "library":
            lib = types.ModuleType("redback")
            lib.model_library = types.SimpleNamespace(all_models_dict={"toy": src, "other": None})
            saved = sys.modules.get("redback")
            sys.modules["redback"] = lib
        try:
            m = RedbackWrapperModel("toy" if how == "library" else src, priors=pr, parameters=par if given else None, ra=1.0, dec=2.0, node_label="m")
        finally:
            if how == "library":
                sys.modules.pop("redback")
                if saved is not None:
                    sys.modules["redback"] = saved
        ctx.eq(m.source_name, name, "source name")
        ctx.eq(sorted(m.param_names), sorted(set(given) | set(priors)), "parameters of the source")
        ctx.eq(sorted(par), sorted(given), "the caller's parameters")
        st = m.sample_parameters(num_samples=n)
        ev = lambda: m.evaluate_sed(np.array(TIMES), np.array([4000.0, 5000.0]), st)  # noqa: E731
        if set(given) | set(priors) != {"height", "slope"}:
            ctx.raises(TypeError, ev, "a source without all of its parameters")
            ctx.outcome("missing")
        else:
            h = 4.0 if "height" in given else 6.0
            s = 1.5 if "slope" in given else 2.5
            want = reference(TIMES, [4000.0, 5000.0], h, s, BOUNDS["wide"], "none")
            ctx.eq(ev(), want if n == 1 else np.array([want] * n), f"flux (given {given}, priors {priors})", 1e-9, 1e-12)
            ctx.eq({(float(c["height"]), float(c["slope"])) for c in log}, {(h, s)}, "parameters handed to the source")
            ctx.outcome("flux")
        ctx.state((given, priors, form, how, n))

    subsets = [(), ("height",), ("slope",), ("height", "slope"), ("slope", "height")]
    for given, priors in itertools.product(subsets, subsets):
        for form in ("dict", "PriorDict", "node"):
            for how in ("function", "library"):
                for n in (1, 2):
                    if priors or form == "dict":
                        ctx.case(["parameters", given, priors, form, how, n], go, given, priors, form, how, n)

    def clash(name, how):
        ctx.step()
        log = []
        kw = {name: 0.25}
        par = {"height": 1.0, "slope": 0.0, name: 0.25}
        make = lambda **k: RedbackWrapperModel(recording(BOUNDS["wide"], log), node_label="m", **k)  # noqa: E731
        if how == "twice":
            ctx.raises(ValueError, lambda: make(parameters=par, **kw), f"{name} given twice")
            return
        # a core parameter in the dictionary is a parameter of the node and goes to the source as well
        m = make(parameters=par)
        st = m.sample_parameters()
        ctx.eq(float(m.get_param(st, name)), 0.25, f"{name} of the node")
        got = m.evaluate_sed(np.array(TIMES), np.array([4000.0]), st)
        shift = 0.25 if name == "t0" else 0.0
        ctx.eq(got, reference(np.array(TIMES) - shift, [4000.0], 1.0, 0.0, BOUNDS["wide"], "none"), "flux", 1e-9, 1e-12)
        ctx.eq(log[-1].get(name), 0.25, f"{name} handed to the source")
        ctx.state((name, how))
        ctx.outcome("core")

    for name in ("redshift", "ra", "dec", "t0", "distance"):
        for how in ("twice", "dictionary"):
            ctx.case(["clash", name, how], clash, name, how)


def sec_use(ctx):
    """The same through band fluxes, sums of objects and histories of evaluations and redeclarations."""
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.models.basic_models import ConstantSEDModel
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel
    from lightcurvelynx.models.redback_models import RedbackWrapperModel

    def band(bn, rule, n):
        ctx.step()
        log = []
        pb = PassbandGroup([
            Passband(np.array([[2500.0 + 1000 * i + 100 * k, [0.0, 0.5, 1.0, 1.0, 0.25][k % 5]] for k in range(10)]), "S", f, delta_wave=50.0, trim_quantile=None)
            for i, f in enumerate("gri")
        ])  # fmt: skip
        heights = [3.0, 1.0, 10.0][:n]
        m = RedbackWrapperModel(
            recording(BOUNDS[bn], log), parameters={"height": GivenValueList(heights) if n > 1 else heights[0], "slope": 0.5}, t0=100.0, wave_extrapolation=rule_of(rule), node_label="m"
        )
        both = AdditiveMultiObjectModel([m, ConstantSEDModel(brightness=5.0, node_label="c")], weights=[2.0, 1.0], node_label="both")
        st = both.sample_parameters(num_samples=n)
        times, filters = np.array([100.0, 101.0, 99.0, 104.0]), np.array(["r", "g", "i", "g"])
        for top, w in ((m, (1.0, 0.0)), (both, (2.0, 5.0))):
            got = top.evaluate_bandfluxes(pb, times, filters, st)
            got = got[None] if n == 1 else got
            for k in range(n):
                for j, (t, f) in enumerate(zip(times, filters)):
                    p = pb[f"S_{f}"] if f"S_{f}" in getattr(pb, "passbands", {}) else pb[f]
                    sed = w[0] * reference([t - 100.0], list(p.waves), heights[k], 0.5, BOUNDS[bn], rule) + w[1]
                    ctx.eq(float(got[k][j]), float(p.fluxes_to_bandflux(sed)[0]), f"sample {k}, {f} at {t}, bounds {BOUNDS[bn]}, {rule}", 1e-9, 1e-12)
        ctx.state((bn, rule, n))
        ctx.outcome("band")

    for bn, rule, n in itertools.product(BOUNDS, RULES, (1, 3)):
        ctx.case(["band", bn, rule, n], band, bn, rule, n)

    def history(hist):
        ctx.step()
        log = []
        m = RedbackWrapperModel(recording(BOUNDS["both"], log), parameters={"height": 2.0, "slope": 0.5}, t0=10.0, node_label="m")
        h, s, t0 = 2.0, 0.5, 10.0
        st = m.sample_parameters()
        used = (h, s, t0)
        for op in hist:
            if op == "draw":
                st, used = m.sample_parameters(), (h, s, t0)
            elif op == "height":
                h += 1.0
                m.set_parameter("height", h)
            elif op == "t0":
                t0 += 5.0
                m.set_parameter("t0", t0)
            else:
                w = WAVES["inside" if op == "late" else op]
                late = np.array(TIMES) + (100.0 if op == "late" else 0.0)
                got = m.evaluate_sed(late, np.array(w), st)
                ctx.eq(got, reference(late - used[2], w, used[0], used[1], BOUNDS["both"], "none"), f"flux after {hist}", 1e-9, 1e-12)
                ctx.outcome(op)
        ctx.state(hist)

    for depth in range(1, ctx.pick(5, 7)):
        for hist in itertools.product(("draw", "height", "t0", "both", "inside", "late"), repeat=depth):
            if hist[-1] in WAVES or hist[-1] == "late":
                ctx.case(["history", hist], history, hist)


SECTIONS = [("flux", sec_flux, 4), ("parameters", sec_parameters), ("use", sec_use)]
