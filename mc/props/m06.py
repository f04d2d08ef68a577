"""M06: AGN light curves are the disk of each sample's own parameters, modulated by a walk drawn from the generator."""

import functools
import itertools
import math

import numpy as np

from ..rng import ScriptedRNG
from mc import memory

ID = "M06"
RULE = (
    "every combination of black hole masses, Eddington ratios, inclinations, distances and redshifts over the samples; every "
    "increasing sequence of times and every sequence of scripted draws for the walk; every history of evaluations with own "
    "and given generators; a state is one configuration and set of draws"
)
ASSUMPTIONS = [
    "disk integral compared with an independent quadrature; times are not before t0",
    "the walk's innovations are whatever the code draws with rng.random(); their distribution is not judged",
]

M_SUN = 1.98840987e33
PC = 3.0856775814913673e18
C = 2.99792458e10
H = 6.62607015e-27
KB = 1.380649e-16
G = 6.6743e-8
SB = 5.6703744191844314e-05


@functools.lru_cache(None)
def disk(mdot, nu, incl, d, m):
    rin = 6.0 * G * m / C**2
    r0 = 49.0 / 36.0 * rin
    t0 = 2**0.75 * (3 / 7) ** 1.75 * (G * m * mdot / (math.pi * SB * rin**3)) ** 0.25
    x0 = max(H * nu / (KB * t0) * (rin / r0) ** 0.75, 1e-6)
    # x = x0 + y^3 removes the x^(2/3) corner at zero
    y, wts = np.polynomial.legendre.leggauss(400)
    hi = (60.0) ** (1 / 3)
    y, wts = (y + 1) * hi / 2, wts * hi / 2
    x = x0 + y**3
    integ = float(np.sum(wts * 3 * y**2 * x ** (5 / 3) / np.expm1(x)))
    f = 16 * math.pi / (3 * d**2) * math.cos(incl) * (KB * t0 / H) ** (8 / 3) * H * nu ** (1 / 3) / C**2 * r0**2 * integ
    return f * 1e32


def derived(mass, ratio):
    lbol = ratio * 1.26e38 * mass
    mag = 90 - 2.5 * math.log10(lbol)
    lm = math.log10(mass / 1e9)
    return {
        "blackhole_mass_gram": mass * M_SUN,
        "critical_accretion_rate": 1.4e18 * mass,
        "blackhole_accretion_rate": 1.4e18 * mass * ratio,
        "bolometric_luminosity": lbol,
        "mag_i": mag,
        "sf_inf_4000aa": 10 ** (-0.476 + 0.118 * (mag + 23) + 0.118 * lm),
        "tau_4000aa": 10 ** (2.597 + 0.035 * (mag + 23) + 0.141 * lm),
    }


def walk(times, tau, sf, t0, draws, defective=False):
    """One column; draws are consumed one per step after the first for the start value."""
    cur, dm, out = t0, draws[0] * sf, []
    for k, t in enumerate(times):
        dt = t - cur
        e = math.exp(-dt / tau)
        dm = dm * e + sf * math.sqrt(1 - e * e) * draws[k + 1]
        out.append(dm)
        if not defective:
            cur = t
    return out


TIMES = [(0.0,), (3.0,), (0.0, 1.0), (1.0, 4.0), (0.5, 1.0, 40.0), (2.0, 3.0, 4.0, 400.0)]


# ---------------------------------------------------------------------- the walk on its own
def sec_walk(ctx):
    from lightcurvelynx.models.agn import sample_damped_random_walk

    def go(times, t0, tau, sf, draws):
        ctx.step()
        ctx.state(("walk", times, t0, tau, sf, draws))
        rng = ScriptedRNG(list(draws))
        got = sample_damped_random_walk(np.array(times) + t0, np.array(tau), np.array(sf), t0, rng=rng)
        want = np.array([walk([t + t0 for t in times], a, b, t0, draws) for a, b in zip(tau, sf)]).T
        bad = np.array([walk([t + t0 for t in times], a, b, t0, draws, True) for a, b in zip(tau, sf)]).T
        ctx.compared += 1
        if np.shape(got) == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-14):
            ctx.outcome("walk")
        elif np.shape(got) == want.shape and np.allclose(got, bad, rtol=1e-9, atol=1e-14):
            ctx.outcome("steps from t0")
            ctx.fail("every step of the walk is measured from t0", key="walk-steps-from-t0")
        else:
            ctx.fail(f"walk over {times} from {t0} with {tau}, {sf}, draws {draws}: got {got.tolist()}, expected {want.tolist()}")

    values = ctx.pick((0.0, 0.25, 1.0), (0.0, 0.25, 0.5, 1.0))
    for times in TIMES:
        for t0 in (0.0, -5.0, 60000.0):
            for tau, sf in (((1.0,), (0.1,)), ((10.0, 200.0), (0.3, 0.05)), ((5.0, 5.0, 7.0), (0.0, 0.2, 0.1))):
                for draws in itertools.product(values, repeat=len(times) + 1):
                    ctx.case(["walk", times, t0, tau, draws], go, times, t0, tau, sf, draws)

    def refuse_len(n, m):
        ctx.step()
        ctx.raises(
            ValueError,
            lambda: sample_damped_random_walk(np.array([0.0, 1.0]), np.ones(n), np.ones(m), 0.0, rng=np.random.default_rng(1)),
            f"{n} time scales with {m} structure functions",
        )

    for n, m in itertools.product(range(4), repeat=2):
        if n != m:
            ctx.case(["lengths", n, m], refuse_len, n, m)

    def order(times):
        ctx.step()
        ctx.state(("order", times))
        inc = all(b > a for a, b in zip(times, times[1:]))
        kind, res = ctx.attempt(
            lambda: sample_damped_random_walk(np.array(times), np.ones(2), np.ones(2), 0.0, rng=np.random.default_rng(1))
        )
        ctx.compared += 1
        if inc:
            ctx.outcome("increasing")
            if kind != "ok":
                ctx.fail(f"increasing times {times} were refused: {res!r}")
        elif kind == "ok":
            ctx.outcome("not refused")
            # the listed defect compares with t0 only
            ctx.fail(
                f"times {times} that do not increase were accepted",
                key="order-checked-against-t0" if all(t > 0 for t in times[1:]) else None,
            )
        elif not isinstance(res, ValueError):
            ctx.fail(f"times {times}: {res!r}")

    for n in (1, 2, 3):
        for times in itertools.product((0.0, 1.0, 2.0, 3.0), repeat=n):
            ctx.case(["order", times], order, times)


# ---------------------------------------------------------------------- derived parameters
def sec_params(ctx):
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.models.agn import AGN

    masses = ctx.pick((1e4, 1e9), (1e4, 1e7, 1e9, 3e10))
    ratios = ctx.pick((0.1, 1.0), (0.01, 0.1, 1.0))

    def go(ms, rs, incl):
        ctx.step()
        n = len(ms)
        agn = AGN(
            t0=0.0,
            blackhole_mass=GivenValueList(list(ms)),
            edd_ratio=GivenValueList(list(rs)),
            redshift=0.1,
            distance=1e8,
            node_label="agn",
        )
        if incl is not None:
            agn.set_parameter("inclination_rad", incl)
        st = agn.sample_parameters(num_samples=n)
        ctx.state(("params", ms, rs, incl))
        for name in derived(1e9, 1.0):
            got = np.atleast_1d(agn.get_param(st, name))
            want = [derived(m, r)[name] for m, r in zip(ms, rs)]
            ctx.eq(got, np.array(want), f"{name} of masses {ms}, ratios {rs}", rtol=1e-6)
        inc = np.atleast_1d(agn.get_param(st, "inclination_rad"))
        if incl is None:
            ctx.check(len(inc) == n and np.all((inc >= 0) & (inc <= math.pi / 2)), f"inclinations {inc}")
        else:
            ctx.eq(inc, np.full(n, incl), "given inclination")

    for n in ctx.pick((1, 2), (1, 2, 3)):
        for ms in itertools.product(masses, repeat=n):
            for rs in itertools.product(ratios, repeat=n):
                for incl in (None, 0.0, 1.0):
                    ctx.case(["params", ms, rs, incl], go, ms, rs, incl)

    def scaling(which, sf, waves):
        """At 4000 A the scaled value is the 4000 A value; otherwise it is the power law of Suberlak et al. 2021."""
        ctx.step()
        ctx.state((which, sf, waves))
        w = np.array(waves) * 1e-8
        fn, power = {"sf": (AGN.compute_structure_function_at_inf, -0.479), "tau": (AGN.compute_tau, 0.17)}[which]
        got = np.asarray(fn(sf, w))
        want = sf * (w / 4000e-8) ** power
        bad = sf * 10**power * w / 4000e-8
        ctx.compared += 1
        if got.shape == want.shape and np.allclose(got, want, rtol=1e-9):
            ctx.outcome(f"{which} power law")
        elif got.shape == want.shape and np.allclose(got, bad, rtol=1e-9):
            ctx.outcome(f"{which} linear")
            ctx.fail(f"{which} scales linearly with wavelength", key="wavelength-scaling")
        else:
            ctx.fail(f"{which} {sf} at {waves}: got {got}, expected {want}")

    for which in ("sf", "tau"):
        for sf in (0.1, 2.0):
            for n in (1, 2, 3):
                for waves in itertools.product((1000.0, 4000.0, 9000.0), repeat=n):
                    ctx.case([which, sf, waves], scaling, which, sf, waves)

    base = dict(t0=0.0, blackhole_mass=1e9, edd_ratio=0.5)

    def refuse(kw, ok):
        ctx.step()
        if ok:
            ctx.check(AGN(**base, **kw) is not None, "complete parameters")
        else:
            ctx.raises(ValueError, lambda: AGN(**base, **kw), f"AGN with only {sorted(kw)}")

    for z, c, d in itertools.product((0, 1), repeat=3):
        kw = {}
        if z:
            kw["redshift"] = 0.1
        if c:
            kw["cosmology"] = "Planck18"
        if d:
            kw["distance"] = 1e8
        ctx.case(["needs", z, c, d], refuse, kw, bool(z and (c or d)))


# ---------------------------------------------------------------------- fluxes
def flux_ref(pars, times, waves, t0, z, draws, tau_sf):
    """Observer-frame fluxes; draws for the rest-frame walk."""
    tr = [(t - t0) / (1 + z) + t0 for t in times]
    out = np.zeros((len(times), len(waves)))
    for j, w in enumerate(waves):
        wc = w / (1 + z) * 1e-8
        avg = disk(pars["blackhole_accretion_rate"], C / wc, pars["inclination"], pars["distance"] * PC, pars["blackhole_mass_gram"])
        tau, sf = tau_sf(pars, wc)
        w_ = walk(tr, tau, sf, t0, draws, defective=pars["defective"])
        out[:, j] = [10 ** (-0.4 * dm) * avg * (1 + z) for dm in w_]
    return out


def sec_flux(ctx):
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.models.agn import AGN

    # The flux's walk is compared with the code's own scaling functions and step rule (both judged above),
    # so that this section reports nothing but other disagreements.
    def rule():
        from lightcurvelynx.models.agn import sample_damped_random_walk

        got = sample_damped_random_walk(np.array([1.0, 2.0]), np.array([3.0]), np.array([1.0]), 0.0, rng=ScriptedRNG([0.5, 0.25, 0.75]))
        return not np.allclose(got[:, 0], walk([1.0, 2.0], 3.0, 1.0, 0.0, [0.5, 0.25, 0.75]))

    defective = rule()

    def tau_sf(p, wc):
        return float(AGN.compute_tau(p["tau_4000aa"], wc)), float(AGN.compute_structure_function_at_inf(p["sf_inf_4000aa"], wc))

    def go(samples, z, t0, draws, times, waves, mode):
        ctx.step()
        n = len(samples)
        agn = AGN(
            t0=t0,
            blackhole_mass=GivenValueList([s[0] for s in samples]),
            edd_ratio=GivenValueList([s[1] for s in samples]),
            distance=GivenValueList([s[3] for s in samples]),
            redshift=z,
            node_label="agn",
            seed=7,
        )
        agn.set_parameter("inclination_rad", GivenValueList([s[2] for s in samples]))
        st = agn.sample_parameters(num_samples=n)
        rng = ScriptedRNG(list(draws) * n)
        own = getattr(agn, "_rng", None)
        before = own and own.bit_generator.state
        got = agn.evaluate_sed(np.array(times), np.array(waves), st, rng_info=rng)
        ctx.check((own and own.bit_generator.state) == before, "the model's own generator was used although one was given")
        got = got[None] if n == 1 else got
        for k, (m, r, i, d) in enumerate(samples):
            p = derived(m, r)
            p.update(inclination=i, distance=d, defective=defective)
            ctx.eq(got[k], flux_ref(p, times, waves, t0, z, draws, tau_sf), f"flux of sample {k} of {samples}", rtol=2e-6, atol=1e-300)
        ctx.state(("flux", samples, z, t0, draws, times, waves))
        ctx.outcome(f"{n} samples")

    pool = [(1e9, 0.9, 0.0, 1e9), (1e7, 0.1, 1.0, 1e7), (1e8, 1.0, 1.5, 5e8)]
    combos = [s for n in (1, 2, 3) for s in itertools.permutations(pool, n)]
    for samples in combos if ctx.tier == "thorough" else combos[:6] + combos[-1:]:
        for z, t0 in itertools.product((0.0, 1.0), (0.0, 100.0)):
            for times in ((5.0,), (1.0, 30.0), (0.0, 2.0, 90.0)):
                times = tuple(t + t0 for t in times)
                for draws in itertools.product((0.0, 0.7), repeat=len(times) + 1):
                    for waves in ((4000.0,), (9000.0, 1500.0)):
                        ctx.case(["flux", samples, z, t0, draws, times, waves], go, samples, z, t0, draws, times, waves, "sed")


# ---------------------------------------------------------------------- histories of evaluations
def sec_history(ctx):
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
    from lightcurvelynx.models.agn import AGN

    pb = PassbandGroup(given_passbands=[Passband(np.array([[4000.0, 0.5], [5000.0, 1.0], [6000.0, 0.5]]), "S", "r", delta_wave=250.0, trim_quantile=None)])

    def build(seed=3):
        agn = AGN(t0=0.0, blackhole_mass=1e9, edd_ratio=0.5, redshift=0.1, distance=1e8, node_label="agn", seed=seed)
        agn.set_parameter("inclination_rad", 0.3)
        return agn

    times, waves = np.array([1.0, 5.0, 20.0]), np.array([4000.0, 5000.0])

    def act(agn, op):
        kind, seed = op
        st = agn.sample_parameters(num_samples=1, rng_info=np.random.default_rng(11))
        rng = None if seed is None else np.random.default_rng(seed)
        if kind == "sed":
            return agn.evaluate_sed(times, waves, st, rng_info=rng)
        if kind == "band":
            return agn.evaluate_bandfluxes(pb, times, np.array(["r", "r", "r"]), st, rng_info=rng)
        return agn.compute_sed(times, waves, st, **({} if rng is None else {"walk_rng": rng}))

    ops = [(k, s) for k in ("sed", "band") for s in (None, 5, 6)] + [("own", None)]

    def go(hist):
        agn, own = build(), 0
        for op in hist:
            ctx.step()
            got = act(agn, op)
            if op[1] is None:
                # the own generator's stream depends only on how often it was used
                own += 1
                ctx.eq(got, replay_own(hist, own), f"evaluation {own} with the own generator in {hist}")
                ctx.outcome("own generator")
            else:
                ctx.eq(got, act(build(seed=99), op), f"{op} after {hist}")
                ctx.outcome("given generator")
        ctx.state(("history", hist))

    def replay_own(hist, count):
        """The count-th evaluation with the own generator, on a model that did only those."""
        agn, res = build(), None
        for op in [h for h in hist if h[1] is None][:count]:
            res = act(agn, op)
        return res

    for n in range(1, ctx.pick(3, 4) + 1):
        for hist in itertools.product(ops, repeat=n):
            ctx.case(["history", hist], go, hist)


SECTIONS = [
    ("walk", sec_walk, (2, 8)),
    ("params", sec_params, (1, 2)),
    ("flux", sec_flux, (6, 8)),
    ("history", sec_history, (1, 4)),
    ("memory", memory.sec_models(memory.agn_models), 2),
]
