"""M05: the built-in sources have the documented flux at every time and wavelength, in any order of the queries."""

import itertools
import math

import numpy as np
from mc import memory

ID = "M05"
RULE = (
    "every built-in analytic, periodic, static, tabulated and galaxy model, every combination of its parameter values, at "
    "every selection of query times and wavelengths (before, at, between and after the special points; sorted, reversed, "
    "repeated, interleaved); a state is one configuration of a model"
)
ASSUMPTIONS = [
    "compared with closed formulas, lens areas with a numerical integral",
    "EclipsingBinaryStar takes radii and semiaxis in one unit of length (cm), as its tests use it",
]

TIMES = [3.0, -1.0, 0.0, 0.5, 7.25, 3.0, 1.0, 2.0, -6.5, 100.0]
WAVES = [5000.0, 3000.0, 4000.0, 4000.0, 9000.0, 3500.0]


def orders(seq, n):
    """Every ordered selection of n entries (as indices, repeats allowed)."""
    return itertools.product(range(len(seq)), repeat=n)


def evaluate(model, times, waves, state=None):
    st = model.sample_parameters() if state is None else state
    return model.evaluate_sed(np.array(times, dtype=float), np.array(waves, dtype=float), st)


# ---------------------------------------------------------------------- analytic models
def analytic():
    """(name, parameters, build, reference)"""
    from lightcurvelynx.models.basic_models import ConstantSEDModel, LinearWavelengthModel, SinWaveModel, StepModel

    for b in (0.0, 2.5, -1.0):
        yield "constant", (b,), lambda b=b: ConstantSEDModel(b), lambda t, w, b=b: b
    for b, t0, t1 in itertools.product((1.0, 3.0), (0.0, 1.0, -1.0), (0.0, 1.0, 3.0)):
        yield (
            "step",
            (b, t0, t1),
            lambda b=b, t0=t0, t1=t1: StepModel(b, t1, t0=t0),
            lambda t, w, b=b, t0=t0, t1=t1: b if t0 <= t <= t1 else 0.0,
        )
    for b, a, f, t0 in itertools.product((0.0, 5.0), (0.0, 2.0), (1.0, 0.3), (0.0, 0.25)):
        yield (
            "sine",
            (b, a, f, t0),
            lambda b=b, a=a, f=f, t0=t0: SinWaveModel(brightness=b, amplitude=a, frequency=f, t0=t0),
            lambda t, w, b=b, a=a, f=f, t0=t0: b + a * math.sin(2 * math.pi * f * (t - t0)),
        )
    for c, k, lo, hi in itertools.product((1.0, -2.0), (0.0, 1e-3), (None, 3500.0), (None, 5000.0)):
        yield (
            "linear",
            (c, k, lo, hi),
            lambda c=c, k=k, lo=lo, hi=hi: LinearWavelengthModel(c, k, min_wave=lo, max_wave=hi),
            lambda t, w, c=c, k=k, lo=lo, hi=hi: (
                0.0 if (lo is not None and w < lo) or (hi is not None and w > hi) else c + k * w
            ),
        )


def sec_analytic(ctx):
    for name, params, build, ref in analytic():

        def go(name=name, params=params, build=build, ref=ref):
            m = build()
            st = m.sample_parameters()
            nt = ctx.pick(2, 3)
            for ti in orders(TIMES, nt):
                for wi in [(0, 1, 2), (4, 4), (5, 3, 1, 0), (2,)]:
                    ts, ws = [TIMES[i] for i in ti], [WAVES[i] for i in wi]
                    got = evaluate(m, ts, ws, st)
                    ctx.step()
                    ctx.eq(got, [[ref(t, w) for w in ws] for t in ts], f"{name}{params} at {ts} x {ws}")
            ctx.state((name, params))
            ctx.outcome(name)

        ctx.case([name, list(params)], go)


# ---------------------------------------------------------------------- periodic models
def sec_periodic(ctx):
    """A model defined by phase sees phase 0 at t0, phases in [0, 1), and repeats with its period."""
    from lightcurvelynx.models.periodic_model import PeriodicModel

    class ByPhase(PeriodicModel):
        def _evaluate_phases(self, phases, wavelengths, graph_state, **kwargs):
            self.seen = np.array(phases)
            return phases[:, None] * 10 + wavelengths[None, :] * 1e-3

    for period, t0 in itertools.product((1.0, 2.5, 0.25, 400.0), (0.0, 1.0, -3.25, 60000.0)):
        fracs = (0.0, 0.125, 0.25, 0.5, 0.75, 0.9375)
        cycles = (0, 1, -1, 7, -12)
        for pts in itertools.permutations(itertools.product(fracs, cycles), 2):

            def go(period=period, t0=t0, pts=pts):
                m = ByPhase(period, t0=t0)
                st = m.sample_parameters()
                ts = [t0 + (f + k) * period for f, k in pts]
                got = m.evaluate_sed(np.array(ts), np.array([1000.0, 500.0]), st)
                what = f"period={period} t0={t0} at {ts}"
                ctx.check(np.all((m.seen >= 0) & (m.seen <= 1)), lambda: f"{what}: phases {m.seen}")
                want = [[f * 10 + w * 1e-3 for w in (1000.0, 500.0)] for f, _ in pts]
                ctx.step()
                # Rounding may put a phase of 0 just below 1.
                near = np.array([f == 0.0 for f, _ in pts])
                d = np.asarray(got) - want
                d[near] -= 10 * np.round(d[near] / 10)
                ctx.check(np.all(np.abs(d) < 1e-6), lambda: f"{what}: got {got}, expected {want}")
                ctx.state((period, t0))
                ctx.outcome("phase")

            ctx.case([period, t0, [list(p) for p in pts]], go)


def lens_area(d, r1, r2, n=4001):
    """Area common to two discs, by integrating chords."""
    lo, hi = max(-r1, d - r2), min(r1, d + r2)
    if hi <= lo:
        return 0.0
    th = (np.arange(n) + 0.5) / n * math.pi  # x = mid - half cos th: resolves the ends
    mid, half = (lo + hi) / 2, (hi - lo) / 2
    x = mid - half * np.cos(th)
    y = np.minimum(np.sqrt(np.maximum(r1**2 - x**2, 0)), np.sqrt(np.maximum(r2**2 - (x - d) ** 2, 0)))
    return float(np.sum(2 * y * half * np.sin(th)) * math.pi / n)


H, C, K = 6.62607015e-27, 2.99792458e10, 1.380649e-16
PC = 3.0856775814913673e18


def planck(temp, wave_cm):
    nu = C / wave_cm
    return 2 * H * nu**3 / C**2 / math.expm1(H * nu / (K * temp))


def binary_flux(p, t, w):
    """Flux in nJy of two discs, one of them in front of the other."""
    ph = ((t - p["t0"]) / p["period"]) % 1.0
    x = p["major_semiaxis"] * math.sin(2 * math.pi * ph)
    y = p["major_semiaxis"] * math.cos(math.radians(p["inclination"])) * math.cos(2 * math.pi * ph)
    over = lens_area(math.hypot(x, y), p["primary_radius"], p["secondary_radius"])
    a1, a2 = math.pi * p["primary_radius"] ** 2, math.pi * p["secondary_radius"] ** 2
    if math.cos(2 * math.pi * ph) > 0:
        a1 -= over
    else:
        a2 -= over
    s = planck(p["primary_temperature"], w * 1e-8) * a1 + planck(p["secondary_temperature"], w * 1e-8) * a2
    return s / (p["distance"] * PC) ** 2 * 1e32


def sec_binary(ctx):
    from lightcurvelynx.models.periodic_variable_star import EclipsingBinaryStar

    r = 7e10
    radii = ((1.0, 1.0), (1.0, 0.5), (0.5, 1.0), (2.0, 0.1), (1.8, 1.5))
    axes = (3.0, 5.0)
    incl = (90.0, 85.0, 75.0, 60.0, 0.0)
    temps = ((6000.0, 4000.0), (4000.0, 9000.0))
    phases = sorted({k / 48 for k in range(48)} | {0.01, 0.03, 0.05, 0.07, 0.47, 0.49, 0.51, 0.93, 0.97, 0.99})
    phases = phases[::2] + phases[1::2][::-1]
    for (r1, r2), ax, inc, (t1, t2), t0, period in itertools.product(radii, axes, incl, temps, (0.0, 2.2), (1.0, 3.7)):
        if ctx.tier == "quick" and period == 3.7 and t0 == 0.0:
            continue

        def go(r1=r1, r2=r2, ax=ax, inc=inc, t1=t1, t2=t2, t0=t0, period=period):
            p = {
                "period": period, "t0": t0, "major_semiaxis": ax * r, "inclination": inc, "distance": 20.0,
                "primary_radius": r1 * r, "secondary_radius": r2 * r,
                "primary_temperature": t1, "secondary_temperature": t2,
            }  # fmt: skip
            m = EclipsingBinaryStar(**p)
            st = m.sample_parameters()
            touching = r1 + r2 >= ax
            ts = [t0 + (ph + k) * period for k, ph in enumerate(phases) if not (touching and ph in (0.25, 0.75))]
            waves = [5000.0, 4000.0, 9000.0]
            got = m.evaluate_sed(np.array(ts), np.array(waves), st)
            want = np.array([[binary_flux(p, t, w) for w in waves] for t in ts])
            ctx.step(len(ts))
            # Exactly at quadrature either star may be taken as the nearer one (they only overlap when touching).
            ctx.eq(got, want, f"eclipsing binary {p}", 1e-4, 1e-9)
            full = np.array([binary_flux({**p, "inclination": 0.0}, t0, w) for w in waves]) if ax > r1 + r2 else None
            if full is not None:
                ctx.check(np.all(got <= full * (1 + 1e-9)), f"{p}: brighter than both stars together")
            ctx.state((r1, r2, ax, inc, t1, t2, t0, period))
            ctx.outcome(f"inclination {inc}")

        ctx.case([r1, r2, ax, inc, t1, t2, t0, period], go)
    for drop in ("distance",):
        ctx.case(["missing", drop], lambda drop=drop: ctx.raises(
            ValueError,
            lambda: EclipsingBinaryStar(period=1.0, t0=0.0, major_semiaxis=3 * r, inclination=90.0, primary_radius=r,
                                        secondary_radius=r, primary_temperature=5e3, secondary_temperature=5e3),
            f"a binary without {drop}"))


# ---------------------------------------------------------------------- tabulated SEDs
SPL_T = [-2.0, 0.0, 1.0, 3.0, 4.5]
SPL_W = [3000.0, 4000.0, 4500.0, 6000.0, 9000.0]
SPL_F = [[(i + 1) * (j + 2) + (i * j) % 3 for j in range(5)] for i in range(5)]


def bilinear(t, w):
    """Piecewise bilinear interpolation, held constant in time outside of the grid."""
    t = min(max(t, SPL_T[0]), SPL_T[-1])
    i = max(k for k in range(4) if SPL_T[k] <= t)
    j = max(k for k in range(4) if SPL_W[k] <= w)
    a = (t - SPL_T[i]) / (SPL_T[i + 1] - SPL_T[i])
    b = (w - SPL_W[j]) / (SPL_W[j + 1] - SPL_W[j])
    f = SPL_F
    return (1 - a) * ((1 - b) * f[i][j] + b * f[i][j + 1]) + a * ((1 - b) * f[i + 1][j] + b * f[i + 1][j + 1])


def sec_spline(ctx):
    import tempfile
    from pathlib import Path

    from lightcurvelynx.models.spline_model import SplineModel

    qt = [-2.0, -1.0, 0.0, 2.0, 4.5, -7.0, 9.0, 0.3]
    qw = [3000.0, 3500.0, 4500.0, 5000.0, 9000.0, 2000.0, 9500.0]
    wsel = [tuple(qw), tuple(reversed(qw)), (5000.0, 3500.0), (3500.0, 3500.0, 3000.0), (4500.0,)]
    for amp, t0, deg, how in itertools.product((1.0, 2.5), (None, 0.0, 10.0, -6.0), ((1, 1), (3, 3), (1, 3)), ("arrays", "file")):
        for tsel in itertools.permutations(qt, ctx.pick(2, 3)):

            def go(amp=amp, t0=t0, deg=deg, how=how, tsel=tsel):
                kw = {"amplitude": amp, "time_degree": deg[0], "wave_degree": deg[1]}
                if t0 is not None:
                    kw["t0"] = t0
                if how == "arrays":
                    m = SplineModel(np.array(SPL_T), np.array(SPL_W), np.array(SPL_F, dtype=float), **kw)
                else:
                    with tempfile.TemporaryDirectory() as tmp:
                        p = Path(tmp) / "grid.txt"
                        p.write_text("".join(f"{t} {w} {SPL_F[i][j]}\n" for i, t in enumerate(SPL_T) for j, w in enumerate(SPL_W)))
                        m = SplineModel.from_file(p, **kw)
                st = m.sample_parameters()
                base = t0 or 0.0
                again = [t + base for t in tsel] + [tsel[0] + base]
                for ws, ts in [(ws, again) for ws in wsel] + [(wsel[1], again[:-1])]:
                    got = m.evaluate_sed(np.array(ts), np.array(ws), st)
                    ctx.step()
                    what = f"spline amplitude={amp} t0={t0} degrees={deg} ({how}) at {ts} x {ws}"
                    if not ctx.check(np.shape(got) == (len(ts), len(ws)), f"{what}: shape {np.shape(got)}"):
                        continue
                    for i, t in enumerate(ts):
                        for j, w in enumerate(ws):
                            rel = t - base
                            if not SPL_W[0] <= w <= SPL_W[-1]:
                                ctx.eq(got[i][j], 0.0, f"{what}: beyond the grid at {t}, {w}")
                            elif deg == (1, 1):
                                ctx.eq(got[i][j], amp * bilinear(rel, w), f"{what}: at {t}, {w}")
                            elif rel in SPL_T and w in SPL_W:
                                ctx.eq(got[i][j], amp * SPL_F[SPL_T.index(rel)][SPL_W.index(w)], f"{what}: grid point {t}, {w}", 1e-9, 1e-9)
                            else:  # every query on its own gives the same
                                one = m.evaluate_sed(np.array([t]), np.array([w]), st)
                                ctx.eq(got[i][j], one[0][0], f"{what}: {t}, {w} on its own", 1e-9, 1e-9)
                ctx.state((amp, t0, deg, how))
                ctx.outcome(f"degrees {deg}")

            ctx.case([amp, t0, list(deg), how, list(tsel)], go)


# ---------------------------------------------------------------------- static SEDs
SEDS = [
    [[3000.0, 4000.0, 6000.0], [1.0, 3.0, 2.0]],
    [[3500.0, 5000.0], [10.0, 40.0]],
    [[2000.0, 4000.0, 4500.0, 9500.0], [5.0, 0.0, 7.0, 1.0]],
]
MAPS = [{"g": 1.0, "r": 2.0}, {"g": 30.0, "r": 40.0}, {"r": 500.0, "g": 600.0}]


def sed_value(sed, w):
    ws, fs = sed
    if w < ws[0] or w > ws[-1]:
        return 0.0
    for (a, u), (b, v) in zip(zip(ws, fs), zip(ws[1:], fs[1:])):
        if a <= w <= b:
            return u + (v - u) * (w - a) / (b - a)


def sec_static(ctx):
    import tempfile
    from pathlib import Path

    from lightcurvelynx.models.static_sed_model import StaticBandfluxModel, StaticSEDModel

    from ..rng import ScriptedRNG

    for r in (1, 2, 3):
        for sel in itertools.permutations(range(3), r):
            for weights in itertools.product((None, 1.0, 3.0), repeat=r):
                if any(x is None for x in weights) and not all(x is None for x in weights):
                    continue
                ws = None if weights[0] is None else np.array(weights)

                def go(sel=sel, ws=ws, r=r):
                    p = np.full(r, 1.0 / r) if ws is None else ws / ws.sum()
                    edges = np.cumsum(p)
                    sed = StaticSEDModel([np.array(SEDS[k]) for k in sel], weights=ws)
                    flux = StaticBandfluxModel([dict(MAPS[k]) for k in sel], weights=ws)
                    ctx.eq((len(sed), len(flux)), (r, r), f"SEDs {sel}: length")
                    qs = [0.01] + [e - 0.01 for e in edges] + [e + 0.01 for e in edges[:-1]]
                    for n in (1, 2, 3):
                        for q in itertools.product(qs, repeat=n):
                            picks = [int(np.searchsorted(edges, x, side="right")) for x in q]
                            what = f"SEDs {sel} weights {ws}, draws {q}"
                            ctx.step()
                            st = sed.sample_parameters(num_samples=n, rng_info=ScriptedRNG(q))
                            got = sed.evaluate_sed(np.array([5.0, 1.0, 5.0]), np.array(WAVES), st)
                            want = [[[sed_value(SEDS[sel[k]], w) for w in WAVES]] * 3 for k in picks]
                            ctx.eq(got, want[0] if n == 1 else want, what)
                            st = flux.sample_parameters(num_samples=n, rng_info=ScriptedRNG(q))
                            got = flux.evaluate_bandfluxes(None, np.array([5.0, 1.0, 5.0]), np.array(["r", "g", "r"]), st)
                            want = [[MAPS[sel[k]][f] for f in "rgr"] for k in picks]
                            ctx.eq(got, want[0] if n == 1 else want, f"{what}: band fluxes")
                        for fs in (["q"], ["r", "q"], ["q", "g", "r"]):
                            ctx.raises((KeyError, ValueError), lambda st=st, fs=fs: flux.evaluate_bandfluxes(None, np.arange(len(fs)) * 1.0, np.array(fs), st), f"SEDs {sel}: filters {fs}")
                    ctx.state((sel, None if ws is None else tuple(ws)))
                    ctx.outcome(f"{r} SEDs")

                ctx.case([list(sel), list(weights)], go)

    def files(k, suffix):
        with tempfile.TemporaryDirectory() as tmp:
            p = Path(tmp) / f"sed{suffix}"
            rows = np.array(SEDS[k]).T
            if suffix == ".npy":
                np.save(p, rows)
            else:
                p.write_text("# comment\n" + "".join((", " if suffix == ".csv" else " ").join(map(str, x)) + "\n" for x in rows))
            m = StaticSEDModel.from_file(p)
        got = evaluate(m, [0.0, 9.0], WAVES)
        ctx.step()
        ctx.eq(got, [[sed_value(SEDS[k], w) for w in WAVES]] * 2, f"SED {k} from a {suffix} file")

    def bad_file(shape, suffix):
        with tempfile.TemporaryDirectory() as tmp:
            p = Path(tmp) / f"sed{suffix}"
            data = np.arange(1.0, 1.0 + int(np.prod(shape))).reshape(shape)
            if suffix == ".npy":
                np.save(p, data)
            else:
                np.savetxt(p, data, delimiter="," if suffix == ".csv" else " ")
            ctx.raises(ValueError, lambda: StaticSEDModel.from_file(p), f"an SED file of shape {shape}")
        ctx.outcome("refused")

    for shape, suffix in itertools.product(((3, 3), (4, 1), (2, 3), (5,)), (".npy", ".csv", ".txt")):
        ctx.case(["bad file", shape, suffix], bad_file, shape, suffix)
    for k, suffix in itertools.product(range(3), (".npy", ".csv", ".txt")):
        ctx.case(["file", k, suffix], files, k, suffix)

    def synphot(k, waves, z):
        """A synphot spectrum, given in photons per second, square centimetre and Angstrom (constant beyond its ends)."""
        from synphot import Empirical1D, SourceSpectrum

        ws, ph = SEDS[k]
        sp = SourceSpectrum(Empirical1D, points=np.array(ws), lookup_table=np.array(ph, dtype=float), z=z)
        ctx.step()
        if z > 0:
            ctx.raises(ValueError, lambda: StaticSEDModel.from_synphot(sp, waves=waves), "a spectrum that is already redshifted")
            ctx.outcome("refused")
            return
        m = StaticSEDModel.from_synphot(sp, waves=None if waves is None else np.array(waves), node_label="m")
        nodes = ws if waves is None else waves
        h = 6.62607015e-27  # erg s
        knots = [[float(w) for w in nodes], [float(np.interp(w, ws, ph)) * h * w / 1e-32 for w in nodes]]
        got = evaluate(m, [0.0, 9.0], WAVES)
        ctx.eq(got, [[sed_value(knots, w) for w in WAVES]] * 2, f"synphot spectrum {k} at {waves}", 1e-6)
        st = m.sample_parameters()
        ctx.eq((m.minwave(st), m.maxwave(st)), (nodes[0], nodes[-1]), "wavelength range", 1e-9)
        ctx.outcome("synphot")

    for k, waves, z in itertools.product(range(3), (None, [3500.0, 4500.0, 5500.0], [3000.0, 3100.0, 9500.0]), (0.0, 0.5)):
        ctx.case(["synphot", k, waves, z], synphot, k, waves, z)

    def extra(kind):
        """Models take any additional keyword arguments in evaluate_sed(), for instance a position."""
        m = {
            "sed": lambda: StaticSEDModel(np.array(SEDS[0])),
        }[kind]()
        got = m.evaluate_sed(np.array([0.0]), np.array(WAVES), m.sample_parameters(), ra=1.0, dec=2.0)
        ctx.eq(got, [[sed_value(SEDS[0], w) for w in WAVES]], "evaluate_sed with ra and dec")

    ctx.case(["extra", "sed"], extra, "sed")

    bad = {
        "list": [[1.0, 2.0], [3.0, 4.0]],
        "three rows": [np.ones((3, 4))],
        "one entry": [np.array([[1.0], [2.0]])],
        "unsorted": [np.array([[1.0, 3.0, 2.0], [1.0, 1.0, 1.0]])],
        "repeated": [np.array([[1.0, 2.0, 2.0], [1.0, 1.0, 1.0]])],
        "second bad": [np.array(SEDS[0]), np.array([[2.0, 1.0], [1.0, 1.0]])],
    }
    for name, seds in bad.items():
        ctx.case(["refuse", name], lambda seds=seds, name=name: ctx.raises(ValueError, lambda: StaticSEDModel(seds), name))


# ---------------------------------------------------------------------- galaxies
def sec_galaxy(ctx):
    from lightcurvelynx.models.galaxy_models import GaussianGalaxy
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel
    from lightcurvelynx.models.static_sed_model import StaticSEDModel

    def ref(b, std, ra, dec, qra, qdec):
        v = [
            np.array([math.cos(math.radians(d)) * math.cos(math.radians(r)), math.cos(math.radians(d)) * math.sin(math.radians(r)), math.sin(math.radians(d))])
            for r, d in ((ra, dec), (qra, qdec))
        ]
        sep = math.degrees(2 * math.asin(min(1.0, np.linalg.norm(v[0] - v[1]) / 2)))
        return b * math.exp(-(sep**2) / (2 * std**2))

    for b, std, ra, dec in itertools.product((1.0, 40.0), (1.0 / 3600, 0.5, 3.0), (0.0, 10.0, 359.9), (0.0, -60.0, 89.9)):
        for du, dv in itertools.product((0.0, 1.0, -2.0, 0.3), (0.0, 1.0, -0.5)):

            def go(b=b, std=std, ra=ra, dec=dec, du=du, dv=dv):
                m = GaussianGalaxy(b, std, ra=ra, dec=dec)
                qra = (ra + du * std / math.cos(math.radians(dec))) % 360.0
                qdec = dec + dv * std
                if qdec > 90:
                    return
                st = m.sample_parameters()
                args = (np.array([2.0, 1.0, 1.0]), np.array([5000.0, 4000.0]))
                what = f"galaxy of {b} with radius {std} deg at ({ra}, {dec})"
                ctx.eq(m.evaluate_sed(*args, st), np.full((3, 2), b), f"{what}: at its center")
                want = ref(b, std, ra, dec, qra, qdec)
                ctx.eq(m.evaluate_sed(*args, st, ra=qra, dec=qdec), np.full((3, 2), want), f"{what} seen at ({qra}, {qdec})", 1e-5)
                both = AdditiveMultiObjectModel([m, StaticSEDModel(np.array([[1000.0, 9000.0], [7.0, 7.0]]))], ra=ra, dec=dec)
                got = both.evaluate_sed(*args, both.sample_parameters(), ra=qra, dec=qdec)
                ctx.eq(got, np.full((3, 2), want + 7.0), f"{what} and a star of 7 seen at ({qra}, {qdec})", 1e-5)
                ctx.step(3)
                ctx.state((b, std, ra, dec, du, dv))
                ctx.outcome("galaxy")

            ctx.case([b, std, ra, dec, du, dv], go)


SECTIONS = [
    ("analytic", sec_analytic, (2, 4)),
    ("periodic", sec_periodic, (4, 4)),
    ("binary", sec_binary, (8, 8)),
    ("spline", sec_spline, (4, 8)),
    ("static", sec_static, (2, 2)),
    ("galaxy", sec_galaxy, (2, 2)),
    ("memory", memory.sec_models(memory.analytic_models), 4),
]
