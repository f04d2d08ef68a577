"""A01: unit, magnitude, zeropoint, redshift and supernova relations hold for every input."""

import itertools
import math

import numpy as np

from ..rng import ScriptedRNG

ID = "A01"
RULE = (
    "every combination of units, shapes and containers of fluxes and wavelengths; every sequence of up to three bands for every kind of "
    "zeropoint table; every point of a lattice of observing conditions, redshifts and cosmologies; every ordered selection of samples of the "
    "supernova relations, and every script of draws of the random ones over a grid of quantiles; a state is one setup"
)
ASSUMPTIONS = [
    "distances are compared with an independent integration of the Friedmann equation (relative 1e-6)",
    "random nodes are checked against the quantiles of their draws in any order",
]

C_KMS = 299792.458
C_CM = 2.99792458e10


def near(ctx, got, want, what, rtol=1e-9, atol=0.0):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if ctx.check(got.shape == want.shape, lambda: f"{what}: shape {got.shape}, expected {want.shape}"):
        ok = (got == want) | (np.abs(got - want) <= rtol * np.abs(want) + atol) | (np.isnan(got) & np.isnan(want))
        ctx.check(bool(np.all(ok)), lambda: f"{what}: {got.tolist()}, expected {want.tolist()}")


# ---------------------------------------------------------------------- units
def sec_units(ctx):
    from astropy import units as u

    from lightcurvelynx.astro_utils.unit_utils import bulk_convert_matrix, flam_to_fnu, fnu_to_flam

    waves = {"AA": (u.AA, 1e-8, [3000.0, 5000.0, 50000.0]), "nm": (u.nm, 1e-7, [300.0, 500.0, 5000.0]), "um": (u.um, 1e-4, [1.0, 2.0, 5.0])}
    flams = {"cgs/AA": (u.erg / u.s / u.cm**2 / u.AA, 1e8), "cgs/nm": (u.erg / u.s / u.cm**2 / u.nm, 1e7), "SI/um": (u.W / u.m**2 / u.um, 1e3 * 1e4)}
    fnus = {"nJy": (u.nJy, 1e-32), "Jy": (u.Jy, 1e-23), "cgs": (u.erg / u.s / u.cm**2 / u.Hz, 1.0)}
    shapes = [((3,), (3,)), ((2, 3), (3,)), ((2, 3), (2, 3)), ((1, 3), (3,)), ((3, 3), (3,)), ((2, 3), (1, 3)), ((3, 1), (1,)), ((1,), (1,))]
    bad = [((3,), (2,)), ((2, 3), (2,)), ((2, 3), (3, 3)), ((3, 3), (2, 3)), ((2, 3), (4,)), ((2, 2, 3), (2, 2))]
    conv = {
        "float": lambda a: np.array(a, dtype=float),
        "list": lambda a: np.array(a, dtype=float).tolist(),
        "int": lambda a: np.array(a).astype(int),
        "int32": lambda a: np.array(a).astype(np.int32),
        "single": lambda a: np.array(a, dtype=np.float32),
    }

    def fill(shape, pool):
        return np.array([pool[k % len(pool)] for k in range(int(np.prod(shape)))]).reshape(shape)

    def go(wk, lk, nk, fs, ws, how):
        ctx.step()
        (wu, wcm, wv), (lu, lcgs), (nu, ncgs) = waves[wk], flams[lk], fnus[nk]
        w, f = fill(ws, wv), fill(fs, [1.0, 2.0, 7.0, 0.0, -3.0])
        fac = lcgs * (w * wcm) ** 2 / C_CM / ncgs
        if fs and len(fs) > 1 and len(ws) == 1:
            fac = fac[None, :]
        rt = 1e-5 if how == "single" else 1e-9
        kw = {"wave_unit": wu, "flam_unit": lu, "fnu_unit": nu}
        near(ctx, flam_to_fnu(conv[how](f), conv[how](w), **kw), f * fac, f"f_lambda {fs} at {ws} ({how})", rt)
        near(ctx, fnu_to_flam(conv[how](f), conv[how](w), **kw), f / fac, f"f_nu {fs} at {ws} ({how})", rt)
        ctx.state((wk, lk, nk, fs, ws, how))
        ctx.outcome(how)

    for wk, lk, nk in itertools.product(waves, flams, fnus):
        for fs, ws in shapes:
            for how in conv:
                ctx.case([wk, lk, nk, fs, ws, how], go, wk, lk, nk, fs, ws, how)

    def refuse(fs, ws, how):
        ctx.step()
        kw = {"wave_unit": u.AA, "flam_unit": flams["cgs/AA"][0], "fnu_unit": u.nJy}
        f, w = conv[how](fill(fs, [1.0])), conv[how](fill(ws, [2.0]))
        ctx.raises(ValueError, lambda: flam_to_fnu(f, w, **kw), f"{fs} and {ws}")
        ctx.raises(ValueError, lambda: fnu_to_flam(f, w, **kw), f"{fs} and {ws}")

    for (fs, ws), how in itertools.product(bad, conv):
        ctx.case(["refuse", fs, ws, how], refuse, fs, ws, how)

    pairs = [(u.m, u.cm, 100.0), (u.nJy, u.Jy, 1e-9), (u.AA, u.nm, 0.1), (u.pc, u.pc, 1.0), (u.day, u.s, 86400.0)]
    for a, b, k in pairs:
        for shape in ((), (3,), (2, 3), (0,)):

            def bulk(a=a, b=b, k=k, shape=shape):
                ctx.step()
                m = fill(shape, [1.0, -2.5, 0.0])
                keep = m.copy()
                near(ctx, bulk_convert_matrix(m, a, b), m * k, f"{a} to {b}")
                near(ctx, bulk_convert_matrix(m, b, a), m / k, f"{b} to {a}")
                ctx.eq(m.tolist(), keep.tolist(), "input")

            ctx.case(["bulk", str(a), str(b), shape], bulk)
    ctx.case(["bulk", "bad"], lambda: ctx.raises(Exception, lambda: bulk_convert_matrix(np.ones(2), u.m, u.s), "meters to seconds"))


# ---------------------------------------------------------------------- magnitudes and zeropoints
def sec_zeropoint(ctx):
    import pandas as pd

    from lightcurvelynx.astro_utils.mag_flux import flux2mag, mag2flux
    from lightcurvelynx.astro_utils.zeropoint import calculate_zp_from_maglim, flux_electron_zeropoint, magnitude_electron_zeropoint

    conts = {"scalar": None, "float64": np.float64, "list": None, "array": np.array, "series": lambda v: pd.Series(v, index=range(7, 7 + len(v))), "matrix": lambda v: np.array([v, v])}

    def mags(vals, cont):
        ctx.step()
        if cont in ("scalar", "float64"):
            for m in vals:
                m = np.float64(m) if cont == "float64" else m
                f = 10 ** (-0.4 * (m - 31.4))
                near(ctx, mag2flux(m), f, f"flux of {m} mag")
                near(ctx, flux2mag(f), m, f"magnitude of {f} nJy", 1e-12, 1e-12)
            return
        if cont == "list":
            return
        x = conts[cont](vals)
        f = 10 ** (-0.4 * (np.array(x, dtype=float) - 31.4))
        near(ctx, mag2flux(x), f, f"fluxes of {vals}")
        near(ctx, flux2mag(mag2flux(x)), np.array(x, dtype=float), "magnitudes of the fluxes", 1e-12, 1e-12)
        ctx.check(bool(np.all(np.isposinf(flux2mag(np.zeros(2))))) and bool(np.all(np.isnan(flux2mag(np.array([-1.0]))))), "magnitudes of zero and negative fluxes")

    with np.errstate(all="ignore"):
        for vals in ([20.0, 31.4, -5.0], [8.9], [20, 25, 0], [33.25, float("inf")]):
            for cont in conts:
                ctx.case(["mag", vals, cont], mags, vals, cont)

    lsst_zp = {"u": 26.524, "g": 28.508, "r": 28.361, "i": 28.171, "z": 27.782, "y": 26.818}
    lsst_ext = {"u": -0.458, "g": -0.208, "r": -0.122, "i": -0.074, "z": -0.057, "y": -0.095}
    tables = {
        "default": (None, None),
        "floats": ({"u": 26.25, "g": 28.5, "r": 28.125}, {"u": -0.5, "g": -0.25, "r": -0.125}),
        "ints first": ({"u": 26, "g": 28.5, "r": 28.125}, {"u": 0, "g": -0.25, "r": -0.125}),
        "ints last": ({"u": 26.5, "g": 28, "r": 27}, {"u": -0.25, "g": 0, "r": 0}),
        "zp only": ({"u": 26, "g": 28.5, "r": 28.125}, None),
        "ext only": (None, {"u": 0, "g": -0.25, "r": -0.125}),
    }

    def zero(tk, bands, airs, exps, cont):
        ctx.step()
        zp, ext = tables[tk]
        z, e = zp or lsst_zp, ext or lsst_ext
        pick = lambda pool, k: pool[k % len(pool)]  # noqa: E731
        want = [z[b] + e[b] * (pick(airs, k) - 1) + 2.5 * math.log10(pick(exps, k)) for k, b in enumerate(bands)]
        if cont == "scalar":
            args = {"band": bands[0], "airmass": airs[0], "exptime": exps[0]}
            want = np.array(want[0])
        else:
            mk = conts[cont] if cont != "list" else np.array
            n = len(bands)
            args = {"band": list(bands) if cont == "list" else mk(list(bands)), "airmass": mk([pick(airs, k) for k in range(n)]), "exptime": mk([pick(exps, k) for k in range(n)])}
            want = np.array([want, want]) if cont == "matrix" else np.array(want)
        near(ctx, magnitude_electron_zeropoint(**args, instr_zp=zp, ext_coeff=ext), want, f"zeropoints of {bands} ({tk}, {cont})", 1e-12)
        near(ctx, flux_electron_zeropoint(**args, instr_zp_mag=zp, ext_coeff=ext), 10 ** (-0.4 * (want - 31.4)), f"zero point fluxes of {bands} ({tk}, {cont})", 1e-10)
        ctx.state((tk, bands, tuple(airs), tuple(exps), cont))
        ctx.outcome(tk)

    for tk in tables:
        for n in (1, 2, 3):
            for bands in itertools.product("ugr", repeat=n):
                for airs, exps in (([1.0, 1.5, 2.25], [30.0, 15.0, 1.0]), ([1, 2], [30, 1])):
                    for cont in ("scalar",) if n == 1 else ("list", "array", "series", "matrix"):
                        ctx.case(["zp", tk, bands, airs, cont], zero, tk, bands, airs, exps, cont)

    def unknown(tk, bands):
        ctx.step()
        zp, ext = tables[tk]
        kw = {"band": list(bands), "airmass": np.ones(len(bands)), "exptime": np.ones(len(bands))}
        ctx.raises(Exception, lambda: magnitude_electron_zeropoint(**kw, instr_zp=zp, ext_coeff=ext), f"unknown band in {bands}")
        ctx.raises(Exception, lambda: flux_electron_zeropoint(**kw, instr_zp_mag=zp, ext_coeff=ext), f"unknown band in {bands}")

    for tk in tables:
        for bands in (("w",), ("u", "w"), ("w", "g"), ("U",)):
            ctx.case(["unknown band", tk, bands], unknown, tk, bands)

    def limit(maglim, sky, fwhm, gain, rn, dc, expt, nexp, arr):
        ctx.step()
        kw = {"maglim": maglim, "sky": sky, "fwhm": fwhm, "gain": gain, "readnoise": rn, "darkcurrent": dc, "exptime": expt}
        if nexp is not None:
            kw["nexposure"] = nexp
        if arr:
            kw = {k: np.array([v, v * 1.5 if k != "nexposure" else v]) for k, v in kw.items()}
        zp = calculate_zp_from_maglim(**kw)
        for k in range(2 if arr else 1):
            g = {a: (b[k] if arr else b) for a, b in kw.items()}
            n = g.get("nexposure", 1)
            npix = 2.266 * g["fwhm"] ** 2
            flux = 10 ** (0.4 * ((zp[k] if arr else zp) - g["maglim"]))
            noise = math.sqrt(flux + g["sky"] * npix * g["gain"] + g["readnoise"] ** 2 * n * npix + g["darkcurrent"] * npix * g["exptime"] * n)
            ctx.check(abs(flux / noise - 5) < 1e-9, lambda: f"signal to noise at the limiting magnitude {flux / noise} for {g}")
        ctx.state((maglim, sky, fwhm, gain, rn, dc, expt, nexp, arr))
        ctx.outcome("limit")

    for vals in itertools.product((18, 21.5), (0.0, 350.0), (1.0, 2.5), (1.0, 6.2), (0.0, 10), (0.0, 1.25), (30, 1.0), (None, 1, 4), (False, True)):
        ctx.case(["limit", vals], limit, *vals)


# ---------------------------------------------------------------------- redshift, cosmology, efficiencies
def comoving(z, h0, om):
    """Comoving distance in Mpc by Gauss-Legendre integration of the Friedmann equation (flat, no radiation)."""
    x, w = np.polynomial.legendre.leggauss(60)
    t = 0.5 * z * (x + 1)
    return C_KMS / h0 * 0.5 * z * float(np.sum(w / np.sqrt(om * (1 + t) ** 3 + 1 - om)))


def sec_cosmology(ctx):
    from lightcurvelynx.astro_utils.snia_utils import SNCoordGivenPhysicalSep
    from astropy.cosmology import FlatLambdaCDM

    from lightcurvelynx.astro_utils.black_body import black_body_luminosity_density_per_solid
    from lightcurvelynx.astro_utils.obs_utils import phot_eff_function, spec_eff_function
    from lightcurvelynx.astro_utils.redshift import RedshiftDistFunc, obs_to_rest_times_waves, redshift_to_distance, rest_to_obs_flux
    from lightcurvelynx.astro_utils.snia_utils import DistModFromRedshift, num_snia_per_redshift_bin, snia_volumetric_rates
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    zs = [0.01, 0.5, 0.1, 2.0, 1.0, 6.0]

    def distances(h0, om, ids, node):
        ctx.step()
        vals = [zs[i] for i in ids]
        cosmo = FlatLambdaCDM(H0=h0, Om0=om)
        want = [comoving(z, h0, om) * (1 + z) * 1e6 for z in vals]
        z = lambda: GivenValueList(vals) if len(vals) > 1 else vals[0]  # noqa: E731
        if node:
            d = RedshiftDistFunc(redshift=z(), cosmology=cosmo, node_label="d").sample_parameters(num_samples=len(vals))["d.function_node_result"]
            m = DistModFromRedshift(redshift=z(), H0=h0, Omega_m=om, node_label="m").sample_parameters(num_samples=len(vals))["m.function_node_result"]
            near(ctx, m, [5 * math.log10(x / 10) for x in want] if len(vals) > 1 else 5 * math.log10(want[0] / 10), f"distance moduli at {vals}", 1e-7)
        else:
            d = redshift_to_distance(np.array(vals) if len(vals) > 1 else vals[0], cosmo)
        near(ctx, d, want if len(vals) > 1 else want[0], f"distances at {vals} (H0={h0}, Om={om})", 1e-6)
        ctx.state((h0, om, ids, node))
        ctx.outcome("distance")

    for h0, om in itertools.product((73.0, 70, 50.0), (0.3, 1, 0.05, 0.3153)):
        for n in (1, 2, 3):
            for ids in itertools.permutations(range(6), n):
                if n < 3 or (sum(ids) % 7 == 0 and h0 == 73.0) or ctx.tier == "thorough":
                    for node in (False, True):
                        ctx.case(["distance", h0, om, ids, node], distances, h0, om, ids, node)

    class Fn:
        def __call__(self):
            return 70.0

    for bad in ("70", None, Fn(), [70.0]):
        for which in ("H0", "Omega_m"):
            ctx.case(["bad cosmology", str(type(bad).__name__), which], lambda bad=bad, which=which: ctx.raises(ValueError, lambda: DistModFromRedshift(redshift=0.1, **{which: bad}), f"{which}={bad!r}"))
            ctx.case(["bad separation", str(type(bad).__name__), which], lambda bad=bad, which=which: ctx.raises(ValueError, lambda: SNCoordGivenPhysicalSep(10.0, 20.0, 5.0, 0.1, **{which: bad}), f"{which}={bad!r}"))

    def frames(z, t0, shift):
        ctx.step()
        t = np.array([-10.0, 0.0, 35.5, 100]) + shift
        w = np.array([1000.0, 5555.5, 20000.0])
        kt, kw = t.copy(), w.copy()
        rt, rw = obs_to_rest_times_waves(t, w, z, t0)
        near(ctx, rt, [(x - t0) / (1 + z) + t0 for x in kt], f"rest frame times for z={z}, t0={t0}", 1e-12, 1e-9)
        near(ctx, rw, [x / (1 + z) for x in kw], "rest frame wavelengths", 1e-12)
        ctx.eq([t.tolist(), w.tolist()], [kt.tolist(), kw.tolist()], "inputs")
        m = np.array([[1.0, -2.0], [0.0, 4.0]])
        near(ctx, rest_to_obs_flux(m, z), m * (1 + z), "observed flux")
        ctx.eq(m.tolist(), [[1.0, -2.0], [0.0, 4.0]], "input flux")
        ctx.state((z, t0, shift))

    for z, t0, shift in itertools.product((0.0, 0.5, 3, 1e-3, -0.25, -1e-3), (0.0, 59000.5, -7), (0, 59000.0)):
        ctx.case(["frames", z, t0, shift], frames, z, t0, shift)

    def rates(zmin, zmax, nb, omega, h0, om):
        ctx.step()
        kw = {"zmin": zmin, "zmax": zmax, "znbins": nb, "solid_angle": omega, "H0": h0, "Omega_m": om}
        num, mean = num_snia_per_redshift_bin(**kw)
        edges = np.linspace(zmin, zmax, nb + 1)
        near(ctx, mean, (edges[1:] + edges[:-1]) / 2, "mean redshifts", 1e-9)
        sa = 4 * math.pi if omega is None else omega
        want = []
        x, w = np.polynomial.legendre.leggauss(12)
        for a, b in zip(edges[:-1], edges[1:]):
            tot = 0.0
            for xi, wi in zip(x, w):
                z = a + (b - a) * (xi + 1) / 2
                dv = C_KMS / h0 * comoving(z, h0, om) ** 2 / math.sqrt(om * (1 + z) ** 3 + 1 - om)
                tot += wi * (b - a) / 2 * 2.27e-5 * (1 + z) ** 1.7 * dv * sa * (h0 / 70) ** 3
            want.append(tot)
        near(ctx, num, want, f"numbers per bin for {kw}", 2e-3)
        ctx.state((zmin, zmax, nb, omega, h0, om))
        ctx.outcome("rates")

    for vals in itertools.product((0.001, 0.1), (0.5, 1.4, 10), (1, 3, 20), (None, 1.0, 0.01, 0.0), (73.0, 70), (0.3, 1.0)):
        if vals[2] > 1 or vals[1] < 10:
            ctx.case(["rates", vals], rates, *vals)
    for z in (0.0, 0.5, 1, 3.25):
        ctx.case(
            ["rate", z],
            lambda z=z: (near(ctx, snia_volumetric_rates(z), 2.27e-5 * (1 + z) ** 1.7, "rate"), near(ctx, snia_volumetric_rates(np.array([z, 2 * z])), [2.27e-5 * (1 + v) ** 1.7 for v in (z, 2 * z)], "rates")),
        )

    def eff(vals, conv):
        ctx.step()
        near(ctx, phot_eff_function(conv(vals)), [1.0 if v > 5 else 0.0 for v in vals], f"detection of {vals}")
        near(ctx, spec_eff_function(conv(vals)), [1 / (1 + math.exp(2.36 * v - 51.9)) for v in vals], f"follow-up of {vals}", 1e-9)

    for vals in itertools.product((4.9, 5, 5.0001, -3.0, 22.0, 30.0), repeat=3):
        for conv in (list, np.array):
            ctx.case(["efficiency", vals, conv.__name__], eff, vals, conv)

    def planck(temp, radius, ids):
        ctx.step()
        lam = [[3e-5, 5e-5, 2e-4, 1e-3][i] for i in ids]
        h, k = 6.62607015e-27, 1.380649e-16
        want = []
        for x in lam:
            nu = C_CM / x
            want.append(2 * h * nu**3 / C_CM**2 / math.expm1(h * nu / (k * temp)) * math.pi * radius**2)
        near(ctx, black_body_luminosity_density_per_solid(temp, radius, np.array(lam)), want, f"black body of {temp} K", 1e-8)
        ctx.state((temp, radius, ids))

    for temp, radius in itertools.product((3000, 5772.0, 30000.0), (6.957e10, 1e12)):
        for n in (1, 2, 3, 4):
            for ids in itertools.permutations(range(4), n):
                ctx.case(["black body", temp, radius, ids], planck, temp, radius, ids)


# ---------------------------------------------------------------------- supernova relations
def sec_snia(ctx):
    from scipy.special import ndtr

    from lightcurvelynx.astro_utils.agn_utils import eddington_ratio_dist_fun
    from lightcurvelynx.astro_utils.snia_utils import HostmassX1Distr, HostmassX1Func, SNCoordGivenPhysicalSep, X0FromDistMod
    from lightcurvelynx.base_models import FunctionNode
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    tripp = {"distmod": [40.0, 35, 44.25, 38.5], "x1": [0.0, 1.5, -2, 0.25], "c": [0.1, -0.9, 0.0, 1.3], "alpha": [0.14, 0.15, 0.1, 0], "beta": [3.1, 3, 2.5, 4.0], "m_abs": [-19.3, -19, -18.5, -19.4]}

    def x0(ids, fixed):
        ctx.step()
        cols = {k: [v[0] if k in fixed else v[i] for i in ids] for k, v in tripp.items()}
        args = {k: (v[0] if k in fixed or len(ids) == 1 else GivenValueList(v)) for k, v in cols.items()}
        st = X0FromDistMod(**args, node_label="x0").sample_parameters(num_samples=len(ids))
        want = []
        for k in range(len(ids)):
            p = {a: b[k] for a, b in cols.items()}
            want.append(10 ** (-0.4 * (p["distmod"] - p["alpha"] * p["x1"] + p["beta"] * p["c"] + p["m_abs"] - 10.635)))
        near(ctx, st["x0.function_node_result"], want if len(ids) > 1 else want[0], f"x0 of samples {ids}, fixed {fixed}")
        # the relation inverts to the distance modulus
        z = np.atleast_1d(st["x0.function_node_result"])
        back = [-2.5 * math.log10(z[k]) + cols["alpha"][k] * cols["x1"][k] - cols["beta"][k] * cols["c"][k] - cols["m_abs"][k] + 10.635 for k in range(len(ids))]
        near(ctx, back, cols["distmod"], "distance moduli", 1e-9)
        ctx.state((ids, fixed))
        ctx.outcome("x0")

    for n in (1, 2, 3, 4):
        for ids in itertools.permutations(range(4), n):
            for fixed in ((), ("alpha", "beta", "m_abs"), ("x1",), ("distmod", "c")):
                ctx.case(["x0", ids, fixed], x0, ids, fixed)

    # cumulative distributions of x1 by numeric integration
    grid = np.linspace(-9, 9, 36001)
    low = np.where((grid > -5) & (grid < 5), np.exp(-(np.minimum(0, grid) ** 2)), 0.0) * np.exp(-(grid**2) / 2)
    cum = np.concatenate([[0], np.cumsum((low[1:] + low[:-1]) / 2)])
    cum /= cum[-1]

    def cdf(x, mass):
        return float(np.interp(x, grid, cum)) if mass < 10 else float(ndtr(x))

    class Feed(FunctionNode):
        def __init__(self, buf):
            self.buf = buf
            super().__init__(lambda: None)

        def compute(self, graph_state, rng_info=None, **kwargs):
            n = graph_state.num_samples
            res = self.buf[0] if n == 1 else np.array(self.buf[:n], dtype=float)
            self._save_results(res, graph_state)
            return res

    def x1(masses, seed, mode, again):
        ctx.step()
        n = len(masses)
        node = node_for(masses, seed)
        for call in range(2 if again else 1):
            rng = np.random.default_rng(seed) if mode == "given" else None
            if call == 0:
                node.set_seed(seed)
                u = np.random.default_rng(seed)
            draws = (np.random.default_rng(seed) if mode == "given" else u).random(n)
            st = node.sample_parameters(num_samples=n, rng_info=rng)
            v = np.atleast_1d(st["x.function_node_result"])
            if not ctx.eq(v.shape, (n,), "number of values"):
                return
            got = sorted(cdf(x, m) for x, m in zip(v, masses))
            near(ctx, got, sorted(draws), f"quantiles of x1 {v.tolist()} in their own distributions, masses {masses}, {mode} generator, call {call}", 0, 3e-6)
        ctx.state((masses, seed, mode, again))
        ctx.outcome("x1")

    XN = {}

    def node_for(masses, seed):
        """One sampler serves all cases (building one is slow); its host masses come from a list that is refilled."""
        if not XN:
            XN["feed"] = []
            XN["node"] = HostmassX1Func(hostmass=Feed(XN["feed"]), seed=4, node_label="x")
        XN["feed"][:] = masses
        return XN["node"]

    for n in (1, 2, 3):
        for masses in itertools.product((9.0, 9.999, 10.0, 11, 7), repeat=n):
            for seed in (0, 1, 7):
                for mode in ("given", "own"):
                    ctx.case(["x1", masses, seed, mode], x1, masses, seed, mode, n < 3)

    def pdf(mass):
        ctx.step()
        xs = np.array([-6.0, -4.99, -1.0, 0.0, 0.5, 4.99, 5.5])
        want = [(1.0 if mass >= 10 else (math.exp(-(min(0, x) ** 2)) if -5 < x < 5 else 0.0)) * math.exp(-x * x / 2) / math.sqrt(2 * math.pi) for x in xs]
        near(ctx, HostmassX1Distr(mass).pdf(xs), want, f"density for mass {mass}")

    for mass in (5.0, 9.999, 10.0, 10, 12.5):
        ctx.case(["x1 pdf", mass], pdf, mass)

    HOSTS = [(0.0, 0.0), (359.999, 10.0), (120.0, -89.9), (45.0, 90.0), (200.0, 60.0), (10.0, -30.0)]

    def coords(ids, seps, zz, script, h0, om):
        ctx.step()
        n = len(ids)
        one = lambda v: GivenValueList(list(v)) if n > 1 else v[0]  # noqa: E731
        hra, hdec = [HOSTS[i][0] for i in ids], [HOSTS[i][1] for i in ids]
        sp, z = [seps[k % len(seps)] for k in range(n)], [zz[k % len(zz)] for k in range(n)]
        node = SNCoordGivenPhysicalSep(one(hra), one(hdec), one(sp), one(z), H0=h0, Omega_m=om, node_label="s")
        before = np.random.get_state()[1].tolist(), np.random.get_state()[2]
        st = node.sample_parameters(num_samples=n, rng_info=ScriptedRNG(script))
        after = np.random.get_state()[1].tolist(), np.random.get_state()[2]
        ctx.check(before == after, "numpy's global generator was used")
        ra, dec = np.atleast_1d(st["s.ra"]), np.atleast_1d(st["s.dec"])
        if not ctx.eq([ra.shape, dec.shape], [(n,), (n,)], "number of coordinates"):
            return
        pas = []
        for k in range(n):
            a0, d0, a1, d1 = (math.radians(v) for v in (hra[k], hdec[k], ra[k], dec[k]))
            ctx.check(0 <= ra[k] <= 360 and -90 <= dec[k] <= 90, lambda: f"coordinates {ra[k]}, {dec[k]}")
            hav = math.sin((d1 - d0) / 2) ** 2 + math.cos(d0) * math.cos(d1) * math.sin((a1 - a0) / 2) ** 2
            sep = 2 * math.asin(math.sqrt(min(1, hav)))
            want = sp[k] * 1e-3 / (comoving(z[k], h0, om) / (1 + z[k]))
            ctx.check(
                abs(sep - want) <= 1e-6 * want + (3e-8 if abs(hdec[k]) > 89.95 else 1e-12),  # arcsin loses digits at the pole
                lambda: f"separation of sample {k} {sep}, expected {want} (hosts {ids})",
            )
            if abs(hdec[k]) < 89 and sp[k] > 0:
                pa = math.atan2(math.sin(a1 - a0) * math.cos(d1), math.cos(d0) * math.sin(d1) - math.sin(d0) * math.cos(d1) * math.cos(a1 - a0))
                pas.append((pa / (2 * math.pi)) % 1.0)
        if len(pas) == n:
            for p, q in zip(sorted(pas), sorted(script[k % len(script)] for k in range(n))):
                ctx.check(min(abs(p - q), 1 - abs(p - q)) < 1e-6, lambda: f"position angles {pas} (turns), drew {script}")
        ctx.state((ids, seps, zz, script))
        ctx.outcome("coordinates")

    for n in (1, 2, 3):
        for ids in itertools.permutations(range(6), n):
            if n == 3 and sum(ids) % 2 and ctx.tier == "quick":
                continue
            for script in ((0.0625, 0.5, 0.8125), (0.25, 0.9375, 0.4375), (0.7, 0.1, 0.6)):
                ctx.case(["coords", ids, script], coords, ids, (1.0, 25, 0.125), (0.5, 0.01, 2.0), script, 70.0, 0.3)
    for h0, om, sep, z in itertools.product((73.0, 70), (0.3, 1), (5.0, 100), (0.001, 0.02, 1)):
        ctx.case(["coords cosmology", h0, om, sep, z], coords, (4,), (sep,), (z,), (0.3,), h0, om)

    def seeded(n, seed):
        ctx.step()
        mk = lambda: SNCoordGivenPhysicalSep(10.0, 20.0, 5.0, 0.1, seed=seed, node_label="s")  # noqa: E731
        a, b = mk(), mk()
        first = a.sample_parameters(num_samples=n)
        np.random.random(3)
        other = b.sample_parameters(num_samples=n)
        ctx.eq([np.ravel(first["s.ra"]).tolist(), np.ravel(first["s.dec"]).tolist()], [np.ravel(other["s.ra"]).tolist(), np.ravel(other["s.dec"]).tolist()], "equally seeded nodes")
        a.sample_parameters(num_samples=2)
        a.set_seed(seed)
        ctx.eq(np.ravel(a.sample_parameters(num_samples=n)["s.ra"]).tolist(), np.ravel(first["s.ra"]).tolist(), "after reseeding")

    for n, seed in itertools.product((1, 2, 5), (0, 1, 77)):
        ctx.case(["seeded", n, seed], seeded, n, seed)

    def edd(kind, ratio, q, n):
        ctx.step()
        from scipy.special import ndtri

        r = eddington_ratio_dist_fun(ratio, galaxy_type=kind, rng=ScriptedRNG([q]), num_samples=n)
        x = float(ndtri(q))
        red = kind.lower() == "red"
        xi = 10 ** (-2.13 if red else -1.65)
        lam = 10 ** ((-2.81 + 0.18 * x) if red else (-1.84 + 0.335 * x))
        d1 = (0.41 - 0.7 + 0.02 * x) if red else (0.471 - 0.7 + 0.02 * x)
        d2 = (1.22 + 0.16 * x) if red else (2.53 + 0.53 * x)
        want = xi * ((ratio / lam) ** d1 + (ratio / lam) ** d2)
        near(ctx, r, want if n == 1 else [want] * n, f"Eddington ratio distribution of {kind} at {ratio}", 1e-9)
        ctx.state((kind, ratio, q, n))

    for kind, ratio, q, n in itertools.product(("Red", "red", "rED", "RED", "Blue", "BLUE"), (0.001, 0.1, 1), (0.05, 0.5, 0.9), (1, 2, 3)):
        ctx.case(["eddington", kind, ratio, q, n], edd, kind, ratio, q, n)
    for kind in ("green", "", "reddish"):
        ctx.case(["eddington", kind], lambda kind=kind: ctx.raises(ValueError, lambda: eddington_ratio_dist_fun(0.1, galaxy_type=kind), kind))


SECTIONS = [
    ("units", sec_units, (2, 2)),
    ("zeropoint", sec_zeropoint, (2, 2)),
    ("cosmology", sec_cosmology, (8, 8)),
    ("snia", sec_snia, (4, 4)),
]
