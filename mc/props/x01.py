"""X01: the end-to-end SN Ia run gives each supernova its own observations, fluxes and noise, from the given generator alone."""

import itertools
import os
import tempfile
from pathlib import Path

import numpy as np

from mc.props.m07 import PH, WV, salt, salt_dir

ID = "X01"
RULE = (
    "every sequence of runs (seed, number of supernovae, survey) to the bound, and every survey layout, number of samples and way of giving the "
    "state, and every number of supernovae that a solid angle implies, with a small SALT template as the salt3 source; every supernova of every run is compared with the model, survey and filters evaluated directly"
)
ASSUMPTIONS = ["the template of the salt3 source is a small one written for the check (sncosmo cannot download its own)", "sncosmo's splines are taken as given"]

BANDS = {"g": (400.0, 550.0), "r": (550.0, 690.0)}


def prepare():
    import sncosmo

    sncosmo.register(sncosmo.SALT2Source(modeldir=str(salt_dir())), name="salt3", force=True)
    d = Path(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    (d / "LSST").mkdir()
    for f, (a, b) in BANDS.items():
        w = np.linspace(a, b, 31)
        np.savetxt(d / "LSST" / f"{f}.dat", np.column_stack([w, np.sin(np.pi * (w - a) / (b - a)) * 0.5]))
    return d


def survey(kind):
    from lightcurvelynx.obstable.opsim import OpSim

    n = {"dense": 150, "sparse": 40, "split": 120, "away": 30, "few": 4}[kind]
    k = np.arange(n)
    ra = np.zeros(n)
    if kind == "split":  # every other field is too far away, or near enough for some supernovae only
        ra = np.array([0.0, 1.7, 90.0, 1.5])[k % 4]
    if kind == "away":
        ra += 120.0
    return OpSim(
        {
            "observationId": k,
            "fieldRA": ra,
            "fieldDec": np.zeros(n),
            "observationStartMJD": 61406.0 + {"dense": 1.0, "sparse": 7.3, "split": 2.1, "away": 5.0, "few": 80.0}[kind] * ((k * 7) % n),
            "filter": np.array(["g", "r", "r"])[k % 3],
            "airmass": 1.0 + 0.01 * (k % 20),
            "visitExposureTime": 30.0 + (k % 2),
            "numExposures": 1 + (k % 2),
            "seeingFwhmEff": 0.8 + 0.05 * (k % 5),
            "skyBrightness": 20.0 + 0.1 * (k % 10),
        }
    )


def verify(ctx, res, ops, passbands, what):
    """One supernova against the state it was drawn with."""
    from astropy.cosmology import FlatLambdaCDM

    st = res["state"]
    s = st["source"]
    par = {k: float(s[k]) for k in ("x0", "x1", "c", "redshift", "t0")}
    ra, dec, z, t0 = float(s["ra"]), float(s["dec"]), par["redshift"], par["t0"]
    if "parameter_values" in res:
        p = res["parameter_values"]
        for k in ("t0", "x0", "x1", "c", "redshift", "ra", "dec"):
            ctx.eq(p[k], float(s[k]), f"{what}: parameter {k}")
        ctx.eq(float(p["hostmass"]), float(st["host.hostmass"]), f"{what}: host mass")
        ctx.eq(float(p["distmod"]), float(st["x0_func.distmod"]), f"{what}: distance modulus")
    x0f = st["x0_func"]
    ctx.eq(float(x0f["distmod"]), float(FlatLambdaCDM(H0=73.0, Om0=0.3).distmod(z).value), f"{what}: distance modulus", 1e-9)
    mb = float(x0f["distmod"]) + float(x0f["m_abs"]) - 0.14 * par["x1"] + 3.1 * par["c"]
    ctx.eq(par["x0"], 10 ** (-0.4 * (mb - 10.635)), f"{what}: x0", 1e-6)
    ctx.eq(float(st["host.redshift"]), z, f"{what}: the host's redshift")
    ctx.check(0.1 <= z <= 0.4 and 7 <= float(st["host.hostmass"]) <= 12 and abs(float(st["host.ra"])) <= 0.5 and abs(float(st["host.dec"])) <= 0.5, f"{what}: ranges")
    ctx.check(abs(ra - float(st["host.ra"])) < 0.1 and abs(dec - float(st["host.dec"])) < 0.1, f"{what}: the supernova is not at its host")
    table = {c: np.asarray(ops[c]) for c in ("ra", "dec", "time", "filter")}
    sep = np.degrees(np.arccos(np.clip(
        np.sin(np.radians(dec)) * np.sin(np.radians(table["dec"])) + np.cos(np.radians(dec)) * np.cos(np.radians(table["dec"])) * np.cos(np.radians(table["ra"] - ra)), -1, 1
    )))  # fmt: skip
    phase = table["time"] - t0
    seen = np.flatnonzero((sep <= 1.75) & (phase > -20 * (1 + z)) & (phase < 50 * (1 + z)))
    key = lambda t, f: sorted(zip(map(float, t), map(str, f)))  # noqa: E731
    ctx.eq(key(res["times"], res["filters"]), key(table["time"][seen], ["LSST_" + f for f in table["filter"][seen]]), f"{what}: observations")
    waves = passbands.waves
    ctx.eq(np.asarray(res["wavelengths_rest"]), waves / (1 + z), f"{what}: rest-frame wavelengths", 1e-12)
    ctx.eq(np.asarray(res["flux_nJy"]).shape, (len(seen), len(waves)), f"{what}: shape of the fluxes")
    if not len(seen):
        ctx.outcome("unseen")
        return
    cols = list(range(0, len(waves), 211))
    rows = list(range(0, len(res["times"]), 5))
    want = np.array([[salt(par, res["times"][i], waves[c]) if WV[0] <= waves[c] / (1 + z) <= WV[-1] else 0.0 for c in cols] for i in rows])
    edge = np.max(np.abs(np.asarray(res["flux_nJy"])))
    ctx.check(np.allclose(np.asarray(res["flux_nJy"])[rows][:, cols], want, rtol=1e-5, atol=1e-6 * edge), f"{what}: fluxes")
    ctx.eq(np.asarray(res["flux_fnu"]), np.asarray(res["flux_nJy"]), f"{what}: flux_fnu")
    ctx.eq(np.asarray(res["flux_flam"]), np.asarray(res["flux_nJy"]) * 1e-32 * 2.99792458e18 / waves**2, f"{what}: flux_flam", 1e-9, 1e-40)
    for j, f in enumerate(res["filters"]):
        p = passbands[str(f)]
        inds = np.searchsorted(waves, p.waves)
        ctx.eq(float(res["bandfluxes_perfect"][j]), float(p.fluxes_to_bandflux(np.asarray(res["flux_nJy"])[j : j + 1, inds])[0]), f"{what}: band flux {j}", 1e-6, 1e-9 * edge)
    order = [int(np.flatnonzero(table["time"] == t)[0]) for t in res["times"]]
    ctx.eq(np.asarray(res["bandfluxes_error"]), np.asarray(ops.bandflux_error_point_source(res["bandfluxes_perfect"], np.array(order))), f"{what}: flux errors", 1e-9)
    pull = np.asarray((np.asarray(res["bandfluxes"]) - res["bandfluxes_perfect"]) / res["bandfluxes_error"])
    pull = pull[np.isfinite(np.asarray(res["bandfluxes_error"]))]  # the template can be negative, where no error is defined
    ctx.check(np.all(np.abs(pull) < 8) and np.all(pull != 0), f"{what}: noise")
    ctx.check(len(set(pull.tolist())) == len(pull), f"{what}: observations share their noise")
    ctx.outcome("seen")


def digest(res_list):
    keys = ("times", "filters", "flux_nJy", "bandfluxes_perfect", "bandfluxes_error", "bandfluxes")
    return [{**{k: repr(np.asarray(r[k]).tolist()) for k in keys}, **{k: float(v) for k, v in r.get("parameter_values", {}).items()}} for r in res_list]


def global_state():
    s = np.random.get_state()
    return s[0], s[1].tolist(), s[2:]


def sec_runs(ctx):
    from lightcurvelynx.example_runs.simulate_snia import run_snia_end2end

    d = prepare()
    alone = {}

    def run(seed, n, kind):
        rng = None if seed is None else np.random.default_rng(seed)
        return run_snia_end2end(survey(kind), d, nsample=n, rng_info=rng)

    def go(n, kind, seed, compare):
        ctx.step()
        ops = survey(kind)
        before = {c: list(ops[c]) for c in ops.columns}
        g = global_state()
        res, pbs = run_snia_end2end(ops, d, nsample=n, rng_info=np.random.default_rng(seed), check_sncosmo=compare)
        ctx.check(global_state() == g, "the process-wide generator was used")
        ctx.eq(len(res), n, "supernovae")
        ctx.eq(sorted(p.full_name for p in pbs), ["LSST_g", "LSST_r"], "passbands")
        ctx.check({c: list(ops[c]) for c in ops.columns} == before, "the survey was changed")
        for k, r in enumerate(res):
            verify(ctx, r, ops, pbs, f"supernova {k} of {n} ({kind}, seed {seed})")
        zs = [r["parameter_values"]["redshift"] for r in res]
        ctx.eq(len(set(zs)), n, "different redshifts")
        ctx.state((n, kind, seed, compare))

    for n, kind, seed in itertools.product((1, 4), ("dense", "sparse", "split", "away"), range(ctx.pick(1, 6))):
        for compare in (False, True):
            if not (compare and (kind == "away" or n == 1)):
                ctx.case(["run", n, kind, seed, compare], go, n, kind, seed, compare)

    def history(hist):
        ctx.step()
        for step in hist:
            res, _ = run(*step)
            if step[0] is None:
                continue
            if step not in alone:
                alone[step] = digest(run(*step)[0])
            ctx.check(digest(res) == alone[step], f"run {step} in {hist} differs from the run with the same generator alone")
        ctx.state(hist)
        ctx.outcome("history")

    steps = [(1, 2, "dense"), (2, 2, "dense"), (1, 1, "split"), (None, 1, "dense")]
    for a, b in itertools.combinations(steps[:2], 2):
        ctx.case(["differ", a, b], lambda: ctx.check(digest(run(*a)[0]) != digest(run(*b)[0]), "different generators give the same run"))
    for depth in range(1, ctx.pick(3, 4)):
        for hist in itertools.product(steps, repeat=depth):
            if hist[-1][0] is not None:
                ctx.case(["history", hist], history, hist)


def sec_single(ctx):
    """Single supernovae, with the state given or drawn, from one generator, in any order."""
    from scipy.interpolate import interp1d

    from lightcurvelynx.example_runs.simulate_snia import construct_snia_source, draw_single_random_sn, load_and_register_passband

    d = prepare()

    def go(kind, hist):
        ctx.step()
        ops = survey(kind)
        z = np.linspace(0.1, 0.4, 11)
        source = construct_snia_source(ops, interp1d(z, 1 + z, bounds_error=False, fill_value=0))
        pbs = load_and_register_passband(d, ["g", "r"])
        states = source.sample_parameters(num_samples=2, rng_info=np.random.default_rng(5))
        first = {}
        for step in hist:
            if step == "draw":
                got = [draw_single_random_sn(source, ops, pbs, rng_info=np.random.default_rng(3)) for _ in range(2)]
                ctx.check(digest(got[:1]) == digest(got[1:]), "draws with equal generators differ")
            else:
                st = states.extract_single_sample(step)
                got = [draw_single_random_sn(source, ops, pbs, state=st, rng_info=np.random.default_rng(step)) for _ in range(2)]
                ctx.check(digest(got[:1]) == digest(got[1:]), "noise with equal generators differs")
                ctx.check(got[0]["state"] == st, "another state was used")
            if step in first:
                ctx.check(digest(got) == first[step], f"step {step} of {hist} differs from before")
            first[step] = digest(got)
            verify(ctx, got[0], ops, pbs, f"{step} of {hist} ({kind})")
        ctx.state((kind, hist))

    for kind in ("dense", "split", "few"):
        for depth in range(1, ctx.pick(3, 5)):
            for hist in itertools.product((0, 1, "draw"), repeat=depth):
                ctx.case(["single", kind, hist], go, kind, hist)

    def bands(use):
        ctx.step()
        if not use:
            ctx.raises(ValueError, lambda: load_and_register_passband(d, list(use)), "no passbands")
        else:
            import sncosmo

            pbs = load_and_register_passband(d, list(use))
            ctx.eq([p.full_name for p in pbs], [f"LSST_{f}" for f in use], "passbands")
            for f in use:
                b = sncosmo.get_bandpass(f"lightcurvelynx_LSST_{f}")
                w = pbs[f"LSST_{f}"].waves
                ctx.check(np.allclose(b(w), pbs[f"LSST_{f}"].processed_transmission_table[:, 1], rtol=1e-9), "the band registered with sncosmo")
                lo, hi = (10 * x for x in BANDS[f])
                ctx.check(lo <= w[0] < lo + 100 and hi - 100 < w[-1] <= hi and np.allclose(np.diff(w), 1.0), "wavelengths of the passband")
        ctx.state(("bands", use))
        ctx.outcome("bands")

    for k in range(3):
        for use in itertools.permutations("gr", k):
            ctx.case(["bands", use], bands, use)


def sec_rates(ctx):
    """Without a number of supernovae, the rate of supernovae and the solid angle decide how many there are."""
    import contextlib
    import io

    from astropy.cosmology import FlatLambdaCDM
    from lightcurvelynx.example_runs.simulate_snia import run_snia_end2end
    from scipy.integrate import quad

    d = prepare()
    cosmo = FlatLambdaCDM(H0=70.0, Om0=0.3)
    # per steradian and year between redshifts 0.1 and 0.4
    per_sr = quad(lambda z: 2.27e-5 * (1 + z) ** 1.7 * cosmo.differential_comoving_volume(z).value, 0.1, 0.4)[0]

    def go(count, part, kind, seed):
        ctx.step()
        ops = survey(kind)
        angle = (count + part) / per_sr
        with contextlib.redirect_stdout(io.StringIO()):
            res, pbs = run_snia_end2end(ops, d, solid_angle=angle, nsample=None, rng_info=np.random.default_rng(seed))
            ctx.eq(len(res), count, f"supernovae in {angle} sr")
            fixed, _ = run_snia_end2end(ops, d, solid_angle=angle, nsample=count, rng_info=np.random.default_rng(seed))
        ctx.check(digest(res) == digest(fixed), "the supernovae depend on how their number was given")
        for k, r in enumerate(res):
            verify(ctx, r, ops, pbs, f"supernova {k} of {count} ({kind}, seed {seed}, by rate)")
        ctx.state((count, part, kind, seed))
        ctx.outcome("rate")

    for count in range(1, ctx.pick(4, 8)):
        for part in (0.05, 0.5, 0.95):
            kind = ("dense", "split")[count % 2]
            ctx.case(["rate", count, part, kind], go, count, part, kind, count)


SECTIONS = [("rates", sec_rates), ("runs", sec_runs, 4), ("single", sec_single)]
