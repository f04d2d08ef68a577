"""O04: every observation's zero point and flux error come from its own row and the survey's configured values."""

import itertools
import math
from unittest import mock

import numpy as np
import pandas as pd
from mc import memory

ID = "O04"
RULE = (
    "for every table class: every combination of overridden survey values, every way the per-observation values can be "
    "given, every selection of up to three rows in any order, before and after edits of the table, against row-by-row "
    "formulas in plain Python; a state is (class, configuration, edit, row selection)"
)
ASSUMPTIONS = ["the Roman characterization tables are stand-ins (they are downloaded by the code)"]

AREA = math.pi / (2 * math.log(2))
EXT = {"u": -0.458, "g": -0.208, "r": -0.122, "i": -0.074, "z": -0.057, "y": -0.095}
ZP0 = {"u": 26.524, "g": 28.508, "r": 28.361, "i": 28.171, "z": 27.782, "y": 26.818}
FLUX = [0.0, 150.0, 2.0e5, 33.0, 1.0, -3.0]


def nJy(mag):
    return 10.0 ** (-0.4 * (mag - 31.4))


def poisson_var(f, t, n, a, sky, zp, rn, dc):
    return f / zp + sky * a + rn**2 * a * n + dc * t * a


def poisson(f, zp, sky, area, nexp, read, dark, exptime, read_total=None):
    rv = read_total**2 if read_total is not None else read**2 * area * nexp
    return math.sqrt(f / zp + sky * area + rv + dark * exptime * area) * zp


# ------------------------------------------------------------------ the five kinds of table
BANDS = ["g", "r", "u", "r", "y"]
OPS = {
    "fieldRA": [10.0, 20.0, 30.0, 40.0, 50.0],
    "fieldDec": [1.0, 2.0, 3.0, 4.0, 5.0],
    "observationStartMJD": [5.0, 4.0, 3.0, 2.0, 1.0],
    "filter": BANDS,
    "airmass": [1.0, 1.3, 2.0, 1.1, 1.5],
    "visitExposureTime": [30.0, 15.0, 29.2, 60.0, 1.0],
    "numExposures": [1, 2, 2, 1, 4],
    "seeingFwhmEff": [0.8, 0.7, 1.0, 1.3, 0.9],
    "skyBrightness": [21.0, 22.0, 20.5, 19.0, 23.0],
}
ZTF = {
    "ra": OPS["fieldRA"],
    "dec": OPS["fieldDec"],
    "obsmjd": OPS["observationStartMJD"],
    "filter": ["g", "r", "i", "r", "g"],
    "maglim": [20.0, 20.7, 19.5, 21.0, 20.1],
    "scibckgnd": [100.0, 150.0, 130.0, 180.0, 90.0],
    "fwhm": [2.0, 2.5, 1.5, 3.0, 1.8],
    "exptime": [30.0, 60.0, 30.0, 45.0, 30.0],
}
FAKE = {"ra": OPS["fieldRA"], "dec": OPS["fieldDec"], "time": OPS["observationStartMJD"], "filter": ["g", "r", "i", "r", "g"]}


def opsim_zp(i, sv):
    ext, zp0 = sv.get("ext_coeff", EXT), sv.get("zp_per_sec", ZP0)
    b = BANDS[i]
    return nJy(zp0[b] + ext[b] * (OPS["airmass"][i] - 1) + 2.5 * math.log10(OPS["visitExposureTime"][i]))


def opsim_err(i, f, sv, zp=None):
    zp = opsim_zp(i, sv) if zp is None else zp
    px = sv.get("pixel_scale", 0.2)
    return poisson(
        f, zp, nJy(OPS["skyBrightness"][i]) * px**2 / zp, AREA * (OPS["seeingFwhmEff"][i] / px) ** 2, OPS["numExposures"][i],
        sv.get("read_noise", 8.8), sv.get("dark_current", 0.2), OPS["visitExposureTime"][i],
    )  # fmt: skip


def ztf_zp(i, sv):
    g, r, d = sv.get("gain", 6.2), sv.get("read_noise", 8), sv.get("dark_current", 0.0)
    npix = 2.266 * ZTF["fwhm"][i] ** 2
    flux = 12.5 + 0.5 * math.sqrt(625 + 100 * (ZTF["scibckgnd"][i] * npix * g + r**2 * npix + d * npix * ZTF["exptime"][i]))
    return nJy(2.5 * math.log10(flux) + ZTF["maglim"][i])


def ztf_err(i, f, sv, zp=None):
    g, r, d = sv.get("gain", 6.2), sv.get("read_noise", 8), sv.get("dark_current", 0.0)
    zp = ztf_zp(i, sv) if zp is None else zp
    return poisson(f, zp, ZTF["scibckgnd"][i] * g, AREA * ZTF["fwhm"][i] ** 2, 1, r, d, ZTF["exptime"][i])


def check_rows(ctx, t, keep, zp_of, err_of, what):
    """All selections of up to three rows, in every order, as list and as array."""
    n = len(keep)
    ctx.eq(len(t), n, f"{what}: rows")
    ctx.eq(np.asarray(t["zp"], dtype=float), np.array([zp_of(i) for i in keep]), f"{what}: zero points")
    sels = [sel for k in range(1, ctx.pick(3, 4)) for sel in itertools.product(range(n), repeat=k)]
    if ctx.tier == "quick":
        sels += list(itertools.permutations(range(n), 3))[::7]
    for sel in sels:
        flux = [FLUX[(s + j) % len(FLUX)] for j, s in enumerate(sel)]
        want = [err_of(keep[s], f) for s, f in zip(sel, flux)]
        for idx in (list(sel), np.array(sel)) if ctx.tier != "quick" else ([list(sel)] if sum(sel) % 2 else [np.array(sel)]):
            got = t.bandflux_error_point_source(np.array(flux), idx)
            ctx.eq(np.asarray(got, dtype=float), np.array(want), f"{what}: flux errors of rows {sel} for {flux}")
            ctx.step()
    ctx.state((what, keep))


def edits(make, keep=None):
    """Tables that were edited after construction: (name, table, rows left)."""
    keep = list(range(5)) if keep is None else keep
    yield "fresh", make(None), keep
    yield "odd index", make([9, 3, 3, 0, 1]), keep
    t = make(None)
    mask = np.array([i % 2 == 0 for i in range(len(keep))])
    t.filter_rows(mask)
    yield "filtered", t, [k for k, m in zip(keep, mask) if m]
    t = make([4, 3, 2, 1, 0])
    t.filter_rows(mask)
    t.filter_rows(np.array([False] + [True] * (int(mask.sum()) - 1)))
    yield "twice", t, [k for k, m in zip(keep, mask) if m][1:]


def df(data, index):
    out = pd.DataFrame(data)
    if index is not None:
        out.index = index
    return out


# ------------------------------------------------------------------ sections
def sec_opsim(ctx):
    from lightcurvelynx.obstable.opsim import OpSim

    over = {
        "read_noise": 3.0,
        "dark_current": 1.5,
        "pixel_scale": 0.4,
        "ext_coeff": {b: -0.1 * (k + 1) for k, b in enumerate("ugrizy")},
        "zp_per_sec": {b: 25.0 + k for k, b in enumerate("ugrizy")},
    }
    for k in range(len(over) + 1):
        for keys in itertools.combinations(over, k):
            sv = {c: over[c] for c in keys}

            def go(sv=sv):
                for name, t, keep in edits(lambda index: OpSim(df(OPS, index), **sv)):
                    check_rows(ctx, t, keep, lambda i: opsim_zp(i, sv), lambda i, f: opsim_err(i, f, sv), f"OpSim {sorted(sv)} {name}")
                ctx.outcome("opsim")

            ctx.case({"opsim": sorted(keys)}, go)

    def given():
        zp = [0.5, 1.5, 2.5, 3.5, 4.5]
        for col in ("zp", "zp_nJy"):
            for name, t, keep in edits(lambda index: OpSim(df({**OPS, col: zp}, index))):
                check_rows(ctx, t, keep, lambda i: zp[i], lambda i, f: opsim_err(i, f, {}, zp[i]), f"OpSim with {col} {name}")
        ctx.outcome("zp given")

    ctx.case({"opsim": "zp column"}, given)
    for missing in ("filter", "airmass", "visitExposureTime"):
        data = {k: v for k, v in OPS.items() if k != missing}
        ctx.case({"opsim missing": missing}, ctx.raises, ValueError, lambda d=data: OpSim(d), f"zero points without {missing}")


def sec_ztf(ctx):
    from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable

    over = {"read_noise": 3.0, "dark_current": 1.5, "gain": 2.0}
    for k in range(len(over) + 1):
        for keys in itertools.combinations(over, k):
            sv = {c: over[c] for c in keys}
            for holes in ([], [0], [1, 3], [4]):

                def go(sv=sv, holes=holes):
                    data = {**ZTF, "fwhm": ["" if i in holes else v for i, v in enumerate(ZTF["fwhm"])]}
                    if not holes:
                        # Rows that lack an unrelated value stay.
                        data = {**ZTF, "note": ["a", "", None, "b", ""], "quality": [1.0, float("nan"), 2.0, float("nan"), 3.0]}
                    keep0 = [i for i in range(5) if i not in holes]
                    for name, t, keep in edits(lambda index: ZTFObsTable(df(data, index), **sv), keep0):
                        check_rows(ctx, t, keep, lambda i: ztf_zp(i, sv), lambda i, f: ztf_err(i, f, sv), f"ZTF {sorted(sv)} {holes} {name}")
                        for q in keep:
                            got = t.get_observations(ZTF["ra"][q], ZTF["dec"][q], radius=0.1, cols=["time", "zp"])
                            ctx.eq(got["time"], np.array([ZTF["obsmjd"][q]]), f"ZTF {holes} {name}: observation of row {q}")
                            ctx.eq(np.asarray(got["zp"], dtype=float), np.array([ztf_zp(q, sv)]), f"ZTF {holes} {name}: its zero point")
                    ctx.outcome("ztf")

                ctx.case({"ztf": sorted(keys), "holes": holes}, go)

    def dates():
        data = {k: v for k, v in ZTF.items() if k != "obsmjd"}
        data["obsdate"] = ["2018-03-25 12:00:00.000", "2018-03-25 00:00:00.000", "2000-01-01 12:00:00.000", "2018-03-26 06:00:00.000", "2018-03-24 18:00:00.000"]
        want = [58202.5, 58202.0, 51544.5, 58203.25, 58201.75]
        for src in (data, pd.DataFrame(data)):
            t = ZTFObsTable(src)
            ctx.eq(np.asarray(t["time"], dtype=float), np.array(want), "times from dates")
            ctx.check("obsmjd" not in src, "the caller's table got a new column")
        both = ZTFObsTable({**data, "obsmjd": ZTF["obsmjd"]})
        ctx.eq(np.asarray(both["time"], dtype=float), np.array(ZTF["obsmjd"]), "given times are kept")
        ctx.outcome("dates")

    ctx.case({"ztf": "dates"}, dates)
    for missing in ("maglim", "scibckgnd", "fwhm", "exptime"):
        data = {k: v for k, v in ZTF.items() if k != missing}
        ctx.case({"ztf missing": missing}, ctx.raises, ValueError, lambda d=data: ZTFObsTable(d), f"zero points without {missing}")


PER_BAND = {"g": 2.0, "r": 3.0, "i": 5.0}


def fake_value(how, base, i):
    """(keyword or None, column or None, value of row i)."""
    b = FAKE["filter"][i]
    return {"const": base, "dict": base * PER_BAND[b], "column": base + 0.25 * i}[how]


def sec_fake(ctx):
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable

    names = {"sky": 10.0, "fwhm_px": 1.5, "psf_footprint": 4.0, "exptime": 20.0, "nexposure": 2}
    hows = {
        "sky": ("const", "dict", "column"),
        "psf": ("fwhm const", "fwhm dict", "fwhm column", "psf const", "psf dict", "psf column", "both"),
        "exptime": ("default", "const", "dict", "column"),
        "nexposure": ("default", "const", "column"),
        "zp": ("dict", "column"),
        "rd": ((None, None), (3.0, None), (None, 0.7), (2.0, 0.4)),
    }
    n = 0
    for combo in itertools.product(*hows.values()):
        sky, psf, ex, ne, zp, (read, dark) = combo
        n += 1
        if ctx.tier == "quick" and n % 5 and not (sky == ex == "dict" or zp == "column" and ne == "column"):
            continue  # the quick tier keeps every fifth configuration and all of two slices

        def go(combo=combo):
            sky, psf, ex, ne, zp, (read, dark) = combo
            data, kw, val = {k: list(v) for k, v in FAKE.items()}, {}, {}

            def put(name, how, base):
                if how == "column":
                    data[name] = [fake_value("column", base, i) for i in range(5)]
                elif how == "const":
                    kw[name] = base
                else:
                    kw[name] = {b: base * v for b, v in PER_BAND.items()}
                val[name] = [fake_value(how, base, i) for i in range(5)]

            put("sky", sky, names["sky"])
            if psf == "both":
                put("fwhm_px", "const", 9.0)
                put("psf_footprint", "const", 4.0)
            elif psf.startswith("fwhm"):
                put("fwhm_px", psf[5:], names["fwhm_px"])
                val["psf_footprint"] = [AREA * v**2 for v in val["fwhm_px"]]
            else:
                put("psf_footprint", psf[4:], names["psf_footprint"])
            val["exptime"], val["nexposure"] = [30.0] * 5, [1] * 5
            if ex != "default":
                put("exptime", ex, names["exptime"])
            if ne != "default":
                put("nexposure", ne, names["nexposure"])
            if zp == "dict":
                kw["zp_per_band"] = {b: 0.5 * v for b, v in PER_BAND.items()}
                val["zp"] = [0.5 * PER_BAND[b] for b in FAKE["filter"]]
            else:
                data["zp"] = [0.3 + 0.1 * i for i in range(5)]
                val["zp"] = data["zp"]
            if read is not None:
                kw["read_noise"] = read
            if dark is not None:
                kw["dark_current"] = dark

            def err(i, f):
                return poisson(f, val["zp"][i], val["sky"][i], val["psf_footprint"][i], val["nexposure"][i], read or 0, dark or 0, val["exptime"][i])

            for name, t, keep in edits(lambda index: FakeObsTable(df(data, index), **kw)):
                check_rows(ctx, t, keep, lambda i: val["zp"][i], err, f"Fake {combo} {name}")
            ctx.outcome("fake")

        ctx.case({"fake": [list(c) if isinstance(c, tuple) else c for c in combo]}, go)

    def const():
        for c in (0.0, 7, 2.5, {"g": 1.0, "r": 2.0, "i": 0.0}, {"g": 1.0, "r": 2.0, "i": 3.0, "z": 4.0}):
            for name, t, keep in edits(lambda index: FakeObsTable(df(FAKE, index), const_flux_error=c, zp_per_band=PER_BAND)):
                check_rows(
                    ctx, t, keep, lambda i: PER_BAND[FAKE["filter"][i]],
                    lambda i, f: float(c[FAKE["filter"][i]] if isinstance(c, dict) else c), f"constant error {c} {name}",
                )  # fmt: skip
        ctx.outcome("constant")

    ctx.case({"fake": "constant"}, const)
    ok = {"zp_per_band": PER_BAND, "sky": 10.0, "fwhm_px": 2.0}
    bad = {
        "no sky": {"zp_per_band": PER_BAND, "fwhm_px": 2.0},
        "no psf": {"zp_per_band": PER_BAND, "sky": 10.0},
        "no zp": {"sky": 10.0, "fwhm_px": 2.0},
        "zp incomplete": {**ok, "zp_per_band": {"g": 1.0, "r": 1.0}},
        "zp negative": {**ok, "zp_per_band": {"g": 1.0, "r": 1.0, "i": -1.0}},
        "zp zero": {**ok, "zp_per_band": {"g": 1.0, "r": 0.0, "i": 1.0}},
        "sky incomplete": {**ok, "sky": {"g": 1.0, "r": 1.0}},
        "fwhm negative": {**ok, "fwhm_px": -1.0},
        "fwhm one negative": {**ok, "fwhm_px": {"g": 1.0, "r": 1.0, "i": -1.0}},
        "psf zero": {**ok, "psf_footprint": 0.0},
        "exptime none": {**ok, "exptime": None},
        "exptime zero": {**ok, "exptime": 0},
        "nexposure none": {**ok, "nexposure": None},
        "nexposure negative": {**ok, "nexposure": -1},
        "sky text": {**ok, "sky": {"g": 1.0, "r": "x", "i": 1.0}},
        "error negative": {"zp_per_band": PER_BAND, "const_flux_error": -1.0},
        "error incomplete": {"zp_per_band": PER_BAND, "const_flux_error": {"g": 1.0, "r": 1.0}},
        "error for no filter": {"zp_per_band": PER_BAND, "const_flux_error": {}},
        **{f"error without {f}": {"zp_per_band": PER_BAND, "const_flux_error": {x: 1.0 for x in "gri" if x != f}} for f in "gri"},
        **{f"{key} without {f}": {**ok, key: {x: 1.0 for x in "gri" if x != f}} for f in "gri" for key in ("sky", "fwhm_px", "exptime", "nexposure", "zp_per_band")},
        "error one negative": {"zp_per_band": PER_BAND, "const_flux_error": {"g": 1.0, "r": -1.0, "i": 1.0}},
    }
    for name, kw in bad.items():
        ctx.case({"fake bad": name}, ctx.raises, ValueError, lambda kw=kw: FakeObsTable(dict(FAKE), **kw), name)
    def gaps():
        # A column of the table is used as it is, even if some of its values are missing; survey-wide values do not fill it.
        nan = float("nan")
        for name, kwval in (("sky", 10.0), ("exptime", 20.0), ("nexposure", 2), ("psf_footprint", 4.0)):
            base = {"sky": 10.0, "exptime": 20.0, "nexposure": 2, "psf_footprint": 4.0}
            col = [float(base[name]) + i for i in range(5)]
            col[2] = nan
            kw = {"zp_per_band": PER_BAND, **base}
            for given in (True, False):
                args = dict(kw)
                if not given:
                    args.pop(name)
                val = {k: [float(v)] * 5 for k, v in base.items()}
                val[name] = col
                for what, t, keep in edits(lambda index: FakeObsTable(df({**FAKE, name: col}, index), **args)):
                    for k, i in enumerate(keep):
                        got = float(np.ravel(t.bandflux_error_point_source(np.array([FLUX[i]]), [k]))[0])
                        want = poisson(FLUX[i], PER_BAND[FAKE["filter"][i]], val["sky"][i], val["psf_footprint"][i], val["nexposure"][i], 0, 0, val["exptime"][i])
                        ctx.eq(got, want, f"{name} missing in row 2, given for the survey: {given}, {what}: error of row {i}")
                        ctx.step()
        ctx.outcome("gaps")

    ctx.case({"fake": "gaps"}, gaps)

    def names():
        # Names that contain each other, or differ by case, are different bands.
        bands = ["r", "r2", "R", "ar", "r"]
        for order in (["r", "r2", "R", "ar"], ["ar", "R", "r2", "r"]):
            zps, skies = ({b: s * (k + 1) for k, b in enumerate(sorted(order))} for s in (0.5, 10.0))
            data = {**FAKE, "filter": bands}
            t = FakeObsTable(data, zp_per_band={b: zps[b] for b in order}, sky={b: skies[b] for b in order}, psf_footprint=4.0)
            want = [poisson(9.0, zps[b], skies[b], 4.0, 1, 0, 0, 30.0) for b in bands]
            ctx.eq(np.asarray(t["zp"], dtype=float), np.array([zps[b] for b in bands]), f"zero points of {order}")
            ctx.eq(np.asarray(t.bandflux_error_point_source(np.full(5, 9.0), list(range(5))), dtype=float), np.array(want), f"errors of {order}")
            c = FakeObsTable(data, zp_per_band=zps, const_flux_error={b: skies[b] for b in order})
            ctx.eq(np.asarray(c.bandflux_error_point_source(np.full(5, 9.0), list(range(5))), dtype=float), np.array([skies[b] for b in bands]), f"constant errors of {order}")
            ctx.step()
        ctx.outcome("names")

    ctx.case({"fake": "names"}, names)

    def formula():
        # The noise formula itself, for every mix of scalars, arrays and zero or fractional terms.
        from lightcurvelynx.astro_utils.noise_model import poisson_bandflux_std

        grid = {"f": (-2.0, 0.0, 900.0), "t": (0.0, 0.5, 30.0), "n": (0, 0.5, 1, 3), "a": (0.3, 4.0), "sky": (0.0, 5.0), "zp": (0.2, 3.0), "rn": (0.0, 2.0), "dc": (0.0, 0.3)}
        rows = [r for r in itertools.product(*grid.values()) if poisson_var(*r) >= 0]
        def call(f, t, n, a, sky, zp, rn, dc):
            return poisson_bandflux_std(f, total_exposure_time=t, exposure_count=n, psf_footprint=a, sky=sky, zp=zp, readout_noise=rn, dark_current=dc)

        want = np.array([math.sqrt(poisson_var(*r)) * r[5] for r in rows])
        ctx.eq(np.asarray(call(*(np.array(c, dtype=float) for c in zip(*rows)))), want, "the noise formula, arrays")
        ctx.eq(np.array([float(call(*r)) for r in rows[::3]]), want[::3], "the noise formula, scalars")
        for r in [r for r in rows if poisson_var(*r[:6], 0.0, r[7]) >= 0][::50]:
            got = call(*r[:6], lambda t: 1.0 + t, r[7])
            ctx.eq(float(got), math.sqrt(poisson_var(*r[:6], 0.0, r[7]) + (1.0 + r[1]) ** 2) * r[5], "a readout noise that depends on the time")
        ctx.step(len(rows))
        ctx.outcome("formula")

    ctx.case({"fake": "formula"}, formula)
    nofilter = {k: v for k, v in FAKE.items() if k not in ("filter", "zp")}
    ctx.case({"fake bad": "no filters"}, ctx.raises, (ValueError, KeyError), lambda: FakeObsTable(nofilter, **ok), "zero points per band without a filter column")


ROMAN = {
    "RA": [1.0, 2.0, 3.0, 4.0, 5.0],
    "DEC": [0.0, 1.0, 2.0, 3.0, 4.0],
    "BANDPASS": ["F129", "F158", "F129", "F106", "F158"],
    "MA_TABLE_NUMBER": [1001, 1003, 1003, 1001, 1004],
    "PASS": [2, 1, 1, 7, 2],
}
CHAR = {"F106": (26.5, 7.0, 0.30, 0.003), "F129": (26.4, 7.6, 0.29, 0.004), "F158": (26.3, 8.2, 0.31, 0.05), "F213": (25.0, 9.0, 0.4, 4.0)}
EXPT = {1001: 60.0, 1003: 76.0, 1004: 85.0}


def sec_roman(ctx):
    from astropy.table import Table

    import lightcurvelynx.obstable.roman_obstable as mod

    def fake_read(*args, **kwargs):
        name = str(args[-1]).split("/")[-1]
        bands = list(CHAR)
        if "PSF" in name:
            return Table({"Filter": bands, "N_Eff_Pix": [CHAR[b][1] for b in bands]})
        if "zeropoints" in name:
            return Table({"element": bands, "ABMag": [CHAR[b][0] for b in bands]})
        if "thermal" in name:
            return Table({"filter": bands, "rate": [CHAR[b][3] for b in bands]})
        if "zodiacal" in name:
            return Table({"filter": bands, "rate": [CHAR[b][2] for b in bands]})
        raise OSError(f"unexpected file {name}")

    passes = sorted(set(ROMAN["PASS"]))

    def zp(i, sv):
        return nJy(CHAR[ROMAN["BANDPASS"][i]][0])

    def err(i, f, sv):
        mag, area, zodi, thermal = CHAR[ROMAN["BANDPASS"][i]]
        ex = EXPT[ROMAN["MA_TABLE_NUMBER"][i]]
        m = ex / 3.04
        read = math.sqrt(25.0 + 3072.0 * (m - 1) / m / (m + 1))
        sky = ex * (sv.get("zodi_level", 1.5) * zodi + thermal)
        return poisson(f, nJy(mag) / ex, sky, area, 1, 0, sv.get("dark_current", 0.0), ex, read_total=read)

    import tempfile
    from pathlib import Path

    for sv in ({}, {"zodi_level": 4.0}, {"dark_current": 0.5}, {"zodi_level": 2.0, "dark_current": 0.1}):
        for own in (False, True):

            def go(sv=sv, own=own):
                with mock.patch.object(Table, "read", fake_read), tempfile.TemporaryDirectory() as d:
                    kw = dict(sv)
                    path = Path(d) / "ma.csv"
                    path.write_text("MATableNumber,MATableName,Exptime,Description\n" + "".join(f"{k},x,{v},d\n" for k, v in EXPT.items()))
                    if own:
                        kw["ma_table_path"] = path
                    elif not (mod._LIGHTCURVELYNX_BASE_DATA_DIR / "roman_characterization").exists():
                        return
                    src = pd.DataFrame(ROMAN)
                    t = mod.RomanObsTable(src, **kw)
                    ctx.eq({c: list(src[c]) for c in src.columns}, ROMAN, "the caller's table")
                    ctx.eq(list(t["time"]), [61304.0 + 5.0 * passes.index(p) for p in ROMAN["PASS"]], "times of the passes")
                    ctx.eq(list(t["exptime"]), [EXPT[m] for m in ROMAN["MA_TABLE_NUMBER"]], "exposure times")
                    for name, t, keep in edits(lambda index: mod.RomanObsTable(df(ROMAN, index), **kw)):
                        check_rows(ctx, t, keep, lambda i: zp(i, sv), lambda i, f: err(i, f, sv), f"Roman {sv} {name}")
                ctx.outcome("roman")

            ctx.case({"roman": sv, "own table": own}, go)


SECTIONS = [("opsim", sec_opsim, 2), ("ztf", sec_ztf, 2), ("fake", sec_fake, (4, 6)), ("roman", sec_roman), ("memory", memory.sec_errors, 4)]
