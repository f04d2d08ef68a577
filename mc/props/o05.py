"""O05: an oversampled survey has a regular cadence at one pointing, each row copied from one real observation of its band."""

import itertools

import numpy as np
import pandas as pd

from mc.core import same

ID = "O05"
RULE = (
    "every subset of a pool of observations (two fields, three bands, ties in the sky brightness), times row-index kinds, "
    "time ranges, steps, band selections, strategies and overridden survey values; a state is one such configuration"
)
ASSUMPTIONS = ["the survey table has an observation identifier column (as Rubin's)"]

# field, time, band, sky brightness, seeing, airmass, exptime
ROWS = [
    (0, 10.0, "g", 21.0, 0.7, 1.1, 30.0), (0, 11.5, "g", 22.0, 0.8, 1.2, 31.0), (0, 12.0, "r", 20.5, 0.9, 1.3, 32.0),
    (1, 9.0, "g", 25.0, 0.5, 1.4, 33.0), (0, 13.0, "r", 20.5, 1.0, 1.5, 34.0), (0, 12.5, "i", 19.0, 1.1, 1.6, 35.0),
    (1, 20.0, "y", 26.0, 0.4, 1.7, 36.0),
]  # fmt: skip
FIELDS = [(200.0, -50.0), (20.0, 30.0)]


OWN = {
    "observationStartMJD": "time", "fieldRA": "ra", "fieldDec": "dec", "skyBrightness": "skybrightness", "seeingFwhmEff": "seeing",
    "visitExposureTime": "exptime", "numExposures": "nexposure",
}  # fmt: skip


def make(rows, index, **kw):
    from lightcurvelynx.obstable.opsim import OpSim

    t = pd.DataFrame(
        {
            "observationId": [100 + 7 * (k % 5) + k for k in rows],
            "observationStartMJD": [ROWS[k][1] for k in rows],
            "fieldRA": [FIELDS[ROWS[k][0]][0] + 0.15 * k for k in rows],
            "fieldDec": [FIELDS[ROWS[k][0]][1] for k in rows],
            "filter": [ROWS[k][2] for k in rows],
            "skyBrightness": [ROWS[k][3] for k in rows],
            "seeingFwhmEff": [ROWS[k][4] for k in rows],
            "airmass": [ROWS[k][5] for k in rows],
            "visitExposureTime": [ROWS[k][6] for k in rows],
            "numExposures": [1 + k for k in rows],
            "note": [f"row{k}" for k in rows],
        }
    )
    if index == "shifted":
        t.index = np.arange(len(rows)) + 50
    elif index == "dup":
        t.index = np.arange(len(rows)) // 2
    elif index == "text":
        t.index = [f"o{k}" for k in range(len(rows))]
    if kw.pop("own_names", False):
        # A survey whose columns have names of its own.
        t.columns = ["observationId" if c == "observationId" else f"my {c}" for c in t.columns]
        kw["colmap"] = {OWN.get(c[3:], c[3:]): c for c in t.columns if c != "observationId"}
    return OpSim(t, **kw)


def one(ctx, rows, index, trange, dt, bands, strategy, kw, pointing):
    from lightcurvelynx.obstable.opsim import oversample_opsim

    what = f"rows {rows} index={index} range={trange} step={dt} bands={bands} {strategy} {kw} field={pointing}"
    ops = make(rows, index, **kw)
    before = pd.DataFrame({c: list(ops[c]) for c in ops.columns})
    seen = [k for k in rows if ROWS[k][0] == pointing]
    ra, dec = FIELDS[pointing]
    lo = trange[0] if trange[0] is not None else (min(ROWS[k][1] for k in seen) if seen else 0)
    hi = trange[1] if trange[1] is not None else (max(ROWS[k][1] for k in seen) if seen else 0)
    use = sorted({ROWS[k][2] for k in seen}) if bands is None else list(bands)
    times, k = [], 0
    while lo + k * dt < hi - 1e-9:
        times.append(lo + k * dt)
        k += 1
    bad = not seen or lo >= hi or not set(use) <= {ROWS[k][2] for k in seen} or len(times) < len(use) or strategy not in ("darkest_sky", "random")
    mk = lambda: oversample_opsim(  # noqa: E731
        ops, pointing=(ra, dec), search_radius=1.0, delta_t=dt, time_range=trange, bands=bands, strategy=strategy
    )
    if bad:
        ctx.raises(ValueError, mk, what)
        ctx.outcome("refused")
        ctx.check(same({c: list(ops[c]) for c in ops.columns}, before.to_dict("list")), f"{what}: the survey was changed")
        return
    new = mk()
    ctx.check(same({c: list(ops[c]) for c in ops.columns}, before.to_dict("list")), f"{what}: the original survey was changed")
    if not ctx.eq(len(new), len(times), f"{what}: rows"):
        return
    ctx.eq(new["time"].to_numpy(), times, f"{what}: times", 1e-9, 1e-9)
    ctx.eq(new["ra"].to_numpy(float), [ra] * len(times), f"{what}: ra")
    ctx.eq(new["dec"].to_numpy(float), [dec] * len(times), f"{what}: dec")
    got_f = [str(f) for f in new["filter"]]
    ctx.eq(got_f, [use[k % len(use)] for k in range(len(times))], f"{what}: bands")
    ids = [int(i) for i in new["observationId"]]
    ctx.check(len(set(ids)) == len(ids) and min(ids) > before["observationId"].max(), f"{what}: identifiers {ids} not new")
    ctx.eq(sorted(new.columns), sorted(before.columns), f"{what}: columns")
    cols = ["skybrightness", "seeing", "airmass", "exptime", "nexposure", "note", "zp"]
    proto = {k: tuple(before[c].iloc[rows.index(k)] for c in cols) for k in seen}
    chosen = []
    for i in range(len(times)):
        vals = tuple(new[c].iloc[i] for c in cols)
        match = [k for k, p in proto.items() if ROWS[k][2] == got_f[i] and all(same(a, b) for a, b in zip(vals, p))]
        if not ctx.check(len(match) == 1, f"{what}: row {i} ({got_f[i]}) has {vals}, which no {got_f[i]} observation of the field has"):
            return
        chosen.append(match[0])
    if strategy == "darkest_sky":
        for i, c in enumerate(chosen):
            best = max(ROWS[k][3] for k in seen if ROWS[k][2] == got_f[i])
            ctx.check(ROWS[c][3] == best, f"{what}: row {i} copies sky {ROWS[c][3]}, darkest is {best}")
    else:
        ctx.eq([str(v) for v in mk()["note"]], [f"row{c}" for c in chosen], f"{what}: not reproducible")
        if len(times) >= 40:
            for b in use:
                cand = {k for k in seen if ROWS[k][2] == b}
                ctx.check({c for i, c in enumerate(chosen) if got_f[i] == b} == cand, f"{what}: some {b} observations are never drawn")
    for key, val in ops.survey_values.items():
        ctx.check(same(new.survey_values.get(key), val), f"{what}: survey value {key} is {new.survey_values.get(key)}, was {val}")
    for c in (f"{p}{x}" for p in ("", "my ") for x in (*OWN, "airmass", "note")):
        ctx.check((c in new) == (c in ops), f"{what}: column {c!r} is {'known' if c in new else 'unknown'}")
        if c in new and c in ops and OWN.get(c[3:], c[3:]) in cols:
            ctx.eq(list(new[c]), list(new[OWN.get(c[3:], c[3:])]), f"{what}: column {c!r}")
    # The new table is a working survey: it is found at its pointing, with its own errors.
    hits = [int(i) for i in new.range_search(ra, dec, radius=0.1)]
    ctx.eq(sorted(hits), list(range(len(times))), f"{what}: search at the pointing")
    err = np.asarray(new.bandflux_error_point_source(np.full(len(times), 100.0), np.arange(len(times))), dtype=float)
    src = np.asarray(ops.bandflux_error_point_source(np.full(len(times), 100.0), np.array([rows.index(c) for c in chosen])), dtype=float)
    ctx.eq(err, src, f"{what}: flux errors")
    ctx.outcome(strategy)
    ctx.state((tuple(rows), index, trange, dt, bands, strategy, tuple(kw), pointing))


def sec_tables(ctx):
    """Every subset of the pool."""
    for k in range(1, len(ROWS) + 1):
        for rows in itertools.combinations(range(len(ROWS)), k):
            for index in ("plain", "shifted", "dup", "text"):
                for strategy in ("darkest_sky", "random"):
                    if ctx.tier == "quick" and index in ("shifted", "text") and k % 2:
                        continue
                    ctx.case(
                        {"rows": rows, "i": index, "s": strategy}, one, ctx, list(rows), index, (None, None), 0.5, None, strategy, {}, 0
                    )


def sec_options(ctx):
    rows = [5, 1, 0, 3, 2, 4, 6]
    for trange in ((None, None), (10.0, 14.0), (None, 12.0), (11.0, None), (30.0, 31.0), (12.0, 12.0), (14.0, 10.0), (11.0, 11.7), (0.0, 12.0), (-3.0, 0.0), (0.0, None), (None, 0.0)):
        for dt in (0.5, 0.3, 0.05, 2.0):
            for bands in (None, ["g"], ["r", "g"], ["i", "r", "g"], ["y"], ["g", "g", "r"], ["q"]):
                for strategy in ("darkest_sky", "random", "brightest"):
                    for kw in ({}, {"pixel_scale": 0.4, "read_noise": 3.0, "radius": 0.3}, {"own_names": True}):
                        for pointing in (0, 1):
                            ctx.case(
                                {"r": trange, "dt": dt, "b": bands, "s": strategy, "kw": kw, "p": pointing},
                                one, ctx, rows, "shifted", trange, dt, bands, strategy, kw, pointing,
                            )  # fmt: skip


SECTIONS = [("tables", sec_tables, 8), ("options", sec_options, 8)]
