"""S01: a simulation contains exactly the observations of the surveys that see each object, with the right values."""

import itertools
import math
import statistics

import numpy as np
import pandas as pd

from mc.core import same
from mc.rng import ScriptedRNG
from mc import memory

ID = "S01"
RULE = (
    "every placement of up to three objects on / off the fields, times every time window, observation mask, reference "
    "time, survey combination, set of saved survey columns and saved parameters; a state is one such configuration"
)
ASSUMPTIONS = ["observation times are distinct, so they identify the observations in the result"]

SPOT = {"a": (10.0, -5.0), "b": (10.9, -5.0), "c": (359.9, 40.0), "x": (200.0, 70.0)}
S1 = [  # (spot offset, time, filter, extra)
    ("a", (0.0, 0.0), 100.0, "g", 1.5), ("a", (0.45, 0.2), 90.1, "r", 2.5), ("b", (0.0, 0.0), 95.0, "g", 3.5),
    ("c", (0.2, 0.0), 101.0, "r", 4.5), ("c", (-0.2, 0.1), 80.3, "g", 5.5), ("a", (0.0, 0.1), 110.1, "r", 6.5),
]  # fmt: skip
S2 = [("b", (0.1, 0.0), 94.2, "r", 7.5), ("a", (0.0, 0.0), 99.0, "infra", 8.5), ("c", (0.0, 0.0), 105.0, "infra", 9.5), ("a", (0.3, -0.4), 101.5, "g", 10.5)]
ERR = [{"g": 2.0, "r": 3.0, "infra": 4.0}, {"g": 5.0, "r": 6.0, "infra": 7.0}]
RADIUS = [0.6, 0.4]
FCODE = {"g": 0.25, "r": 0.5, "infra": 0.75}
Q1 = statistics.NormalDist().cdf(1.0)


def dist(a, b):
    from mc.props.o01 import dist as d

    return d(a, b)


def rows_of(s):
    out = []
    for spot, (dr, dd), t, f, e in s:
        out.append({"ra": (SPOT[spot][0] + dr) % 360.0, "dec": SPOT[spot][1] + dd, "time": t, "filter": f, "extra": e})
    return out


def survey(k, index=None):
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable

    rows = rows_of((S1, S2)[k])
    data = {c: [r[c] for r in rows] for c in ("ra", "dec", "filter")}
    data["obsMJD"] = [r["time"] for r in rows]
    if k == 0:
        data["extra"] = [r["extra"] for r in rows]
        data["words"] = [f"w{r['extra']}" for r in rows]
    df = pd.DataFrame(data)
    if index:
        df.index = [7 * (len(rows) - i) for i in range(len(rows))]
    return FakeObsTable(
        df, colmap={"time": "obsMJD"}, zp_per_band={"g": 1.0, "r": 1.0, "infra": 1.0}, const_flux_error=ERR[k], radius=RADIUS[k]
    )


def group(k):
    """Top-hat passbands; the second survey's are shifted."""
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    out = []
    for j, f in enumerate(("g", "r", "infra")):
        lo = 4000.0 + 1000 * j + 200 * k
        w = np.arange(lo, lo + 300.0, 5.0)
        out.append(Passband(np.stack([w, np.ones(len(w))], axis=1), f"S{k}", f))
    return PassbandGroup(out)


def models():
    from lightcurvelynx.models.physical_model import BandfluxModel, SEDModel

    class Flux(BandfluxModel):
        def __init__(self, b=None, **kw):
            super().__init__(**kw)
            self.add_parameter("b", b)

        def compute_bandflux(self, times, filters, state, rng_info=None):
            return self.get_param(state, "b") * 1000.0 + np.asarray(times) + np.array([FCODE[f] for f in filters], dtype=float)

        def mask_by_time(self, times, graph_state=None):
            return np.asarray(times) % 2 < 0.5 + self.get_param(graph_state, "b") % 2

    class Sed(SEDModel):
        def __init__(self, b=None, **kw):
            super().__init__(**kw)
            self.add_parameter("b", b)

        def compute_sed(self, times, wavelengths, graph_state, **kw):
            b = self.get_local_params(graph_state)["b"]
            return (b * 1000.0 + np.asarray(times))[:, None] + 0.0 * np.asarray(wavelengths)[None, :]

        def mask_by_time(self, times, graph_state=None):
            return np.asarray(times) % 2 < 0.5 + self.get_param(graph_state, "b") % 2

    return Flux, Sed


WINDOWS = [None, (5.0, 5.0), (None, 1.0), (1.0, None), (0.0, 0.0), (None, None), (20.0, -5.0), (-1.0, 15.0)]
COLS = [None, ["extra"], ["obsMJD", "extra", "words"], ["ra", "nowhere"]]


def run(ctx, kind, spots, t0kind, window, mask, surveys, cols, pcols, index):
    from lightcurvelynx.base_models import ParameterizedNode
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.simulate import simulate_lightcurves

    n = len(spots)
    ra, dec = [SPOT[s][0] for s in spots], [SPOT[s][1] for s in spots]
    b = [2 * i + 1 + i // 2 + 1.2345678901e-8 for i in range(n)]
    t0 = {"none": [None] * n, "const": [100.0] * n, "each": [100.0 - 5 * i for i in range(n)]}[t0kind]
    z = [0.0] * n

    def given(v, const=False):
        return v[0] if const else GivenValueList(v)

    Flux, Sed = models()
    if mask == "default":  # models that do not say which times they need are of interest at all times
        del Flux.mask_by_time, Sed.mask_by_time
    kw = {"ra": given(ra), "dec": given(dec), "b": given(b), "node_label": "obj"}
    if t0kind != "none":
        kw["t0"] = given(t0, t0kind == "const")
    if kind == "sed":
        kw["redshift"] = given(z)
    model = (Flux if kind == "flux" else Sed)(**kw)
    host = ParameterizedNode(node_label="host")
    hb = [-v for v in b]
    host.add_parameter("b", given(hb))
    model.add_parameter("host_b", host.b)
    tables = [survey(k, index) for k in surveys]
    groups = [group(k) for k in surveys]
    rng = ScriptedRNG([Q1] * 400)
    res = simulate_lightcurves(
        model, n, tables if len(tables) > 1 else tables[0], groups if len(groups) > 1 else groups[0],
        obstable_save_cols=cols, param_cols=pcols, apply_obs_mask=bool(mask), time_window_offset=window, rng=rng,
    )  # fmt: skip
    ctx.step(n)
    where = f"{kind} {spots} t0={t0} window={window} mask={mask} surveys={surveys} cols={cols}"
    ctx.eq(len(res), n, f"{where}: objects")
    ctx.eq([int(v) for v in res["id"]], list(range(n)), f"{where}: ids")
    ctx.eq([float(v) for v in res["ra"]], ra, f"{where}: ra")
    ctx.eq([float(v) for v in res["dec"]], dec, f"{where}: dec")
    ctx.check(all((None if v is None or v != v else float(v)) == w for v, w in zip(res["t0"], t0)), f"{where}: t0 {list(res['t0'])}")
    if kind == "sed":
        ctx.eq([float(v) for v in res["z"]], z, f"{where}: z")
    for p in pcols or []:
        name = p.replace(".", "_")
        want = {"obj.b": b, "obj.ra": ra, "host.b": hb, "obj.host_b": hb}[p]
        ctx.eq([float(v) for v in res[name]], want, f"{where}: parameter column {name}")
    for i in range(n):
        params = res["params"].iloc[i]
        ctx.eq((params["obj.b"], params["obj.ra"], params["obj.dec"]), (b[i], ra[i], dec[i]), f"{where}: parameters of object {i}")
        want = {}
        for j, k in enumerate(surveys):
            for r in rows_of((S1, S2)[k]):
                if dist((ra[i], dec[i]), (r["ra"], r["dec"])) > RADIUS[k]:
                    continue
                if window is not None and t0[i] is not None:
                    if window[0] is not None and r["time"] < t0[i] - window[0]:
                        continue
                    if window[1] is not None and r["time"] > t0[i] + window[1]:
                        continue
                if mask is True and not (r["time"] % 2 < 0.5 + b[i] % 2):
                    continue
                want[(j, r["time"])] = (j, k, r)
        ctx.eq(int(res["nobs"].iloc[i]), len(want), f"{where}: number of observations of object {i}")
        lc = res["lightcurve"].iloc[i]
        empty = lc is None or len(lc) == 0
        mjd = [] if empty else [(int(j), float(v)) for j, v in zip(lc["survey_idx"], lc["mjd"])]
        if not ctx.eq(sorted(mjd), sorted(want), f"{where}: observations of object {i}"):
            continue
        for q, jt in enumerate(mjd):
            j, k, r = want[jt]
            t = jt[1]
            row = {c: lc[c].iloc[q] for c in lc.columns}
            flux = b[i] * 1000.0 + t + (FCODE[r["filter"]] if kind == "flux" else 0.0)
            err = ERR[k][r["filter"]]
            ctx.check(str(row["filter"]) == r["filter"], f"{where}: object {i} time {t}: filter {row['filter']}")
            ctx.eq(int(row["survey_idx"]), j, f"{where}: object {i} time {t}: survey")
            ctx.check(
                same(float(row["flux_perfect"]), flux) and same(float(row["fluxerr"]), err) and same(float(row["flux"]), flux + err, 1e-7),
                f"{where}: object {i} time {t}: flux {row['flux_perfect']} error {row['fluxerr']} observed {row['flux']}, expected {flux}, {err}, {flux + err}",
            )
            for c in cols or []:
                v = row[c]
                if c == "nowhere" or (c in ("extra", "words") and k == 1):
                    ctx.check(v is None or v != v, f"{where}: object {i} time {t}: {c} = {v} should be missing")
                    continue
                w = {"extra": r["extra"], "obsMJD": r["time"], "words": f"w{r['extra']}", "ra": r["ra"]}[c]
                ctx.check(v == w, f"{where}: object {i} time {t}: saved column {c} = {v}, expected {w}")
        ctx.outcome("seen" if want else "unseen")
    ctx.state((kind, spots, t0kind, window, mask, surveys, cols, pcols, index))


def sec_place(ctx):
    """All placements x windows x masks."""
    k = 0
    for n in (1, 2, 3):
        for spots in itertools.product("abcx", repeat=n):
            if n == 3 and ctx.tier == "quick" and tuple(sorted(spots)) != spots and spots[::-1] != tuple(sorted(spots)):
                continue
            for window, t0kind, mask in itertools.product(WINDOWS, ("none", "const", "each"), (False, True)):
                if t0kind == "none" and window not in (None, (5.0, 5.0)):
                    continue
                k += 1
                kind = "flux" if k % 2 else "sed"
                surveys = [0] if kind == "flux" else [[0], [0, 1], [1, 0]][(k // 2) % 3]
                cols = COLS[k % 4]
                ctx.case(
                    {"kind": kind, "spots": "".join(spots), "t0": t0kind, "window": window, "mask": mask, "surveys": surveys, "cols": cols},
                    run, ctx, kind, spots, t0kind, window, mask, surveys, cols, None, k % 5 == 0,
                )  # fmt: skip


def sec_options(ctx):
    """All combinations of surveys, saved columns, parameter columns and row index for a few placements."""
    for spots in (("a",), ("x",), ("b", "c"), ("c", "x", "a")):
        for kind in ("flux", "sed"):
            for surveys in ([0], [1], [0, 1], [1, 0], [0, 0], [1, 1, 0]):
                if kind == "flux" and len(surveys) > 1:
                    continue
                for cols in COLS:
                    for pcols in (None, ["obj.b"], ["obj.ra", "host.b", "obj.b", "obj.host_b"]):
                        for index in (False, True):
                            for mask in (False, True, "default"):
                                if mask and (pcols or index) and ctx.tier == "quick":
                                    continue
                                ctx.case(
                                    {"spots": "".join(spots), "kind": kind, "surveys": surveys, "cols": cols, "pcols": pcols, "index": index, "mask": mask},
                                    run, ctx, kind, spots, "each", None, mask, surveys, cols, pcols, index,
                                )  # fmt: skip


def sec_large(ctx):
    """Hundreds of observations per object, in scrambled order and with repeated values: each keeps its own row."""
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
    from lightcurvelynx.simulate import simulate_lightcurves

    def go(num, kind, window):
        order = [(i * 37) % num for i in range(num)]  # num and 37 have no common factor
        spots = "abc"
        rows = [(spots[i % 3], 50.0 + 0.25 * k + (0.1 if k % 4 == 1 else 0.0), ("g", "r")[(k // 2) % 2], float((k * 11) % 17)) for i, k in enumerate(order)]
        df = pd.DataFrame({
            "ra": [SPOT[s][0] for s, *_ in rows], "dec": [SPOT[s][1] for s, *_ in rows], "time": [r[1] for r in rows],
            "filter": [r[2] for r in rows], "extra": [r[3] for r in rows],
        })  # fmt: skip
        table = FakeObsTable(df, zp_per_band={"g": 1.0, "r": 1.0}, const_flux_error={"g": 2.0, "r": 3.0}, radius=0.5)
        Flux, Sed = models()
        ra, dec = [SPOT[s][0] for s in "cab"], [SPOT[s][1] for s in "cab"]
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList

        m = (Flux if kind == "flux" else Sed)(ra=GivenValueList(ra), dec=GivenValueList(dec), b=GivenValueList([1.0, 2.0, 3.0]), t0=100.0, node_label="obj")
        res = simulate_lightcurves(m, 3, table, group(0), obstable_save_cols=["extra", "dec"], time_window_offset=window, rng=ScriptedRNG([Q1] * (2 * num)))
        ctx.step(num)
        for i, s in enumerate("cab"):
            want = {r[1]: r for r in rows if r[0] == s and (window is None or 100.0 - window[0] <= r[1] <= 100.0 + window[1])}
            lc = res["lightcurve"].iloc[i]
            ctx.eq(int(res["nobs"].iloc[i]), len(want), f"{num} rows, window {window}: observations of object {i}")
            if not ctx.eq(sorted(float(v) for v in lc["mjd"]), sorted(want), f"{num} rows: times of object {i}"):
                continue
            for q in range(len(lc)):
                row = {c: lc[c].iloc[q] for c in lc.columns}
                _, t, f, extra = want[float(row["mjd"])]
                flux = (i + 1) * 1000.0 + t + (FCODE[f] if kind == "flux" else 0.0)
                err = {"g": 2.0, "r": 3.0}[f]
                ctx.check(str(row["filter"]) == f and float(row["extra"]) == extra and float(row["dec"]) == dec[i], lambda: f"{num} rows: object {i} time {t}: {row}")
                ctx.check(same(float(row["flux_perfect"]), flux) and same(float(row["flux"]), flux + err, 1e-7), lambda: f"{num} rows: object {i} time {t}: {row}")
        ctx.state((num, kind, window))
        ctx.outcome("large")

    for num in ctx.pick((31, 400, 1000), (31, 400, 1000, 5000)):
        for kind in ("flux", "sed"):
            for window in (None, (48.0, 30.0)):
                ctx.case({"rows": num, "kind": kind, "window": window}, go, num, kind, window)


def sec_refuse(ctx):
    from lightcurvelynx.simulate import simulate_lightcurves

    Flux, Sed = models()
    f = Flux(b=1.0, ra=10.0, dec=-5.0, node_label="obj")
    s = Sed(b=1.0, ra=10.0, dec=-5.0, node_label="obj")
    nowhere = Sed(b=1.0, node_label="obj")
    cases = {
        "no samples": (ValueError, lambda: simulate_lightcurves(s, 0, survey(0), group(0))),
        "negative samples": (ValueError, lambda: simulate_lightcurves(s, -1, survey(0), group(0))),
        "more passbands": (ValueError, lambda: simulate_lightcurves(s, 1, survey(0), [group(0), group(1)])),
        "more surveys": (ValueError, lambda: simulate_lightcurves(s, 1, [survey(0), survey(1)], group(0))),
        "bandflux model, two surveys": (ValueError, lambda: simulate_lightcurves(f, 1, [survey(0), survey(1)], [group(0), group(1)])),
        "unknown parameter": (KeyError, lambda: simulate_lightcurves(s, 1, survey(0), group(0), param_cols=["obj.nope"])),
        "no position": (ValueError, lambda: simulate_lightcurves(nowhere, 1, survey(0), group(0))),
        "no position of several": (ValueError, lambda: simulate_lightcurves(nowhere, 3, survey(0), group(0))),
        "window of one": (ValueError, lambda: simulate_lightcurves(Sed(b=1.0, ra=1.0, dec=1.0, t0=5.0), 1, survey(0), group(0), time_window_offset=(1.0,))),
    }
    for name, (err, fn) in cases.items():
        ctx.case({"refuse": name}, ctx.raises, err, fn, name)
    ctx.outcome("refused")

    from lightcurvelynx.simulate import get_time_windows

    def windows():
        for t0 in (5.0, np.array([5.0]), np.array([5.0, 7.0, -1.0]), None, np.array([None, None]), np.array([3.0, None])):
            for w in ((1.0, 2.0), (None, 2.0), (1.0, None), (None, None), None, (5.0, -2.0), (-1.0, 4.0), [3, 4], (0, 0), (-1.0, -2.0)):
                lo, hi = get_time_windows(t0, w)
                tt = [None] if t0 is None else list(np.atleast_1d(t0))
                none = w is None or all(t is None for t in tt)
                for got, off, sign, inf in ((lo, w and w[0], -1, -math.inf), (hi, w and w[1], 1, math.inf)):
                    want = None if none or off is None else np.array([inf if t is None else t + sign * off for t in tt])
                    ctx.eq(got, want, f"time windows of t0={t0} offset={w}")
                ctx.state(("w", repr(t0), w))

    ctx.case({"windows": 1}, windows)


SECTIONS = [("place", sec_place, 8), ("options", sec_options, 8), ("large", sec_large, 4), ("refuse", sec_refuse), ("memory", memory.sec_simulate, 4)]
