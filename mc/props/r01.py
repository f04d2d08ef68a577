"""R01: post-processing adds each observation's own statistics and drops exactly the empty light curves."""

import itertools
import math

import numpy as np
import numpy.ma as ma
import pandas as pd

from ..core import Machine, bfs

ID = "R01"
RULE = (
    "every sequence of up to four observations from a pool of valid, weak, negative, zero-error and missing ones, alone and "
    "nested; breadth-first search over histories of augmenting, dropping empty light curves, selecting, reordering and "
    "joining rows for every kind of row index; a state is the table's content"
)
ASSUMPTIONS = ["fluxes and errors are finite or NaN"]

POOL = [(100.0, 10.0), (3.0, 3.0), (50.0, 10.0), (-5.0, 1.0), (5.0, 0.0), (0.0, 2.0), (4.0, -1.0), (float("nan"), 1.0), (7.0, float("nan")), (0.25, 2.0)]


def stats(f, e, min_snr):
    if not (f > 0 and e > 0):
        return None, False, None, None
    return f / e, f / e >= min_snr, 31.4 - 2.5 * math.log10(f), 2.5 / math.log(10) * e / f


def plain(values):
    """Masked, missing and NaN entries as None."""
    out = []
    for v in values:
        if v is None or v is ma.masked or v is pd.NA or (isinstance(v, (float, np.floating)) and math.isnan(v)):
            out.append(None)
        else:
            out.append(float(v) if not isinstance(v, (bool, np.bool_)) else bool(v))
    return out


def sec_single(ctx):
    from lightcurvelynx.utils.post_process_results import augment_single_lightcurve, lightcurve_compute_mag, lightcurve_compute_snr

    def go(which, min_snr, t0, kind, mjd):
        ctx.step()
        ctx.state((which, min_snr, t0, kind, mjd))
        obs = [POOL[i] for i in which]
        flux, err = [o[0] for o in obs], [o[1] for o in obs]
        want = [stats(f, e, min_snr) for f, e in obs]
        conv = {"list": list, "array": np.array, "series": pd.Series}[kind if kind != "frame" else "array"]
        snr = lightcurve_compute_snr(conv(flux), conv(err))
        ctx.eq(plain(snr), [w[0] for w in want], f"SNR of {obs}")
        mag, magerr = lightcurve_compute_mag(conv(flux), conv(err))
        ctx.eq(plain(mag), [w[2] for w in want], f"magnitudes of {obs}")
        ctx.eq(plain(magerr), [w[3] for w in want], f"magnitude errors of {obs}")
        if kind != "frame":
            return
        df = pd.DataFrame({"flux": np.array(flux, dtype=float), "fluxerr": np.array(err, dtype=float)})
        if mjd:
            df["mjd"] = [50.0 + 3 * k for k in range(len(obs))]
        df.index = [(7 * k) % 3 for k in range(len(obs))]
        # A zero minimum is the default.
        opts = {"min_snr": min_snr} if min_snr else {}
        augment_single_lightcurve(df, t0=t0, **opts)
        for c, k in (("snr", 0), ("detection", 1), ("mag", 2), ("magerr", 3)):
            ctx.eq(plain(df[c]), [w[k] for w in want], f"column {c} of {obs}")
        if mjd and t0 is not None:
            ctx.eq(plain(df["time_rel"]), [50.0 + 3 * k - t0 for k in range(len(obs))], "relative times")
        else:
            ctx.check("time_rel" not in df.columns, "relative times without a reference or times")
        ctx.eq(plain(df["flux"]), plain(flux), "fluxes are kept")
        ctx.outcome(f"{len(obs)} observations")

    for n in range(ctx.pick(3, 4) + 1):
        for which in itertools.product(range(len(POOL)), repeat=n):
            for min_snr in (0.0, 5.0) if n < 3 else (5.0,):
                for kind in ("list", "array", "series"):
                    ctx.case([which, min_snr, kind], go, which, min_snr, None, kind, False)
                for t0 in (None, 0.0, 51.5):
                    for mjd in (True, False):
                        ctx.case([which, min_snr, t0, mjd], go, which, min_snr, t0, "frame", mjd)

    def refuse(cols):
        ctx.step()
        df = pd.DataFrame({c: [1.0, 2.0] for c in cols})
        if {"flux", "fluxerr"} <= set(cols):
            augment_single_lightcurve(df)
            ctx.check("snr" in df.columns, "complete columns")
        else:
            ctx.raises(ValueError, lambda: augment_single_lightcurve(df), f"a light curve with only {cols}")

    for n in range(4):
        for cols in itertools.combinations(("mjd", "flux", "fluxerr"), n):
            ctx.case(["refuse", cols], refuse, cols)


# ---------------------------------------------------------------------- nested tables
CURVES = {"good": [0, 1], "bad": [3, 4, 7], "mix": [5, 0, 6], "none": [], "single": [9]}


def build(curves, t0s, index):
    from nested_pandas import NestedFrame

    n = len(curves)
    labels = {"default": list(range(n)), "reversed": list(range(n))[::-1], "gaps": [5 + 3 * k for k in range(n)], "strings": [f"o{k}" for k in range(n)]}[index]
    data = {"id": [100 + k for k in range(n)]}
    if t0s is not None:
        data["t0"] = t0s
    frame = NestedFrame(data, index=labels)
    rows, lab = {"mjd": [], "flux": [], "fluxerr": [], "filter": []}, []
    for k, c in enumerate(curves):
        for j, i in enumerate(CURVES[c]):
            rows["mjd"].append(60000.0 + 10 * k + j)
            rows["flux"].append(POOL[i][0])
            rows["fluxerr"].append(POOL[i][1])
            rows["filter"].append("gri"[j])
            lab.append(labels[k])
    return frame.add_nested(pd.DataFrame(rows, index=lab), "lightcurve")


class Tables(Machine):
    def __init__(self, curves, t0s, index):
        self.curves, self.t0s, self.index = curves, t0s, index

    def start(self, ctx):
        ref = []
        for k, c in enumerate(self.curves):
            lc = [{"mjd": 60000.0 + 10 * k + j, "flux": POOL[i][0], "fluxerr": POOL[i][1], "filter": "gri"[j]} for j, i in enumerate(CURVES[c])]
            ref.append({"id": 100 + k, "t0": None if self.t0s is None else self.t0s[k], "lc": lc})
        return {"df": build(self.curves, self.t0s, self.index), "ref": ref, "aug": None, "rel": False, "joined": False}

    def clone(self, st):
        import copy

        return {**st, "df": st["df"].copy(), "ref": copy.deepcopy(st["ref"])}

    def ops(self, st):
        out = [["augment", 0.0], ["augment", 5.0], ["drop"]]
        if len(st["ref"]) > 1:
            out += [["reverse"], ["tail"]]
        if not st["joined"] and st["ref"]:
            out += [["join"]]
        if self.t0s is not None:
            out += [["shift"]]
        return out

    def step(self, ctx, st, op):
        from lightcurvelynx.utils.post_process_results import results_augment_lightcurves, results_drop_empty

        ref = st["ref"]
        if op[0] == "augment":
            if not ref:
                return
            results_augment_lightcurves(st["df"], **({"min_snr": op[1]} if op[1] else {}))
            st["aug"] = op[1]
            has = self.t0s is not None and all(r["t0"] is not None for r in ref)
            if has:
                st["rel"] = True
            for r in ref:
                for o in r["lc"]:
                    o["snr"], o["detection"], o["mag"], o["magerr"] = stats(o["flux"], o["fluxerr"], op[1])
                    if has:
                        o["time_rel"] = o["mjd"] - r["t0"]
        elif op[0] == "drop":
            old = st["df"]
            n = len(old)
            st["df"] = results_drop_empty(old)
            ctx.check(len(old) == n, "dropping empty light curves changed its input")
            st["ref"] = [r for r in ref if r["lc"]]
        elif op[0] == "reverse":
            st["df"] = st["df"].iloc[::-1]
            st["ref"] = ref[::-1]
        elif op[0] == "tail":
            st["df"] = st["df"].iloc[1:]
            st["ref"] = ref[1:]
        elif op[0] == "join":
            import copy

            st["df"] = pd.concat([st["df"], st["df"].iloc[:1]])
            st["ref"] = ref + copy.deepcopy(ref[:1])
            st["joined"] = True
        elif op[0] == "shift":
            st["df"] = st["df"].assign(t0=[None if r["t0"] is None else r["t0"] + 2.0 for r in ref])
            for r in ref:
                r["t0"] = None if r["t0"] is None else r["t0"] + 2.0
        ctx.outcome(op[0])

    def observe(self, ctx, st):
        df, ref = st["df"], st["ref"]
        ctx.eq([int(v) for v in df["id"]], [r["id"] for r in ref], "rows")
        lcs = list(df["lightcurve"])
        want_cols = {"mjd", "flux", "fluxerr", "filter"}
        if st["aug"] is not None:
            want_cols |= {"snr", "detection", "mag", "magerr"} | ({"time_rel"} if st["rel"] else set())
        if ref:
            ctx.eq(sorted(df["lightcurve"].nest.fields), sorted(want_cols), "columns")
        for r, lc in zip(ref, lcs):
            n = 0 if not isinstance(lc, pd.DataFrame) else len(lc)
            ctx.eq(n, len(r["lc"]), f"observations of {r['id']}")
            for c in want_cols if n == len(r["lc"]) > 0 else ():
                if c == "filter":
                    ctx.eq(list(lc[c]), [o[c] for o in r["lc"]], c)
                else:
                    ctx.eq(plain(lc[c]), plain([o.get(c) for o in r["lc"]]), f"{c} of object {r['id']}")

    def canon(self, st):
        return (self.curves, self.t0s, self.index, st["ref"], st["aug"], st["rel"], [str(v) for v in st["df"].index])


def sec_tables(ctx):
    k = 0
    for n in (1, 2, 3):
        for curves in itertools.product(CURVES, repeat=n):
            for t0s in (None, [60001.0, 59990.0, 60010.5][:n], [0.0, 60000.0, 5.0][:n], [None, 60000.0, None][:n]):
                for index in ("default", "reversed", "gaps", "strings"):
                    deep = n < 3 or (curves in (("good", "none", "mix"), ("none", "bad", "single")))
                    if n == 3 and ctx.tier == "quick" and not deep:
                        continue
                    if ctx.only is None:
                        k += 1
                        if k % ctx.nshards != ctx.shard:
                            continue
                    if not any(CURVES[c] for c in curves):
                        continue
                    saved = ctx.nshards, ctx.shard
                    ctx.nshards, ctx.shard = 1, 0
                    bfs(ctx, f"{curves},{t0s},{index}", Tables(curves, t0s, index), ctx.pick(2 if n < 3 else 3, 4))
                    ctx.nshards, ctx.shard = saved

    # tables that are not results are refused
    def refuse(kind):
        from lightcurvelynx.utils.post_process_results import results_augment_lightcurves
        from nested_pandas import NestedFrame

        ctx.step()
        df = build(["good", "bad"], [1.0, 2.0], "default")
        if kind == "frame":
            bad = pd.DataFrame({"lightcurve": [1, 2]})
        elif kind == "no curves":
            bad = NestedFrame({"id": [1, 2]})
        else:
            bad = df.assign(lightcurve=df["lightcurve"].nest.without_field(kind))
        ctx.raises(ValueError, lambda: results_augment_lightcurves(bad), f"results without {kind}")

    for kind in ("frame", "no curves", "flux", "fluxerr", "mjd"):
        ctx.case(["refuse", kind], refuse, kind)


# ---------------------------------------------------------------------- simulation results
def sec_simulated(ctx):
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.models.basic_models import ConstantSEDModel
    from lightcurvelynx.obstable.fake_obs_table import FakeObsTable
    from lightcurvelynx.simulate import simulate_lightcurves
    from lightcurvelynx.utils.post_process_results import results_augment_lightcurves, results_drop_empty

    pb = PassbandGroup(given_passbands=[Passband(np.array([[400.0, 0.5], [500.0, 1.0], [600.0, 0.5]]), "S", "r", delta_wave=25.0, trim_quantile=None, units="nm")])

    def go(on, t0s, flux, noise, first):
        ctx.step()
        n = len(on)
        ra = [10.0 if o else 100.0 for o in on]
        df = pd.DataFrame({"time": [1.0, 2.0, 3.0], "ra": [10.0] * 3, "dec": [0.0] * 3, "filter": ["r"] * 3, "zp": [1.0] * 3})
        table = FakeObsTable(df, const_flux_error=2.0, radius=1.0)
        model = ConstantSEDModel(brightness=GivenValueList(list(flux)), ra=GivenValueList(ra), dec=0.0, t0=GivenValueList(list(t0s)), node_label="m")
        res = simulate_lightcurves(model, n, table, pb, rng=np.random.default_rng(noise))
        keep = [k for k in range(n) if on[k] or not first]
        if first:
            res = results_drop_empty(res)
        results_augment_lightcurves(res, min_snr=3.0)
        if not first:
            ctx.eq([int(i) for i in results_drop_empty(res)["id"]], [k for k in range(n) if on[k]], "objects with observations")
        ctx.eq([int(i) for i in res["id"]], keep, "objects")
        for k, (_, row) in zip(keep, res.iterrows()):
            lc = row["lightcurve"]
            if not on[k]:
                ctx.check(not isinstance(lc, pd.DataFrame) or len(lc) == 0, f"object {k} is not observed")
                continue
            want = [stats(float(f), float(e), 3.0) for f, e in zip(lc["flux"], lc["fluxerr"])]
            for c, i in (("snr", 0), ("detection", 1), ("mag", 2), ("magerr", 3)):
                ctx.eq(plain(lc[c]), [w[i] for w in want], f"{c} of object {k}")
            ctx.eq(plain(lc["time_rel"]), [t - t0s[k] for t in (1.0, 2.0, 3.0)], f"relative times of object {k}")
        ctx.state((on, t0s, flux, noise, first))
        ctx.outcome("dropped first" if first else "dropped last")

    for n in (1, 2, 3):
        for on in itertools.product((True, False), repeat=n):
            if not any(on):
                continue
            for t0s in ([0.0, 1.0, 2.0][:n], [5.0, -3.0, 0.5][:n]):
                for flux in ([100.0, 1.0, 7.0][:n], [0.5, -20.0, 3.0][:n]):
                    for noise in (1, 2):
                        for first in (False, True):
                            ctx.case([on, t0s, flux, noise, first], go, on, t0s, flux, noise, first)


SECTIONS = [("single", sec_single, (2, 8)), ("tables", sec_tables, (6, 8)), ("simulated", sec_simulated, (1, 1))]
