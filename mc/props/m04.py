"""M04: light-curve templates reproduce their curves, shifted, repeated or replaced by the baseline, as bands and as SEDs."""

import itertools
import math

import numpy as np
from mc import memory

ID = "M04"
RULE = (
    "every combination of curve grids for two filters, container, number type, reference epoch, periodicity, magnitudes, "
    "baseline and model reference time, queried at, between and beyond all samples; every collection of passbands for the "
    "SED form; every selection from several curves; every LCLIB table layout; a state is one configuration"
)
ASSUMPTIONS = ["linear interpolation between samples, both ends included (documented)"]

ZP = 8.9 + 22.5


def m2f(m):
    return 10.0 ** (-0.4 * (m - ZP))


GRIDS = {
    "three": [0.0, 2.0, 5.0],
    "shifted": [10.0, 11.0, 14.0],
    "neg": [-3.0, -1.0, 4.0],
    "one": [2.0],
    "two": [1.0, 4.0],
}
VALUES = {"g": [20.0, 23.0, 21.0], "r": [24.0, 18.0, 19.0]}


def curve(grid, f, periodic):
    ts = GRIDS[grid]
    vs = VALUES[f][: len(ts)]
    if periodic:
        vs = vs[:-1] + [vs[0]] if len(vs) > 1 else vs
    return [list(x) for x in zip(ts, vs)]


def ref_value(curve, epoch, period, baseline, t):
    """t is relative to the model's t0."""
    pts = [(a - (curve[0][0] if period else epoch), v) for a, v in curve]
    if period:
        t = t % period
    if t < pts[0][0] or t > pts[-1][0]:
        return baseline
    for (a, u), (b, v) in zip(pts, pts[1:]):
        if a <= t <= b:
            return u + (v - u) * (t - a) / (b - a)
    return pts[0][1]


def container(curves, kind, number):
    def num(rows):
        return [[int(x) for x in r] for r in rows] if number == "int" else rows

    if kind == "dict2":
        return {f: np.array(num(c)) for f, c in curves.items()}
    if kind == "dict3":
        return {f: np.array([[a, v, 1] for a, v in num(c)]) for f, c in curves.items()}
    rows = [(a, v, f) for f, c in curves.items() for a, v in num(c)]
    rows.sort(key=lambda r: r[0])
    if kind == "strings":
        return np.array([[str(x) for x in r] for r in rows])
    return np.array(rows, dtype=object)


def passbands(names=("g", "r")):
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    tab = {"g": [[400.0, 0.5], [450.0, 1.0]], "r": [[440.0, 0.7], [500.0, 0.2]], "i": [[490.0, 0.7], [560.0, 0.9]]}
    return PassbandGroup([Passband(np.array(tab[n]), "S", n, trim_quantile=None) for n in names])


def queries(curves, epoch, t0):
    pts = sorted({a - epoch + t0 for c in curves.values() for a, _ in c})
    out = []
    for a, b in zip(pts, pts[1:]):
        out += [a, (a + b) / 2]
    out += [pts[-1], pts[0] - 1.0, pts[-1] + 1.0, pts[0] - 17.3, pts[-1] + 23.7, pts[0] - 1e-3, pts[-1] + 1e-3]
    return out[::2] + out[1::2][::-1]  # not in order of time


def one(ctx, gg, gr, kind, number, epoch, periodic, mags, base, t0):
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData, LightcurveTemplateModel

    curves = {"g": curve(gg, "g", periodic), "r": curve(gr, "r", periodic)}
    given = container(curves, kind, number)
    before = {f: v.copy() for f, v in given.items()} if isinstance(given, dict) else given.copy()
    baseline = None if base is None else {"g": 25.0 if mags else base, "r": 26.0 if mags else 3.0}
    bbefore = None if baseline is None else dict(baseline)
    start = curves["g"][0][0]
    ep = {"zero": 0.0, "first": start, "other": 1.5}[epoch]
    what = f"g={gg} r={gr} {kind} {number} epoch={ep} periodic={periodic} magnitudes={mags} baseline={baseline} t0={t0}"
    status, data = ctx.attempt(lambda: LightcurveData(given, ep, periodic=periodic, magnitudes_in=mags, baseline=baseline))
    bad = periodic and (gg != gr or len(curves["g"]) < 2 or (ep != 0.0 and ep != start))
    ctx.step()
    if bad:
        ctx.check(status == "err" and isinstance(data, ValueError), f"{what}: should be refused, got {data!r}")
        ctx.outcome("refused")
        return
    if not ctx.check(status == "ok", lambda: f"{what}: {type(data).__name__}: {data}"):
        return
    period = curves["g"][-1][0] - start if periodic else None
    conv = m2f if mags else (lambda v: v)
    real = {f: [(a, conv(v)) for a, v in c] for f, c in curves.items()}
    rb = {f: (0.0 if bbefore is None else conv(bbefore[f])) for f in curves}
    ctx.eq(sorted(data.filters), ["g", "r"], f"{what}: filters")
    ctx.eq(data.period, period, f"{what}: period")
    qs = queries(real, start if periodic else ep, t0)
    want = {f: [ref_value(real[f], ep, period, rb[f], q - t0) for q in qs] for f in "gr"}
    models = [("data", None)]
    if not mags:
        models.append(("model", LightcurveTemplateModel(given, passbands(), ep, periodic=periodic, baseline=baseline, t0=t0)))
    for name, m in models:
        for f in "gr":
            if m is None:
                ctx.eq(data.evaluate_sed(np.array(qs) - t0, f), want[f], f"{what}: {f}", 1e-7, 1e-7)
            else:
                got = m.evaluate_bandfluxes(None, np.array(qs), [f] * len(qs), m.sample_parameters())
                ctx.eq(got, want[f], f"{what}: band fluxes in {f}", 1e-7, 1e-7)
                mixed = m.evaluate_bandfluxes(None, np.array(qs + qs), ["r"] * len(qs) + ["g"] * len(qs), m.sample_parameters())
                ctx.eq(mixed, want["r"] + want["g"], f"{what}: band fluxes in both", 1e-7, 1e-7)
            ctx.step()
    if not mags:
        # The SED has the same band fluxes.
        pb = passbands()
        st = m.sample_parameters()
        sed = m.compute_sed(np.array(qs), pb.waves, st)
        for f in "gr":
            ctx.eq(pb.fluxes_to_bandflux(sed, f), want[f], f"{what}: band fluxes of the SED in {f}", 1e-6, 1e-6)
        ctx.raises(ValueError, lambda: m.evaluate_bandfluxes(None, np.array(qs[:2]), ["g", "i"], st), f"{what}: unsupported filter")
        ctx.raises(ValueError, lambda: data.evaluate_sed(np.array(qs[:2]), "i"), f"{what}: unsupported filter")
    same_in = all(np.array_equal(given[f], before[f]) for f in before) if isinstance(given, dict) else np.array_equal(given, before)
    ctx.check(same_in, f"{what}: the caller's curves were changed")
    ctx.check(baseline == bbefore, f"{what}: the caller's baseline was changed from {bbefore} to {baseline}")
    again = LightcurveData(given, ep, periodic=periodic, magnitudes_in=mags, baseline=baseline)
    for f in "gr":
        ctx.eq(again.evaluate_sed(np.array(qs) - t0, f), want[f], f"{what}: {f}, second use of the same input", 1e-7, 1e-7)
    ctx.state((gg, gr, kind, number, epoch, periodic, mags, base, t0))
    ctx.outcome(f"periodic={periodic} baseline={base is not None} mags={mags}")


def sec_curves(ctx):
    t0s = ctx.pick([0.0, 7.5], [0.0, 7.5, -60000.0])
    for gg, gr, kind, number, epoch, periodic, mags, base, t0 in itertools.product(
        GRIDS, GRIDS, ("dict2", "dict3", "strings", "objects"), ("float", "int"), ("zero", "first", "other"), (False, True), (False, True), (None, 2.0), t0s
    ):
        if ctx.tier == "quick" and gg != gr and (kind in ("strings", "objects") or mags) and number == "float":
            continue
        if periodic and gg != gr and (kind != "dict2" or number == "int" or t0):
            continue
        desc = [gg, gr, kind, number, epoch, periodic, mags, base, t0]
        ctx.case(desc, one, ctx, *desc)


# ---------------------------------------------------------------------- SED form
PB = {
    "a": [[400.0, 0.5], [450.0, 1.0]],
    "b": [[440.0, 0.7], [500.0, 0.2]],
    "c": [[410.0, 0.7], [440.0, 0.9]],
    "d": [[450.0000001, 0.3], [470.0000001, 0.8]],
    "e": [[380.0, 0.3], [400.0000001, 0.8]],
    "f": [[600.0, 0.3], [620.0, 0.0], [640.0, 0.6]],
    "h": [[402.0, 0.4], [503.0, 0.5]],
}


def sec_sed(ctx):
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
    from lightcurvelynx.models.lightcurve_template_model import LightcurveTemplateModel

    for r in (1, 2, 3, 4) if ctx.tier == "thorough" else (1, 2, 3):
        for names in itertools.permutations(PB, r):
            for used in range(1, r + 1):

                def go(names=names, used=used):
                    def band(n):
                        return Passband(np.array(PB[n]), "S", n, delta_wave=5.0, trim_quantile=None)

                    group = PassbandGroup([band(n) for n in names])
                    filters = names[:used]
                    curves = {f: np.array([[0.0, 10.0 + i], [4.0, 30.0 - 5 * i]]) for i, f in enumerate(filters)}
                    what = f"passbands {names}, curves for {filters}"
                    # Which grid points belong to one filter only?
                    sig = {}
                    for f in filters:
                        t = band(f).processed_transmission_table
                        sig[f] = {round(w, 4) for w, v in t if v > 1e-5}
                    lonely = {f: sig[f] - set().union(*(sig[g] for g in filters if g != f)) for f in filters}
                    mk = lambda: LightcurveTemplateModel(curves, group, 0.0, t0=0.0)  # noqa: E731
                    ctx.step()
                    ctx.state((names, used))
                    if any(not lonely[f] for f in filters):
                        ctx.raises(ValueError, mk, f"{what}: no wavelengths of their own")
                        ctx.outcome("refused")
                        return
                    status, m = ctx.attempt(mk)
                    if not ctx.check(status == "ok", lambda: f"{what}: {type(m).__name__}: {m}"):
                        return
                    ts = np.array([1.0, 0.0, 4.0, 9.0])
                    sed = m.compute_sed(ts, group.waves, m.sample_parameters())
                    for i, f in enumerate(filters):
                        want = [ref_value([(0.0, 10.0 + i), (4.0, 30.0 - 5 * i)], 0.0, None, 0.0, t) for t in ts]
                        ctx.eq(group.fluxes_to_bandflux(sed, f), want, f"{what}: SED's band fluxes in {f}", 1e-3, 1e-3)
                        ctx.eq(m.evaluate_bandfluxes(group, ts, [f] * 4, m.sample_parameters()), want, f"{what}: band fluxes in {f}")
                    ctx.outcome(f"filters={used}")

                ctx.case([list(names), used], go)


# ---------------------------------------------------------------------- several curves
def sec_multi(ctx):
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData, MultiLightcurveTemplateModel

    pool = {
        "p": ({"g": [(0.0, 1.0), (4.0, 5.0)], "r": [(0.0, 2.0), (4.0, 9.0)]}, False, {"g": 0.5, "r": 0.25}),
        "q": ({"g": [(0.0, 11.0), (1.0, 15.0), (2.0, 11.0)], "r": [(0.0, 12.0), (1.0, 19.0), (2.0, 12.0)]}, True, None),
        "s": ({"g": [(1.0, 21.0), (2.0, 25.0)]}, False, None),
        "u": ({"r": [(-1.0, 31.0), (2.0, 35.0)]}, False, {"r": 7.0}),
    }
    ts = np.array([0.5, -0.5, 3.0, 1.0, 30.0])
    for r in (1, 2, 3):
        for names in itertools.permutations(pool, r):
            for pick in [None, *range(r)]:

                def go(names=names, pick=pick):
                    lcs = [LightcurveData({f: np.array(c) for f, c in pool[n][0].items()}, 0.0, periodic=pool[n][1], baseline=pool[n][2]) for n in names]
                    w = None if pick is None else [1.0 if i == pick else 0.0 for i in range(len(names))]
                    pb = passbands()
                    m = MultiLightcurveTemplateModel(lcs, pb, weights=w, t0=0.0, node_label="m")
                    ctx.eq(len(m), len(names), "number of curves")
                    for seed, num in itertools.product(range(2), (1, 5)):
                        st = m.sample_parameters(num_samples=num, rng_info=np.random.default_rng(seed))
                        sel = np.atleast_1d(st["m"]["selected_lightcurve"])
                        if pick is not None:
                            ctx.eq(sel.tolist(), [pick] * num, f"{names}: selection with all weight on {pick}")
                        for f in sorted({f for n in names for f in pool[n][0]}):
                            got = np.atleast_1d(st["m"][f"baseline_{f}"])
                            ctx.eq(got, [(pool[names[s]][2] or {}).get(f, 0.0) for s in sel], f"{names}: baselines in {f}")
                            for i, s in enumerate(sel):
                                one = st.extract_single_sample(i)
                                c, per, base = pool[names[s]]
                                ctx.step()
                                if f not in c:
                                    ctx.raises(ValueError, lambda one=one, f=f: m.evaluate_bandfluxes(pb, ts, [f] * len(ts), one), f"{names}: curve {names[s]} has no {f}")
                                    ctx.outcome("unsupported")
                                    continue
                                period = c[f][-1][0] - c[f][0][0] if per else None
                                want = [ref_value(c[f], 0.0, period, (base or {}).get(f, 0.0), t) for t in ts]
                                ctx.eq(m.evaluate_bandfluxes(pb, ts, [f] * len(ts), one), want, f"{names}: curve {names[s]} in {f}")
                                if len(c) == len(m.all_filters):
                                    sed = m.compute_sed(ts, pb.waves, one)
                                    ctx.eq(pb.fluxes_to_bandflux(sed, f), want, f"{names}: SED of curve {names[s]} in {f}", 1e-6, 1e-6)
                                ctx.outcome(f"curve {names[s]}")
                    ctx.state((names, pick))

                ctx.case([list(names), pick], go)


# ---------------------------------------------------------------------- LCLIB tables
def sec_lclib(ctx):
    from astropy.table import Table
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData

    import logging

    logging.disable(logging.CRITICAL)
    layouts = list(
        itertools.product(
            (None, "", "PERIODIC", "RECUR-PERIODIC", "RECUR-NONPERIODIC", "NON-RECUR", "OTHER"),
            (None, "S", "TS", "TTS", "STS"),
            (None, 0.0, 3.0, 5.0),
            (None, ["r"], ["r", "g"], ["g", "nope"], ["nope"]),
            ("gr", "", "g", "r"),  # the filters whose curve ends where it began
            (0.0, 3.0),
        )
    )
    for recur, types, forced, filters, wraps, start in layouts:

        def go(recur=recur, types=types, forced=forced, filters=filters, wraps=wraps, start=start):
            times = [start, start + 1.0, start + 4.0, start + 7.0]
            mags = {"g": [20.0, 22.0, 21.0, 20.0 if "g" in wraps else 23.0], "r": [25.0, 24.0, 23.5, 25.0 if "r" in wraps else 24.5]}
            rows = [("S", t, mags["g"][i], mags["r"][i]) for i, t in enumerate(times)]
            tmpl = [("T", start - 2.0 + k, 27.0 + k, 28.0 + k) for k in range((types or "").count("T"))]
            if types == "STS":
                rows = rows[:2] + tmpl + rows[2:]
            else:
                rows = tmpl + rows
            cols = {"time": [r[1] for r in rows], "g": [r[2] for r in rows], "r": [r[3] for r in rows]}
            if types is not None:
                cols["type"] = [r[0] for r in rows]
            meta = {} if recur is None else {"RECUR_CLASS": recur}
            table = Table(cols, meta=meta)
            copy = table.copy()
            what = f"class={recur} types={types} forced={forced} filters={filters} wraps={wraps} start={start}"
            status, d = ctx.attempt(lambda: LightcurveData.from_lclib_table(table, forced_lc_t0=forced, filters=filters))
            ctx.step()
            ctx.check(all(np.array_equal(table[c], copy[c]) for c in copy.colnames) and table.colnames == copy.colnames, f"{what}: the caller's table was changed")
            use = [f for f in ("g", "r") if filters is None or f in filters]
            periodic = recur in ("PERIODIC", "RECUR-PERIODIC")
            epoch = start if forced is None else forced
            bad = not use or recur == "OTHER" or (periodic and epoch not in (0.0, start))
            ctx.state((recur, types, forced, str(filters), wraps, start))
            if bad:
                ctx.check(status == "err" and isinstance(d, ValueError), f"{what}: should be refused, got {d!r}")
                ctx.outcome("refused")
                return
            if not ctx.check(status == "ok", lambda: f"{what}: {type(d).__name__}: {d}"):
                return
            ctx.eq(sorted(d.filters), use, f"{what}: filters")
            for f in use:
                c = [(t, m2f(m)) for t, m in zip(times, mags[f])]
                period = None
                if periodic:
                    if not all(abs(m2f(mags[g][0]) - m2f(mags[g][-1])) <= 1e-8 + 1e-5 * m2f(mags[g][-1]) for g in use):
                        c.append((times[-1] + (times[-1] - times[0]) / 3, c[0][1]))
                    period = c[-1][0] - c[0][0]
                base = m2f({"g": 27.0, "r": 28.0}[f]) if types and "T" in types and not periodic else 0.0
                qs = [x + y for x in times for y in (0.0, 0.4, 1.0, -0.7)] + [start - 5.0, start + 11.0, start + 7.0]
                qs = [q - (start if periodic else epoch) for q in qs]
                want = [ref_value(c, epoch, period, base, q) for q in qs]
                ctx.eq(d.evaluate_sed(np.array(qs), f), want, f"{what}: {f}", 1e-7, 1e-9)
            ctx.outcome(f"periodic={periodic} template={bool(tmpl)}")

        ctx.case([recur, types, forced, filters, wraps, start], go)


def sec_lclib_names(ctx):
    """LCLIB tables whose filters' names contain each other: exactly the ones asked for are used."""
    from astropy.table import Table
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData

    names = ["r", "r2", "lsst_r", "R"]
    mags = {f: [20.0 + k, 21.0 + k, 20.5 + k] for k, f in enumerate(names)}
    for cols in [c for r in (1, 2, 3, 4) for c in itertools.permutations(names, r)]:
        for asked in [None] + [list(c) for r in (1, 2) for c in itertools.combinations(names, r)]:

            def go(cols=cols, asked=asked):
                table = Table({"time": [0.0, 1.0, 3.0], **{f: mags[f] for f in cols}}, meta={"RECUR_CLASS": "NON-RECUR"})
                use = [f for f in cols if asked is None or f in asked]
                ctx.step()
                ctx.state((cols, str(asked)))
                if not use:
                    ctx.raises(ValueError, lambda: LightcurveData.from_lclib_table(table, filters=asked), f"{cols} asked for {asked}")
                    ctx.outcome("refused")
                    return
                d = LightcurveData.from_lclib_table(table, filters=asked)
                ctx.eq(sorted(d.filters), sorted(use), f"{cols} asked for {asked}: filters")
                for f in use:
                    ctx.eq(d.evaluate_sed(np.array([0.0, 3.0]), f), [m2f(mags[f][0]), m2f(mags[f][2])], f"{cols} asked for {asked}: {f}", 1e-7)
                ctx.outcome("used")

            ctx.case([list(cols), asked], go)


def sec_files(ctx):
    """Models from whole LCLIB files: each event with its own reference time, filters and weight."""
    import os
    import tempfile
    from pathlib import Path

    from lightcurvelynx.models.lightcurve_template_model import MultiLightcurveTemplateModel

    d = Path(tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"]))
    pool = {  # class, first time, magnitudes in g and r, template row
        "a": ("NON-RECUR", 0.0, [(20.0, 25.0), (22.0, 24.0), (21.0, 23.5)], None),
        "b": ("NON-RECUR", 5.0, [(19.0, 21.0), (18.0, 22.0)], (27.0, 28.0)),
        "p": ("RECUR-PERIODIC", 0.0, [(20.5, 24.5), (21.5, 22.5), (23.0, 23.0), (20.5, 24.5)], None),
    }
    pb = passbands()
    ts = np.array([0.5, 3.0, -2.5, 7.25, 1.0, 4.0, 40.0])

    def write(names):
        lines = ["SURVEY: LSST", "FILTERS: gr", "RECUR_CLASS: NON-RECUR", f"NEVENT: {len(names)}", ""]
        for k, n in enumerate(names):
            cls, start, rows, tmpl = pool[n]
            lines += [f"START_EVENT: {k}", f"RECUR_CLASS: {cls}", f"NROW: {len(rows) + (tmpl is not None)}"]
            if tmpl:
                lines.append(f"T: {start - 2.0} {tmpl[0]} {tmpl[1]}")
            lines += [f"S: {start + i * 1.5} {g} {r}" for i, (g, r) in enumerate(rows)]
            lines += [f"END_EVENT: {k}", ""]
        path = d / "lib.dat"
        path.write_text("\n".join(lines) + "\n")
        return path

    def value(n, epoch, f, t):
        cls, start, rows, tmpl = pool[n]
        c = [(start + i * 1.5, m2f(r["gr".index(f)])) for i, r in enumerate(rows)]
        per = cls == "RECUR-PERIODIC"
        base = m2f(tmpl["gr".index(f)]) if tmpl else 0.0
        return ref_value(c, start if epoch is None else epoch, c[-1][0] - c[0][0] if per else None, base, t)

    def go(names, forced, filters, t0):
        ctx.step()
        path = write(names)
        given = forced if forced is None or np.isscalar(forced) else np.array(forced) if len(names) % 2 else list(forced)
        each = [forced] * len(names) if forced is None or np.isscalar(forced) else forced
        bad = len(each) != len(names) or any(pool[n][0] == "RECUR-PERIODIC" and e not in (None, 0.0) for n, e in zip(names, each))
        make = lambda w=None: MultiLightcurveTemplateModel.from_lclib_file(  # noqa: E731
            str(path), pb, forced_lc_t0=given, filters=filters, weights=w, t0=t0, node_label="m"
        )
        what = f"events {names}, reference times {forced}, filters {filters}"
        ctx.state((names, str(forced), str(filters), t0))
        if bad:
            ctx.raises(ValueError, make, what)
            ctx.outcome("refused")
            return
        for pick in range(len(names)):
            m = make([1.0 if i == pick else 0.0 for i in range(len(names))])
            ctx.eq(len(m), len(names), f"{what}: number of curves")
            ctx.eq(sorted(m.all_filters), sorted(filters or "gr"), f"{what}: filters")
            st = m.sample_parameters()
            for f in filters or "gr":
                want = [value(names[pick], each[pick], f, t - t0) for t in ts]
                ctx.eq(m.evaluate_bandfluxes(pb, ts, [f] * len(ts), st), want, f"{what}: event {pick} in {f}", 1e-7, 1e-9)
        ctx.outcome("file")

    for k in (1, 2, 3):
        for names in itertools.product(pool, repeat=k):
            for forced in (None, 0.0, 2.0, (0.0,) * k, tuple([0.0, 1.5, 5.0][:k]), (0.0,) * (k + 1)):
                for filters in (None, ["r"], ["g"]):
                    for t0 in (0.0, 3.0):
                        ctx.case(["file", names, forced, filters, t0], go, names, forced, filters, t0)

    def empty():
        path = d / "none.dat"
        path.write_text("SURVEY: LSST\nFILTERS: gr\n")
        ctx.raises(ValueError, lambda: MultiLightcurveTemplateModel.from_lclib_file(str(path), pb), "a file without events")

    ctx.case(["file", "empty"], empty)


# ---------------------------------------------------------------------- refusals
def sec_refuse(ctx):
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData, LightcurveTemplateModel, MultiLightcurveTemplateModel

    def data():
        good = np.array([[0.0, 1.0], [1.0, 2.0]])
        for order in itertools.product([0.0, 1.0, 2.0], repeat=3):
            for where in ("g", "r"):
                c = {"g": good, "r": good}
                c[where] = np.array([[t, 1.0] for t in order])
                if all(b > a for a, b in zip(order, order[1:])):
                    LightcurveData(c, 0.0)
                    ctx.outcome("sorted")
                else:
                    ctx.raises(ValueError, lambda c=c: LightcurveData(c, 0.0), f"times {order} of {where}")
                    ctx.outcome("unsorted")
        for shape in ((2, 1), (2, 4), (2,)):
            ctx.raises(ValueError, lambda shape=shape: LightcurveData({"g": good, "r": np.zeros(shape)}, 0.0), f"shape {shape}")
        for cols in (2, 4):
            ctx.raises(ValueError, lambda cols=cols: LightcurveData(np.zeros((3, cols)), 0.0), f"array of {cols} columns")
        ctx.raises(TypeError, lambda: LightcurveData([[0.0, 1.0, "g"]], 0.0), "a list")
        for keys in ([], ["g"], ["r"], ["x"]):
            ctx.raises(ValueError, lambda keys=keys: LightcurveData({"g": good, "r": good}, 0.0, baseline={k: 1.0 for k in keys}), f"baseline for {keys}")
        ctx.raises(ValueError, lambda: LightcurveData({}, 0.0, periodic=True), "no periodic curves")
        for v in itertools.product([1.0, 2.0], repeat=3):
            c = {"g": np.column_stack(([0.0, 1.0, 2.0], v))}
            if v[0] == v[-1]:
                ctx.eq(LightcurveData(c, 0.0, periodic=True).period, 2.0, "period")
            else:
                ctx.raises(ValueError, lambda c=c: LightcurveData(c, 0.0, periodic=True), f"periodic values {v}")

    ctx.case(["data"], data)

    def model():
        good = {"g": np.array([[0.0, 1.0], [1.0, 2.0]])}
        ctx.raises(ValueError, lambda: LightcurveTemplateModel(good, passbands(), 0.0), "no t0")
        ctx.raises(ValueError, lambda: LightcurveTemplateModel(good, passbands(), 0.0, t0=None), "t0 of None")
        ctx.raises(ValueError, lambda: LightcurveTemplateModel(good, passbands(("r",)), 0.0, t0=0.0), "no passband")
        ctx.raises(TypeError, lambda: MultiLightcurveTemplateModel([good], passbands(), t0=0.0), "bare curves")
        # A LightcurveData instance and a single passband are accepted.
        d = LightcurveData({"g": np.array([[5.0, 1.0], [9.0, 2.0]])}, 5.0, baseline={"g": 4.0})
        for pb in (passbands(("g",)), next(iter(passbands(("g",))))):
            status, m = ctx.attempt(lambda pb=pb: LightcurveTemplateModel(d, pb, 5.0, t0=100.0))
            if ctx.check(status == "ok", lambda: f"LightcurveData instance: {type(m).__name__}: {m}"):
                got = m.evaluate_bandfluxes(None, np.array([102.0, 99.0, 104.0]), ["g"] * 3, m.sample_parameters())
                ctx.eq(got, [1.5, 4.0, 2.0], "LightcurveData instance")

    ctx.case(["model"], model)


assert math.isclose(m2f(ZP), 1.0)
SECTIONS = [
    ("curves", sec_curves, (6, 8)),
    ("sed", sec_sed, (4, 8)),
    ("multi", sec_multi, (2, 2)),
    ("lclib", sec_lclib, (2, 2)),
    ("lclib_names", sec_lclib_names),
    ("files", sec_files, (2, 4)),
    ("refuse", sec_refuse),
    ("memory", memory.sec_models(memory.template_models), 2),
]
