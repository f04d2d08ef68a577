"""S03: noise-free light curves are the model evaluated at the stated rest-frame phases, per filter and per object."""

import itertools

import numpy as np

from mc.core import same

ID = "S03"
RULE = (
    "every combination of samples, redshifts, reference times, phase grids (scalar, integer and per-object) and filters "
    "for SED, bandflux and multi-object models, against the model's formula; a state is one configuration"
)
ASSUMPTIONS = ["the model's flux formula depends on time and filter, so a misplaced value is visible"]


def expected_grid(lo, hi, step):
    out, k = [], 0
    while lo + k * step < hi - 1e-9:
        out.append(lo + k * step)
        k += 1
    return out


def run(ctx, kind, zs, t0s, lo, hi, step, gk):
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel
    from lightcurvelynx.simulate import compute_noise_free_lightcurves, compute_single_noise_free_lightcurve
    from mc.props.s01 import FCODE, group, models

    Flux, Sed = models()
    n = len(t0s)
    b = [3.0, -5.0, 7.0][:n]
    kw = {"b": GivenValueList(b) if n > 1 else b[0], "ra": 10.0, "dec": -5.0, "node_label": "obj"}
    if t0s[0] is not None:
        kw["t0"] = GivenValueList(t0s) if n > 1 else t0s[0]
    if zs[0] is not None:
        kw["redshift"] = GivenValueList(zs) if n > 1 else zs[0]
    extra = 0.0
    if kind == "multi":
        inner = Sed(**kw)
        other = Sed(b=1.0, ra=10.0, dec=-5.0, node_label="other")
        model = AdditiveMultiObjectModel([inner, other], ra=inner.ra, dec=inner.dec, redshift=inner.redshift, t0=inner.t0, node_label="both")
    else:
        model = (Flux if kind == "flux" else Sed)(**kw)
    state = model.sample_parameters(num_samples=n)
    pb = group(gk)
    grid = {"rest_frame_phase_min": lo, "rest_frame_phase_max": hi, "rest_frame_phase_step": step}
    kwargs = {k: np.array(v) if isinstance(v, list) else v for k, v in grid.items() if v is not None}
    res = compute_noise_free_lightcurves(model, state, pb, **kwargs)
    where = f"{kind} z={zs} t0={t0s} grid={(lo, hi, step)}"
    ctx.eq(len(res), n, f"{where}: objects")
    names = list(pb.filters)
    ctx.step(n)
    for i in range(n):
        def at(v, default):
            return default if v is None else (v[i] if isinstance(v, list) else v)

        phases = expected_grid(at(lo, -50.0), at(hi, 50.0), at(step, 2.0))
        z = zs[i] if zs[i] is not None else 0.0
        t0 = t0s[i] if t0s[i] is not None else 0.0
        times = [p * (1 + z) + t0 for p in phases]
        ctx.check(int(res["id"].iloc[i]) == i and float(res["ra"].iloc[i]) == 10.0 and float(res["dec"].iloc[i]) == -5.0, f"{where}: object {i}: id and position")
        if zs[i] is not None:
            ctx.eq(float(res["z"].iloc[i]), z, f"{where}: object {i}: redshift")
        single = compute_single_noise_free_lightcurve(model, state.extract_single_sample(i), pb, **{k: float(at(grid[k], 0)) for k in kwargs})
        lc = res["lightcurve"].iloc[i]
        views = [("single", single)]
        if lc is None or not phases:
            ctx.check(not phases and (lc is None or len(lc) == 0), f"{where}: object {i} has no light curve")
        else:
            views.append(("list", {c: np.asarray(lc[c], dtype=float) for c in lc.columns}))
        for name, got in views:
            ctx.eq(set(got), {"times", "rest_phase", *names}, f"{where} {name}: object {i}: columns")
            ctx.eq(np.asarray(got["rest_phase"], dtype=float), np.array(phases), f"{where} {name}: object {i}: phases")
            ctx.eq(np.asarray(got["times"], dtype=float), np.array(times), f"{where} {name}: object {i}: times")
            for f in names:
                band = f.split("_")[-1]
                if kind == "flux":
                    want = [b[i] * 1000.0 + t + FCODE[band] for t in times]
                else:
                    # rest-frame time of the model, flux of a redshifted source is (1+z) times the rest-frame one
                    rest = [(t - t0) / (1 + z) + t0 if zs[i] is not None else t for t in times]
                    want = [(b[i] * 1000.0 + r) * (1 + z) for r in rest]
                    if kind == "multi":
                        want = [w + 1000.0 + t for w, t in zip(want, times)]
                ctx.eq(np.asarray(got[f], dtype=float), np.array(want), f"{where} {name}: object {i}: {f}", rtol=1e-8)
        ctx.state((kind, z, t0, lo, hi, step, n, i))
    ctx.outcome(kind)


GRIDS = [
    (None, None, None), (-10.0, 10.0, 2.5), (-10, 11, 3), (0.0, 1.0, 0.25), (-3.0, 60.0, 7.0), (5.0, 5.0, 1.0), (-1.0, None, 13.0), (-2, 2, 0.5), (-3, 2.5, 1), (0.5, 4, 1),
]  # fmt: skip


def sec_grid(ctx):
    for kind in ("sed", "flux", "multi"):
        for z in (None, 0.0, 0.25, 2.0, -0.1):
            for t0 in (None, 0.0, 60000.5, 60000):
                if z is not None and z != 0 and t0 is None and kind != "flux":
                    continue
                if kind == "flux" and z is not None and z != 0 and ctx.tier == "quick" and t0 == 0.0:
                    continue
                for grid in GRIDS:
                    for gk in (0, 1):
                        ctx.case({"kind": kind, "z": z, "t0": t0, "grid": grid, "group": gk}, run, ctx, kind, [z], [t0], *grid, gk)


def sec_many(ctx):
    per = [
        (-10.0, 10.0, 2.5), ([-4.0, -2.0, 0.0], [4.0, 8.0, 1.0], [1.0, 2.5, 0.5]), ([-4.0, -2.0, 0.0], 3.0, 1.0), (-3.0, [4.0, 8.0, 1.0], 1.0),
        (0.0, 4.0, [1.0, 2.0, 4.0]), (-2, 2, 0.5), (-3, [1.5, 2.5, 0.5], 1), ([-2, -1, 0], 1.5, 0.5), ([-4, -2, 0], [4, 8, 1], [1, 2, 1]),
    ]  # fmt: skip
    for kind in ("sed", "flux", "multi"):
        for zs in ([0.0, 0.5, 2.0], [1.0, 0.0, 0.25], [-0.2, 0.5, -0.01], [None] * 3):
            for t0s in ([0.0, 100.0, 60000.5], [7.0, 7.0, 7.0], [None] * 3):
                if zs[0] is not None and t0s[0] is None and kind != "flux":
                    continue
                for grid in per:
                    for m in (2, 3):
                        g = tuple(v[:m] if isinstance(v, list) else v for v in grid)
                        ctx.case({"kind": kind, "zs": zs[:m], "t0s": t0s[:m], "grid": [v for v in g]}, run, ctx, kind, zs[:m], t0s[:m], *g, 0)

    def refuse():
        from lightcurvelynx.simulate import compute_single_noise_free_lightcurve
        from mc.props.s01 import group, models

        m = models()[1](b=1.0, ra=1.0, dec=1.0, node_label="obj")
        st = m.sample_parameters(num_samples=2)
        ctx.raises(ValueError, lambda: compute_single_noise_free_lightcurve(m, st, group(0)), "several samples in a single light curve")

    ctx.case({"refuse": 1}, refuse)


SECTIONS = [("grid", sec_grid, 8), ("many", sec_many, 4)]
