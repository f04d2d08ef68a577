"""V01: plots show exactly the given data, each point once, under its own filter, name, time and wavelength."""

import itertools

import numpy as np

ID = "V01"
RULE = (
    "every combination of point counts, filter sequences, error bars, noise-free models, colours, axes and malformed lengths for "
    "the plots of light curves, band fluxes, spectrograms, passbands, footprints and templates; a state is one plot, read back from its artists"
)
ASSUMPTIONS = ["matplotlib draws the artists it holds"]


def setup():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    return plt


def target(plt, where):
    """The axes and figure to give, and a function that says whether the result is where it was asked for."""
    if where == "ax":
        fig, ax = plt.subplots()
        return {"ax": ax}, lambda got: got is ax and len(plt.get_fignums()) == 1
    if where == "figure":
        fig = plt.figure()
        return {"figure": fig}, lambda got: got.figure is fig and got in fig.axes and len(plt.get_fignums()) == 1
    if where == "both":
        fig, ax = plt.subplots()
        return {"ax": ax, "figure": fig}, lambda got: got is ax
    return {}, lambda got: got.figure is not None


def rgba(c):
    from matplotlib.colors import to_rgba

    return to_rgba(c)[:3]


def series(ax):
    """What is drawn: points and lines with label, colour and values; error bars as points with their half lengths."""
    from matplotlib.container import ErrorbarContainer

    out, used = [], set()
    for c in ax.containers:
        if isinstance(c, ErrorbarContainer):
            data, _, bars = c.lines
            used.add(id(data))
            half = [(seg[1][1] - seg[0][1]) / 2 for seg in bars[0].get_segments()]
            out.append((c.get_label(), rgba(data.get_color()), list(zip(map(float, data.get_xdata()), map(float, data.get_ydata()), half, strict=True)), "bars"))
            used |= {id(x) for x in c.lines[1]}
    for line in ax.lines:
        if id(line) not in used:
            kind = "points" if line.get_marker() not in ("", "None", None, " ") else "line"
            x, y = np.ravel(line.get_xdata()), np.ravel(line.get_ydata())
            out.append((line.get_label(), rgba(line.get_color()), [(float(a), float(b), None) for a, b in zip(x, y, strict=True)], kind))
    return [s for s in out if s[2]]


def sec_lightcurves(ctx):
    from lightcurvelynx.utils.plotting import plot_lightcurves

    plt = setup()

    def go(n, filters, errs, model, cmap, where, title):
        ctx.step()
        times = np.array([5.0, 1.0, 3.5, 3.5, 2.0][:n])
        fluxes = np.array([10.0, -2.0, 7.0, 7.5, 0.0][:n])
        errors = np.array([0.5, 0.25, 1.0, 2.0, 0.125][:n]) if errs else None
        given = None if filters is None else (list(filters) if len(filters) % 2 else np.array(filters, dtype=str))
        names = sorted(set(filters)) if filters is not None else []
        lines = {}
        if model:
            lines = {"times": np.array([0.0, 4.0, 2.0, 6.5])}
            for k, f in enumerate(names[:1] if model == "one" else names + ["unused"]):
                lines[f] = np.array([1.0, 2.0, 3.0, 4.0]) * (k + 1)
        colors = {f: c for f, c in zip(sorted({"g", "r", "i", *names}), ["#ff0000", "#00ff00", "#0000ff", "#123456", "#654321"])} if cmap else None
        keep = [np.copy(x) if x is not None else None for x in (times, fluxes, errors)]
        kw, placed = target(plt, where)
        how, ax = ctx.attempt(lambda: plot_lightcurves(fluxes, times, fluxerrs=errors, filters=given, underlying_model=lines or None, title=title, colormap=colors, **kw))
        if not ctx.check(how == "ok", lambda: f"failed: {ax!r}"):
            plt.close("all")
            return
        ctx.check(placed(ax), f"drawn elsewhere than in the given {where}")
        got = series(ax)
        points = [s for s in got if s[3] != "line"]
        flat = sorted((x, y) for s in points for x, y, _ in s[2])
        ctx.eq(flat, sorted(zip(times.tolist(), fluxes.tolist())), "points drawn")
        want = {(f"Sample {f}",): [i for i in range(n) if filters[i] == f] for f in names} if filters is not None else {None: list(range(n))}
        byname = {}
        for s in points:
            ctx.check(s[3] == ("bars" if errs else "points"), "error bars are drawn exactly if errors were given")
            key = (s[0],) if filters is not None else None
            byname.setdefault(key, []).extend(s[2])
        ctx.eq(
            {k: sorted((round(a, 9), round(b, 9), None if c is None else round(float(c), 9)) for a, b, c in v) for k, v in byname.items()},
            {k: sorted((times[i], fluxes[i], errors[i] if errs else None) for i in v) for k, v in want.items() if v},
            "points of each filter",
        )
        mlines = [s for s in got if s[3] == "line"]
        ctx.eq(
            sorted((s[0], [(a, b) for a, b, _ in s[2]]) for s in mlines),
            sorted((f"Model {f}", list(zip(lines["times"].tolist(), lines[f].tolist()))) for f in lines if f in names),
            "noise-free curves",
        )
        col = {s[0].split(" ")[-1]: s[1] for s in points}
        for s in mlines:
            ctx.check(s[1] == col[s[0].split(" ")[-1]], "a noise-free curve has the colour of another filter")
        if filters is not None:
            if cmap:
                ctx.eq(col, {f: rgba(colors[f]) for f in names if f in col}, "colours")
            elif len(names) <= 7:
                ctx.eq(len(set(col.values())), len(col), "different colours")
        ctx.eq(ax.get_legend() is not None, len(names) > 1, "legend")
        if ax.get_legend() is not None:
            ctx.eq(sorted(t.get_text() for t in ax.get_legend().get_texts()), sorted([f"Sample {f}" for f in names] + [s[0] for s in mlines]), "names in the legend")
        ctx.eq(ax.get_title(), title or "", "title")
        for a, b in zip((times, fluxes, errors), keep):
            ctx.check(a is None or np.array_equal(a, b), "the caller's data were changed")
        plt.close("all")
        ctx.state((n, filters, errs, model, cmap, where, title))
        ctx.outcome("drawn")

    for n in range(ctx.pick(4, 5)):
        for filters in [None, *itertools.product("gri"[: 3 if n < 4 else 2], repeat=n)]:
            for errs, model, cmap in itertools.product((False, True), (None, "one", "all"), (False, True)):
                if filters is None and (model or cmap):
                    continue
                ctx.case(["lightcurves", n, filters, errs, model, cmap], go, n, filters, errs, model, cmap, "new", None)
    for where, title in itertools.product(("new", "ax", "figure", "both"), (None, "Name")):
        for errs in (False, True):
            ctx.case(["lightcurves", where, title, errs], go, 3, ("r", "g", "r"), errs, "all", False, where, title)

    def many(k, errs):
        """As many filters as there are points."""
        ctx.step()
        names = [f"f{i:02d}" for i in range(k)]
        times, fluxes = np.arange(float(k)), np.arange(float(k)) * 2
        how, ax = ctx.attempt(lambda: plot_lightcurves(fluxes, times, fluxerrs=np.ones(k) if errs else None, filters=np.array(names)))
        if ctx.check(how == "ok", lambda: f"{k} filters: {ax!r}"):
            got = {s[0]: [(a, b) for a, b, _ in s[2]] for s in series(ax)}
            ctx.eq(got, {f"Sample {f}": [(float(i), 2.0 * i)] for i, f in enumerate(names)}, "points of each filter")
            if k <= 7:
                ctx.eq(len({s[1] for s in series(ax)}), k, "different colours")
        plt.close("all")
        ctx.state(("many", k, errs))
        ctx.outcome("many")

    for k in range(1, ctx.pick(13, 30)):
        for errs in (False, True):
            ctx.case(["many", k, errs], many, k, errs)

    def wrong(nf, nt, ne, nx):
        ctx.step()
        a = lambda k: None if k is None else np.arange(float(k))  # noqa: E731
        fil = None if nx is None else np.array(["r"] * nx)
        f = lambda: plot_lightcurves(a(nf), a(nt), fluxerrs=a(ne), filters=fil)  # noqa: E731
        if nt != nf or ne not in (None, nf) or nx not in (None, nf):
            ctx.raises(ValueError, f, "sizes that do not match")
            ctx.outcome("refused")
        else:
            ctx.eq(len([p for s in series(f()) for p in s[2]]), nf, "points")
            ctx.outcome("accepted")
        plt.close("all")
        ctx.state((nf, nt, ne, nx))

    for nf, nt in itertools.product(range(3), repeat=2):
        for ne, nx in itertools.product((None, 0, 1, 2), repeat=2):
            ctx.case(["wrong", nf, nt, ne, nx], wrong, nf, nt, ne, nx)

    def history(hist):
        """Several light curves in the same axes."""
        ctx.step()
        fig, ax = plt.subplots()
        want = []
        for k, (filters, errs) in enumerate(hist):
            n = len(filters)
            t, f = np.arange(float(n)) + 10 * k, np.arange(float(n)) * 3 - k
            plot_lightcurves(f, t, fluxerrs=np.ones(n) if errs else None, filters=np.array(filters), ax=ax)
            want += [(f"Sample {c}", float(a), float(b)) for c, a, b in zip(filters, t, f)]
        ctx.eq(sorted((s[0], a, b) for s in series(ax) for a, b, _ in s[2]), sorted(want), "points")
        plt.close("all")
        ctx.state(("history", hist))
        ctx.outcome("history")

    one = [(f, e) for f in (("g",), ("g", "r"), ("r", "g", "r")) for e in (False, True)]
    for depth in range(1, ctx.pick(3, 4)):
        for hist in itertools.product(one, repeat=depth):
            ctx.case(["history", hist], history, hist)


def sec_bandflux(ctx):
    from lightcurvelynx.utils.plotting import plot_bandflux_lightcurves, plot_flux_spectrogram

    plt = setup()

    def go(lengths, times, where, title, form):
        ctx.step()
        curves = {f"c{k}": np.arange(float(n)) * (k + 1) - 2 for k, n in enumerate(lengths)}
        t = np.array([100.0, 90.0, 95.5, 97.0])[: lengths[0]] if times else None
        kw, placed = target(plt, where)
        arg = curves if form == "dict" else curves["c0"]
        how, ax = ctx.attempt(lambda: plot_bandflux_lightcurves(arg, times=t, title=title, **kw))
        if ctx.check(how == "ok", lambda: f"curves of {lengths} points: {ax!r}"):
            ctx.check(placed(ax), f"drawn elsewhere than in the given {where}")
            want = {}
            for name, c in curves.items():
                if len(c):
                    x = t if times else np.arange(float(len(c)))
                    want[name if form == "dict" else "lightcurve"] = list(zip(x.tolist(), c.tolist()))
            ctx.eq({s[0]: [(a, b) for a, b, _ in s[2]] for s in series(ax)}, want, "curves")
            ctx.eq(ax.get_legend() is not None, len(lengths) > 1, "legend")
            ctx.eq(ax.get_title(), title or "", "title")
        plt.close("all")
        ctx.state((lengths, times, where, title, form))
        ctx.outcome("drawn")

    for k in (1, 2, 3):
        for lengths in itertools.product((1, 2, 4), repeat=k):
            for times, where in itertools.product((False, True), ("new", "ax", "figure")):
                if times and len(set(lengths)) > 1:
                    continue
                for title in (None, "Name"):
                    for form in ("dict", "array")[: 2 if k == 1 else 1]:
                        ctx.case(["bandflux", lengths, times, where, title, form], go, lengths, times, where, title, form)

    def spectrogram(nt, nw, times, waves, where, title):
        ctx.step()
        flux = np.arange(float(nt * nw)).reshape(nt, nw) * 1.5 + 0.25
        t = np.array([60000.0 + 2.7 * i for i in range(nt)])
        w = np.array([3000.0 + 10.7 * i for i in range(nw)])
        keep = flux.copy()
        kw, placed = target(plt, where)
        ax = plot_flux_spectrogram(flux, times=t if times else None, wavelengths=w if waves else None, title=title, **kw)
        ctx.check(placed(ax), f"drawn elsewhere than in the given {where}")
        ctx.eq(np.asarray(ax.images[0].get_array()), flux.T, "image (wavelength by time)")
        ctx.check(np.array_equal(flux, keep), "the caller's data were changed")
        for given, axis, vals, n in ((times, ax.xaxis, t, nt), (waves, ax.yaxis, w, nw)):
            if given:
                labels = [(float(p), x.get_text()) for p, x in zip(axis.get_majorticklocs(), axis.get_ticklabels()) if x.get_text()]
                ctx.check(len(labels) > 0, "no labels")
                for p, x in labels:
                    ctx.check(p == int(p) and 0 <= p < n and float(x) == round(vals[int(p)]), lambda p=p, x=x: f"label {x} at {p}")
        for x in ax.texts:
            i, j = x.get_position()
            ctx.check(float(x.get_text()) == round(flux[int(i), int(j)], 1), lambda: f"number {x.get_text()} at time {i} and wavelength {j}: {flux[int(i), int(j)]}")
        plt.close("all")
        ctx.state((nt, nw, times, waves, where, title))
        ctx.outcome("spectrogram")

    for nt, nw in itertools.product((1, 2, 5, 9), (1, 3, 21, 60, 101)):
        for times, waves in itertools.product((False, True), repeat=2):
            for where, title in (("new", None), ("ax", "Name"), ("figure", None)):
                ctx.case(["spectrogram", nt, nw, times, waves, where, title], spectrogram, nt, nw, times, waves, where, title)


def sec_passbands(ctx):
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup

    plt = setup()

    def bands(k):
        return [
            Passband(np.array([[4000.0 + 500 * i + 100 * j, v] for j, v in enumerate([0.0, 0.5, 1.0, 0.25, 0.0])]), "S", f, delta_wave=25.0, trim_quantile=None)
            for i, f in enumerate("grzx"[:k])
        ]

    def single(idx, where, color, loaded, reprocess):
        ctx.step()
        p = bands(4)[idx]
        if reprocess:
            p.process_transmission_table(50.0, 0.01)
        keep = p.processed_transmission_table.copy()
        kw, placed = target(plt, where)
        p.plot(color=color, plot_loaded=loaded, **kw)
        ax = plt.gcf().axes[0]
        got = series(ax)
        main = [s for s in got if s[0] == p.full_name]
        ctx.eq(len(got), 2 if loaded else 1, "curves")
        ctx.eq(len(main), 1, "curves with the passband's name")
        ctx.eq([(a, b) for a, b, _ in main[0][2]], [tuple(r) for r in p.processed_transmission_table.tolist()], "the processed table")
        if loaded:
            other = [s for s in got if s is not main[0]][0]
            ctx.eq([(a, b) for a, b, _ in other[2]], [(4000.0 + 500 * idx + 100 * j, v) for j, v in enumerate([0.0, 0.5, 1.0, 0.25, 0.0])], "the loaded table")
        if color:
            ctx.eq({s[1] for s in got}, {rgba(color)}, "colour")
        ctx.check(np.array_equal(p.processed_transmission_table, keep), "the passband was changed")
        plt.close("all")
        ctx.state((idx, where, color, loaded, reprocess))
        ctx.outcome("passband")

    for idx, where, color, loaded, re in itertools.product(range(4), ("new", "ax", "figure"), (None, "#00ff00"), (False, True), (False, True)):
        ctx.case(["passband", idx, where, color, loaded, re], single, idx, where, color, loaded, re)

    def group(k, where):
        ctx.step()
        g = PassbandGroup(bands(k))
        kw, placed = target(plt, where)
        g.plot(**kw)
        ax = plt.gcf().axes[0]
        got = {s[0]: [(a, b) for a, b, _ in s[2]] for s in series(ax)}
        ctx.eq(got, {p.full_name: [tuple(r) for r in p.processed_transmission_table.tolist()] for p in g}, "curves")
        ctx.eq(sorted(t.get_text() for t in ax.get_legend().get_texts()), sorted(p.full_name for p in g), "names in the legend")
        plt.close("all")
        ctx.state((k, where))
        ctx.outcome("group")

    for k, where in itertools.product((1, 2, 3, 4), ("new", "ax", "figure")):
        ctx.case(["group", k, where], group, k, where)


def sec_footprint(ctx):
    """Detector footprints with points on top: each point in the right group, at its pixel, inside the limits."""
    import astropy.units as u
    from astropy.coordinates import SkyCoord
    from regions import CircleSkyRegion

    from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint

    plt = setup()
    shapes = {
        "rect": lambda: DetectorFootprint.from_rect(2.0, 1.0, pixel_scale=0.01),
        "circle": lambda: DetectorFootprint(CircleSkyRegion(SkyCoord(0.0, 0.0, unit="deg"), 0.8 * u.deg), pixel_scale=0.02),
    }
    made = {k: f() for k, f in shapes.items()}
    offsets = [(0.0, 0.0), (0.9, 0.0), (0.0, 0.65), (-0.3, -0.4), (3.0, -2.5), (-3.5, 2.0)]

    def go(shape, center, rotation, pts, where, form):
        ctx.step()
        fp = made[shape]
        ra = np.array([center[0] + offsets[k][0] / np.cos(np.radians(center[1])) for k in pts])
        dec = np.array([center[1] + offsets[k][1] for k in pts])
        kw, _ = target(plt, where)
        give = (lambda a: a.tolist()) if form == "list" else (lambda a: a)
        how, err = ctx.attempt(lambda: fp.plot(center_ra=center[0], center_dec=center[1], rotation=rotation, point_ra=give(ra), point_dec=give(dec), **kw))
        if ctx.check(how == "ok", lambda: f"failed: {err!r}"):
            ax = kw["ax"] if "ax" in kw else plt.gcf().axes[0]
            inside = fp.contains(ra, dec, center[0], center[1], rotation=np.full(len(pts), rotation))
            px, py = fp.sky_to_pixel(ra, dec, center[0], center[1], rotation=np.full(len(pts), rotation))
            got = {c.get_label(): sorted((round(float(x), 6), round(float(y), 6)) for x, y in c.get_offsets()) for c in ax.collections}
            want = {
                name: sorted((round(float(x), 6), round(float(y), 6)) for x, y, i in zip(px, py, inside) if i == flag)
                for name, flag in (("Inside Footprint", True), ("Outside Footprint", False))
            }
            ctx.eq(got, want, "points inside and outside")
            ctx.eq(len({rgba(c.get_edgecolor()[0] if len(c.get_edgecolor()) else c.get_facecolor()[0]) for c in ax.collections}), 2, "colours")
            (xa, xb), (ya, yb) = ax.get_xlim(), ax.get_ylim()
            ctx.check(all(xa <= x <= xb and ya <= y <= yb for x, y in zip(px, py)), "a point lies outside of the axes")
            box = fp.region.bounding_box
            ctx.check(xa <= box.ixmin and box.ixmax <= xb and ya <= box.iymin and box.iymax <= yb, "the footprint is cut off")
            ctx.eq(len(ax.patches), 1, "outlines")
        plt.close("all")
        ctx.state((shape, center, rotation, pts, where, form))
        ctx.outcome("footprint")

    for shape, center, rotation in itertools.product(shapes, ((0.0, 0.0), (359.9, 10.0), (120.0, -60.0)), (0.0, 30.0, 90.0)):
        for k in range(1, ctx.pick(3, 5)):
            for pts in itertools.combinations(range(len(offsets)), k):
                for where, form in (("ax", "array"), ("figure", "list"), ("new", "array")):
                    ctx.case(["footprint", shape, center, rotation, pts, where, form], go, shape, center, rotation, pts, where, form)

    def bare(shape, where):
        ctx.step()
        kw, _ = target(plt, where)
        made[shape].plot(**kw)
        ax = kw["ax"] if "ax" in kw else plt.gcf().axes[0]
        ctx.eq(len(ax.collections), 0, "points")
        (xa, xb), (ya, yb) = ax.get_xlim(), ax.get_ylim()
        box = made[shape].region.bounding_box
        ctx.check(xa <= box.ixmin and box.ixmax <= xb and ya <= box.iymin and box.iymax <= yb, "the footprint is cut off")
        plt.close("all")
        ctx.state(("bare", shape, where))
        ctx.outcome("footprint")

    for shape, where in itertools.product(shapes, ("ax", "figure", "new")):
        ctx.case(["bare", shape, where], bare, shape, where)


def sec_templates(ctx):
    """Template light curves and their SED basis."""
    from lightcurvelynx.astro_utils.passbands import Passband, PassbandGroup
    from lightcurvelynx.models.lightcurve_template_model import LightcurveData, LightcurveTemplateModel

    plt = setup()
    curves = {
        "u": np.array([[0.0, 1.0], [2.0, 3.0], [5.0, 2.0]]),
        "g": np.array([[1.0, 4.0], [4.0, 0.5]]),
        "x": np.array([[-1.0, 2.5], [0.0, 2.0], [1.0, 1.0], [6.0, 0.25]]),
    }

    group = PassbandGroup(
        [Passband(np.array([[4000.0 + 700 * i + 100 * j, v] for j, v in enumerate([0.0, 0.5, 1.0, 0.25, 0.0])]), "S", f, delta_wave=25.0, trim_quantile=None) for i, f in enumerate(curves)]
    )

    def go(names, t0, times, where, model):
        ctx.step()
        data = LightcurveData({f: curves[f].copy() for f in names}, lc_data_t0=t0)
        ctx.eq((len(data), list(data.filters)), (len(names), list(names)), "filters")
        if model:  # plotted through the model that holds the curves
            data = LightcurveTemplateModel(data, group, lc_data_t0=t0, t0=7.0)
        kw, _ = target(plt, where)
        q = None if times is None else np.array(times)
        data.plot_lightcurves(times=q, **kw)
        ax = kw["ax"] if "ax" in kw else plt.gcf().axes[0]
        want = {}
        for f in names:
            t, v = curves[f][:, 0] - t0, curves[f][:, 1]
            if q is None:
                want[f] = list(zip(t.tolist(), v.tolist()))
            else:
                want[f] = [(float(x), float(np.interp(x, t, v)) if t[0] <= x <= t[-1] else 0.0) for x in q]
        ctx.eq({s[0]: [(a, b) for a, b, _ in s[2]] for s in series(ax)}, want, "curves")
        ctx.eq(len(ax.lines), len(names), "curves")
        ctx.eq(sorted(t.get_text() for t in ax.get_legend().get_texts()), sorted(names), "names in the legend")
        plt.close("all")
        ctx.state((names, t0, times, where, model))
        ctx.outcome("curves")

    for k in range(1, 4):
        for names in itertools.permutations(curves, k):
            for t0, times, where in itertools.product((0.0, 1.5), (None, (3.0, -2.0, 1.0, 0.0), (2.0,), ()), ("ax", "figure", "new")):
                for model in (False, True):
                    if times != ():
                        ctx.case(["curves", names, t0, times, where, model], go, names, t0, times, where, model)

    def sed(names, use, where):
        ctx.step()
        bands = [
            Passband(np.array([[4000.0 + 700 * i + 100 * j, v] for j, v in enumerate([0.0, 0.5, 1.0, 0.25, 0.0])]), "S", f, delta_wave=25.0, trim_quantile=None)
            for i, f in enumerate(names)
        ]
        pbs = PassbandGroup(bands)
        model = LightcurveTemplateModel({f: curves[f].copy() for f in use}, pbs, lc_data_t0=0.0, t0=0.0)
        kw, _ = target(plt, where)
        model.plot_sed_basis(**kw)
        ax = kw["ax"] if "ax" in kw else plt.gcf().axes[0]
        got = {s[0]: np.array([(a, b) for a, b, _ in s[2]]) for s in series(ax)}
        ctx.eq(sorted(got), sorted(use), "curves")
        ctx.eq(sorted(t.get_text() for t in ax.get_legend().get_texts()), sorted(use), "names in the legend")
        for f in use:
            # The basis of a filter gives a band flux of one in this filter and is zero outside of it.
            w, v = got[f].T
            p = pbs[f"S_{f}"]
            ctx.check(np.array_equal(w, pbs.waves), "wavelengths")
            ctx.eq(float(p.fluxes_to_bandflux(v[None, np.searchsorted(w, p.waves)])[0]), 1.0, f"band flux of the basis of {f}", 1e-9)
            ctx.check(np.all(v[(w < p.waves[0]) | (w > p.waves[-1])] == 0), f"the basis of {f} is not zero outside of its passband")
        plt.close("all")
        ctx.state((names, use, where))
        ctx.outcome("basis")

    for k in range(1, 4):
        for names in itertools.permutations(curves, k):
            for j in range(1, k + 1):
                for use in itertools.combinations(names, j):
                    for where in ("ax", "figure", "new"):
                        ctx.case(["basis", names, use, where], sed, names, use, where)


SECTIONS = [("lightcurves", sec_lightcurves, 4), ("bandflux", sec_bandflux), ("passbands", sec_passbands), ("footprint", sec_footprint, 2), ("templates", sec_templates)]
