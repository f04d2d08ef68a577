"""P01: bandfluxes are calibrated, linear, and depend on the transmission curve only, after any processing history."""

import itertools
import os

import numpy as np

from mc.core import Machine, bfs, same
from mc import memory

ID = "P01"
RULE = (
    "every transmission curve with values {0, 0.4, 1} on six wavelength grids (uniform, non-uniform, odd range, duplicate "
    "wavelengths), times every step, trimming and unit, against trapezoid integrals in plain Python; breadth-first search "
    "over histories of reprocessing; a state is (curve, settings) or the passband's table"
)
ASSUMPTIONS = ["wavelength grids whose steps agree within 1e-5 count as uniform (as the code does)"]

GRIDS = {
    "uniform": [400.0, 405.0, 410.0, 415.0, 420.0],
    "step10": [400.0, 410.0, 420.0, 430.0, 440.0],
    "odd": [400.0, 406.0, 412.0, 418.0, 423.0],
    "nonuniform": [400.0, 401.0, 408.0, 409.0, 430.0],
    "evenmean": [400.0, 402.0, 411.0, 413.0, 420.0],  # uneven, with a mean step of 5
    "dup": [400.0, 405.0, 405.0, 410.0, 422.5],
    "triple": [400.0, 407.0, 407.0, 407.0, 423.0],
}
LONG = {  # regular at first (or at last) only
    "tail": [400.0 + 5 * k for k in range(12)] + [462.0, 463.0, 480.0],
    "head": [400.0, 402.0, 411.0] + [415.0 + 5 * k for k in range(12)],
}
DELTAS = [None, 1.0, 5.0, 7.0, 4.5]
TRIMS = [None, 0.0, 1e-3, 0.1, 0.45]


def quiet():
    import logging

    logging.disable(logging.CRITICAL)


def merged(grid, trans):
    """The curve with repeated wavelengths averaged."""
    out = []
    for w in sorted(set(grid)):
        vals = [t for g, t in zip(grid, trans) if g == w]
        out.append((w, sum(vals) / len(vals)))
    return out


def lin(curve, w):
    for (a, ta), (b, tb) in zip(curve, curve[1:]):
        if a - 1e-9 <= w <= b + 1e-9:
            return ta + (tb - ta) * (w - a) / (b - a)
    raise ValueError(w)


def trapz(ys, xs):
    return sum(0.5 * (ya + yb) * (xb - xa) for ya, yb, xa, xb in zip(ys, ys[1:], xs, xs[1:]))


def check_band(ctx, pb, curve, delta, trim, what):
    """Everything that must hold for a processed passband with this curve (in Angstrom) and these settings."""
    waves = [float(w) for w in pb.waves]
    phi = [float(v) for v in pb.processed_transmission_table[:, 1]]
    ok = ctx.check(len(waves) >= 2 and all(b > a for a, b in zip(waves, waves[1:])), f"{what}: wavelengths {waves} do not increase")
    if not ok:
        return
    ctx.check(
        waves[0] >= curve[0][0] - 1e-9 and waves[-1] <= curve[-1][0] + 1e-9, f"{what}: wavelengths {waves[0]}-{waves[-1]} outside the table"
    )
    steps = [b - a for a, b in zip(waves, waves[1:])]
    native = [b[0] - a[0] for a, b in zip(curve, curve[1:])]
    if delta is None:
        full = [w for w, _ in curve]
        i = next((k for k, w in enumerate(full) if abs(w - waves[0]) < 1e-9), -1)
        ctx.check(i >= 0 and same(full[i : i + len(waves)], waves), f"{what}: wavelengths {waves} are not a part of the table's {full}")
    else:
        ctx.check(max(steps) - min(steps) < 1e-6, f"{what}: steps {min(steps)}..{max(steps)} are not equal")
        n = max(1, int((curve[-1][0] - curve[0][0]) / delta + 1e-9))
        want = (curve[-1][0] - curve[0][0]) / n
        ctx.check(abs(steps[0] - want) < 1e-6, f"{what}: step {steps[0]}, expected {want} (asked for {delta})")
    # The normalized response is the transmission over the wavelength, up to one constant.
    raw = [lin(curve, w) / w for w in waves]
    area = trapz(raw, waves)
    if ctx.check(area > 0, f"{what}: no transmission left after processing"):
        ctx.eq(phi, [r / area for r in raw], f"{what}: normalized response", 1e-7, 1e-12)
    # Trimming removes at most the quantile (and at most one grid cell more) of the area on each side.
    if delta is None:
        grid = [w for w, _ in curve]
    else:
        n = max(1, int((curve[-1][0] - curve[0][0]) / delta + 1e-9))
        grid = [curve[0][0] + k * (curve[-1][0] - curve[0][0]) / n for k in range(n + 1)]
    tr = [lin(curve, w) for w in grid]
    total = trapz(tr, grid)
    low = [k for k, w in enumerate(grid) if w <= waves[0] + 1e-6]
    high = [k for k, w in enumerate(grid) if w >= waves[-1] - 1e-6]
    cells = [0.5 * (tr[k] + tr[k + 1]) * (grid[k + 1] - grid[k]) / total for k in range(len(grid) - 1)]
    cut_low, cut_high = sum(cells[: low[-1]]), sum(cells[high[0] :])
    q = trim or 0.0
    if q == 0.0:
        ctx.check(len(waves) == len(grid), f"{what}: {len(grid) - len(waves)} points trimmed without a quantile")
    else:
        ctx.check(cut_low <= q + 1e-9, f"{what}: trimmed {cut_low} of the area below, quantile {q}")
        last = cells[high[0]] if high[0] < len(cells) else 0.0
        ctx.check(cut_high - last <= q + 1e-9, f"{what}: trimmed {cut_high} of the area above, quantile {q}")
        # ... and not less: one cell more on either side would exceed the quantile (two on the lower side).
        if low[-1] + 1 < len(cells):
            ctx.check(cut_low + cells[low[-1]] + cells[low[-1] + 1] >= q - 1e-9, f"{what}: only {cut_low} trimmed below, quantile {q}")
        if high[0] >= 2:
            ctx.check(cut_high + cells[high[0] - 1] >= q - 1e-9, f"{what}: only {cut_high} trimmed above, quantile {q}")
    # Calibration: a flat SED has its own flux in every band.
    W = len(waves)
    flat = np.array([[1.0] * W, [250.0] * W, [0.0] * W])
    ctx.eq(pb.fluxes_to_bandflux(flat), [1.0, 250.0, 0.0], f"{what}: bandfluxes of flat spectra", 1e-9)
    # Linearity and the integral itself.
    w = np.asarray(pb.waves)
    f = np.vstack([w, 1e3 - w, np.where(w > 410.0, 5.0, -1.0), (w - 400.0) ** 2])
    got = np.asarray(pb.fluxes_to_bandflux(f))
    want = [trapz([a * b for a, b in zip(row, phi)], waves) for row in f.tolist()]
    ctx.eq(got, want, f"{what}: bandfluxes", 1e-8, 1e-9)
    ctx.eq(pb.fluxes_to_bandflux(2.0 * f[:2] - 3.0 * f[2:]), 2.0 * got[:2] - 3.0 * got[2:], f"{what}: linearity", 1e-9, 1e-9)
    ctx.eq(pb.fluxes_to_bandflux(np.stack([f, -f, f[::-1]])), np.stack([got, -got, got[::-1]]), f"{what}: three samples", 1e-9, 1e-9)
    ctx.eq(pb.fluxes_to_bandflux(f[2:3]), got[2:3], f"{what}: one time alone", 1e-9, 1e-9)
    keep = f.copy()
    f.setflags(write=False)
    ctx.eq(pb.fluxes_to_bandflux(f), got, f"{what}: the same bandfluxes again", 1e-12, 1e-12)
    ctx.eq(pb.fluxes_to_bandflux(np.round(f).astype(int)), pb.fluxes_to_bandflux(np.round(keep)), f"{what}: integer fluxes", 1e-9, 1e-9)
    ctx.check(np.array_equal(f, keep), f"{what}: the caller's fluxes were changed")
    for bad in (f[:, :-1], np.hstack([f, f[:, :1]]), f[0], f[None, None], np.zeros((0, W))):
        ctx.raises(ValueError, lambda bad=bad: pb.fluxes_to_bandflux(bad), f"{what}: fluxes of shape {bad.shape}")


def one(ctx, gname, trans, delta, trim, units, kind):
    from lightcurvelynx.astro_utils.passbands import Passband

    quiet()
    scale = 10.0 if units == "nm" else 1.0
    grid = GRIDS[gname] if gname in GRIDS else LONG[gname]
    data = [[g / scale, t] for g, t in zip(grid, trans)]
    table = np.array(data)
    if kind == "int":
        table = np.array([[int(round(g)), int(t)] for g, t in data])
    before = table.copy()
    curve = merged([r[0] * scale for r in table.tolist()], [float(r[1]) for r in table.tolist()])
    what = f"{gname} {trans} step={delta} trim={trim} {units}"
    status, pb = ctx.attempt(lambda: Passband(table, "S", "f", delta_wave=delta, trim_quantile=trim, units=units))
    ctx.check(same(table, before), f"{what}: the caller's table was changed")
    # Curves without any area cannot be normalized, and trimming may leave too few points: ValueError.
    if status == "err":
        ctx.check(isinstance(pb, ValueError), f"{what}: {type(pb).__name__}: {pb}")
        grid2 = [w for w, _ in curve]
        if delta is not None:
            n = max(1, int((grid2[-1] - grid2[0]) / delta + 1e-9))
            grid2 = [grid2[0] + k * (grid2[-1] - grid2[0]) / n for k in range(n + 1)]
        full = trapz([lin(curve, w) for w in grid2], grid2)
        # one cell holding most of the area cannot be trimmed any further
        cells = [0.5 * (lin(curve, a) + lin(curve, b)) * (b - a) for a, b in zip(grid2, grid2[1:])]
        small = full == 0 or ((trim or 0) > 0 and max(cells) / full > 1 - 2 * trim - 1e-9)
        near = (trim or 0) > 0 and sum(1 for c in cells if c > 0) <= 3 or (trim or 0) >= 0.4
        ctx.check(small or near, f"{what}: refused ({pb}) although it has transmission")
        ctx.outcome("refused")
        return
    ctx.outcome("accepted")
    check_band(ctx, pb, curve, delta, trim, what)
    ctx.check(pb.full_name == "S_f" and pb.survey == "S" and pb.filter_name == "f", f"{what}: names")
    ctx.state((gname, trans, delta, trim, units))


def sec_curves(ctx):
    vals = (0.0, 0.4, 1.0)
    for trans in itertools.product(vals, repeat=5):
        if sum(trans) == 0 and trans != (0.0,) * 5:
            continue
        if ctx.tier == "quick" and trans[0] == 0.4:
            continue
        for gname in GRIDS:
            ctx.case({"g": gname, "t": trans}, _curve, ctx, gname, trans)
    for gname in LONG:
        for a, b, c in itertools.product(vals, repeat=3):
            if a + b + c:
                ctx.case({"g": gname, "t": [a, b, c]}, _curve, ctx, gname, (a, b, c) * 5)


def _curve(ctx, gname, trans):
    for delta, trim, units in itertools.product(DELTAS, TRIMS, ("A", "nm")):
        if ctx.tier == "quick" and units == "nm" and trim not in (None, 0.1):
            continue
        one(ctx, gname, trans, delta, trim, units, "float")
    if gname != "nonuniform":
        one(ctx, gname, tuple(float(round(t)) for t in trans), 5.0, None, "A", "int")
        one(ctx, "step10", tuple(float(round(t)) for t in trans), 5.0, None, "nm", "int")


# ---------------------------------------------------------------------- histories of reprocessing
class Reprocess(Machine):
    def __init__(self, gname, trans):
        self.gname, self.trans = gname, trans
        self.curve = merged(GRIDS[gname], trans)

    def start(self, ctx):
        from lightcurvelynx.astro_utils.passbands import Passband

        quiet()
        table = np.column_stack([GRIDS[self.gname], self.trans])
        pb = Passband(table.copy(), "S", "f", delta_wave=5.0, trim_quantile=None)
        return {"pb": pb, "set": (5.0, None)}

    def ops(self, st):
        return [["process", d, t] for d in (None, 1.0, 5.0, 7.0) for t in (None, 1e-3, 0.1)] + [["bad", 5.0, 0.5], ["bad", 5.0, -0.1]]

    def step(self, ctx, st, op):
        if op[0] == "bad":
            ctx.raises(ValueError, lambda: st["pb"].process_transmission_table(op[1], op[2]), f"quantile {op[2]}")
            return
        st["pb"].process_transmission_table(op[1], op[2])
        st["set"] = (op[1], op[2])

    def observe(self, ctx, st):
        from lightcurvelynx.astro_utils.passbands import Passband

        delta, trim = st["set"]
        check_band(ctx, st["pb"], self.curve, delta, trim, f"{self.gname} now step={delta} trim={trim}")
        fresh = Passband(np.column_stack([GRIDS[self.gname], self.trans]), "S", "f", delta_wave=delta, trim_quantile=trim)
        ctx.check(st["pb"] == fresh and same(st["pb"].processed_transmission_table, fresh.processed_transmission_table),
                  f"{self.gname}: reprocessed passband differs from a fresh one with step={delta} trim={trim}")  # fmt: skip

    def canon(self, st):
        return (st["set"], st["pb"].waves, st["pb"].processed_transmission_table, getattr(st["pb"], "_loaded_table", None))


def sec_histories(ctx):
    for gname in GRIDS:
        bfs(ctx, gname, Reprocess(gname, (0.1, 0.7, 1.0, 0.6, 0.2)), ctx.pick(3, 5))


# ---------------------------------------------------------------------- files
def _file(ctx, ext, units, gname, trans, delta, trim):
    from lightcurvelynx.astro_utils.passbands import Passband

    quiet()
    scale = 10.0 if units == "nm" else 1.0
    rows = [(g / scale, t) for g, t in zip(GRIDS[gname], trans)]
    path = os.path.join(os.environ["VERIF_SCRATCH"], f"p01_{os.getpid()}{ext}")
    if ext in (".xml", ".vot"):
        unit = {"nm": "nm", "A": "Angstrom"}[units]
        body = "".join(f"<TR><TD>{w!r}</TD><TD>{t!r}</TD></TR>" for w, t in rows)
        text = (
            '<?xml version="1.0"?><VOTABLE version="1.1" xmlns="http://www.ivoa.net/xml/VOTable/v1.1"><RESOURCE><TABLE>'
            f'<FIELD name="Wavelength" unit="{unit}" datatype="double"/><FIELD name="Transmission" datatype="double"/>'
            f"<DATA><TABLEDATA>{body}</TABLEDATA></DATA></TABLE></RESOURCE></VOTABLE>"
        )
    else:
        sep = "," if ext in (".csv", ".ecsv") else " "
        text = "# a comment\n" + "".join(f"{w!r}{sep}{t!r}\n" for w, t in rows)
    with open(path, "w") as f:
        f.write(text)
    try:
        kwargs = {} if ext in (".xml", ".vot") else {"units": units}
        pb = Passband.from_file("S", "f", table_path=path, delta_wave=delta, trim_quantile=trim, **kwargs)
        check_band(ctx, pb, merged(GRIDS[gname], trans), delta, trim, f"{ext} {units} {gname}")
    finally:
        os.unlink(path)
    ctx.outcome(ext)
    ctx.state((ext, units, gname, delta, trim))


def sec_files(ctx):
    for ext in (".dat", ".txt", ".csv", ".ecsv", ".xml", ".vot"):
        for units in ("A", "nm"):
            for gname in GRIDS:
                for delta, trim in ((None, None), (5.0, 1e-3)):
                    for trans in ((0.1, 0.7, 1.0, 0.6, 0.2), (1.0, 0.0, 0.4, 0.4, 1.0)):
                        ctx.case({"ext": ext, "u": units, "g": gname, "d": delta, "t": trans}, _file, ctx, ext, units, gname, trans, delta, trim)


# ---------------------------------------------------------------------- sncosmo's bands
def sec_sncosmo(ctx):
    """Bands of sncosmo, given as objects or by name, in any of its wavelength units."""
    import astropy.units as u
    import sncosmo

    from lightcurvelynx.astro_utils.passbands import Passband

    quiet()

    def go(gname, trans, unit, by):
        ctx.step()
        grid = GRIDS[gname]
        vals = grid if unit == "AA" else [g / 10.0 for g in grid]
        b = sncosmo.Bandpass(np.array(vals), np.array(trans), wave_unit=u.AA if unit == "AA" else u.nm, name="mc-p01")
        curve = merged([float(w) for w in b.wave], [float(t) for t in b.trans])
        what = f"sncosmo {gname} {trans} {unit} {by}"
        if by == "name":
            sncosmo.register(b, force=True)
            give = "mc-p01"
        else:
            give = b
        status, pb = ctx.attempt(lambda: Passband.from_sncosmo("S", "f", give))
        ctx.state((gname, trans, unit, by))
        if status == "err":  # a curve that no table of values at 5 A steps represents
            ctx.raises(type(pb), lambda: Passband(np.array(curve), "S", "f", trim_quantile=None), f"{what}: the same curve given directly")
            ctx.check(isinstance(pb, ValueError), lambda: f"{what}: {pb!r}")
            ctx.outcome("refused")
        else:
            check_band(ctx, pb, curve, 5.0, None, what)
            ctx.check(pb.full_name == "S_f" and pb.survey == "S" and pb.filter_name == "f", f"{what}: names")
            other = Passband(np.array(curve), "T", "x", trim_quantile=None)
            ctx.check(pb == other and other == pb, f"{what}: equal to the same curve given directly")
            shifted = Passband(np.array(curve) + np.array([[7.0, 0.0]]), "S", "f", trim_quantile=None)
            wider = Passband(np.array(curve), "S", "f", trim_quantile=None, delta_wave=1.0)
            ctx.check(not (pb == shifted) and not (wider == pb), f"{what}: equal to another curve")
            ctx.outcome("band")

    for gname, grid in GRIDS.items():
        for trans in itertools.product((0.0, 0.4, 1.0), repeat=5):
            if sum(trans) == 0 or any(b <= a for a, b in zip(grid, grid[1:])):
                continue  # refused by sncosmo
            for unit, by in itertools.product(("AA", "nm"), ("object", "name")):
                if unit == "AA" or by == "object":
                    ctx.case(["sncosmo", gname, trans, unit, by], go, gname, trans, unit, by)
    ctx.case(["sncosmo", "none"], lambda: ctx.raises(ValueError, lambda: Passband.from_sncosmo("S", "f"), "no band"))


# ---------------------------------------------------------------------- refusals
def sec_refuse(ctx):
    from lightcurvelynx.astro_utils.passbands import Passband

    quiet()
    good = [[400.0, 0.5], [410.0, 0.7], [420.0, 0.1]]
    bad = {
        "decreasing": ([[400.0, 0.5], [420.0, 0.7], [410.0, 0.1]], {}),
        "decreasing, as it is": ([[400.0, 0.5], [420.0, 0.7], [410.0, 0.1]], {"delta_wave": None, "trim_quantile": None}),
        "reversed": (good[::-1], {"delta_wave": None, "trim_quantile": None}),
        "decreasing, in nm": ([[40.0, 0.5], [42.0, 0.7], [41.0, 0.1]], {"delta_wave": None, "trim_quantile": None, "units": "nm"}),
        "three columns": ([[400.0, 0.5, 1.0], [410.0, 0.7, 1.0]], {}),
        "one column": ([[400.0], [410.0]], {}),
        "zero": ([[400.0, 0.0], [410.0, 0.0], [420.0, 0.0]], {}),
        "zero trimmed": ([[400.0, 0.0], [410.0, 0.0], [420.0, 0.0]], {"trim_quantile": None}),
        "units": (good, {"units": "m"}),
        "trim negative": (good, {"trim_quantile": -0.01}),
        "trim large": (good, {"trim_quantile": 0.5}),
        "step negative": (good, {"delta_wave": -3.0}),
        "one row": ([[400.0, 0.5]], {"delta_wave": None, "trim_quantile": None}),
    }
    for name, (table, kw) in bad.items():
        ctx.case(
            {"bad": name},
            lambda table=table, kw=kw, name=name: (
                ctx.raises(ValueError, lambda: Passband(np.array(table), "S", "f", **kw), name),
                ctx.state(("bad", name)),
                ctx.outcome("refused"),
            ),
        )

    def wrong_file(name, text, ext):
        path = os.path.join(os.environ["VERIF_SCRATCH"], f"p01b_{os.getpid()}{ext}")
        with open(path, "w") as f:
            f.write(text)
        try:
            ctx.raises((ValueError, IndexError), lambda: Passband.load_transmission_table(path), name)
        finally:
            os.unlink(path)

    def votable(names, units, rows, name):
        from astropy.table import Column, Table

        path = os.path.join(os.environ["VERIF_SCRATCH"], f"p01v_{os.getpid()}.xml")
        cols = [Column([float(r[k]) for r in rows], name=n, unit=u) for k, (n, u) in enumerate(zip(names, units))]
        Table(cols).write(path, format="votable", overwrite=True)
        try:
            ctx.raises(ValueError, lambda: Passband.load_transmission_table(path), name)
        finally:
            os.unlink(path)

    rows = [(4000.0, 0.1, 1.0), (4100.0, 0.5, 1.0), (4200.0, 0.2, 1.0)]
    for name, cols, us in (
        ("three columns", ("wavelength", "transmission", "error"), ("Angstrom", None, None)),
        ("one column", ("wavelength",), ("Angstrom",)),
        ("other order", ("transmission", "wavelength"), (None, "Angstrom")),
        ("frequencies", ("frequency", "transmission"), ("Hz", None)),
        ("metres", ("wavelength", "transmission"), ("m", None)),
        ("micrometres", ("wavelength", "transmission"), ("um", None)),
    ):
        ctx.case({"votable": name}, votable, cols, us, rows, f"a VOTable with {name}")
    for suffix in (".dat", ".xml", ".csv"):
        ctx.case({"no file": suffix}, lambda suffix=suffix: ctx.raises(FileNotFoundError, lambda: Passband.load_transmission_table(f"/nonexistent/band{suffix}"), "a file that does not exist"))
    for name, text, ext in (
        ("empty", "", ".dat"),
        ("three columns", "1 2 3\n2 3 4\n", ".dat"),
        ("decreasing", "400 0.1\n390 0.2\n", ".dat"),
        ("extension", "400 0.1\n410 0.2\n", ".fits"),
    ):
        ctx.case({"file": name}, wrong_file, name, text, ext)


SECTIONS = [("curves", sec_curves, 8), ("histories", sec_histories, 6), ("files", sec_files, 4), ("sncosmo", sec_sncosmo, 2), ("refuse", sec_refuse), ("memory", memory.sec_passbands, 2)]
