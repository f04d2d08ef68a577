"""D02: the sky samplers cover what they document, for every outcome of their draws."""

import itertools
import math
from collections import Counter

import numpy as np
import pandas as pd

from ..core import Machine, bfs, same
from ..rng import ScriptedRNG
from .d01 import unit

ID = "D02"
RULE = (
    "every script of draws over a grid of quantiles for every sampler, survey table, radius, depth and number of samples, "
    "compared sample by sample and as a set (every combination of outcomes equally often); every history of in-order reads; "
    "a state is one sampler configuration and script"
)
ASSUMPTIONS = ["numpy's uniform, integers and choice draws are taken as given; depth-29 cells are compared by their centers"]

GRID = [0.05, 0.3, 0.55, 0.8]


def sample(node, n, qs, names=("ra", "dec")):
    st = node.sample_parameters(num_samples=n, rng_info=ScriptedRNG(qs))
    out = [st[node.node_string][k] for k in names]
    if n == 1:
        assert all(np.ndim(v) == 0 for v in out), f"a single sample is not a bare value: {out}"
    return [np.atleast_1d(v) for v in out]


def sec_uniform(ctx):
    from lightcurvelynx.math_nodes.ra_dec_sampler import UniformRADEC

    def key(a, d):
        return (round(float(a), 7), round(float(d), 7))

    def go(n, deg, grid):
        node = UniformRADEC(node_label="s", use_degrees=deg)
        seen = Counter()
        for qs in itertools.product(grid, repeat=2 * n):
            ctx.step()
            ra, dec = sample(node, n, qs)
            ctx.check(len(ra) == n and len(dec) == n, f"{n} samples: {ra}, {dec}")
            seen[tuple(key(a, d) for a, d in zip(ra, dec))] += 1
            ctx.state(("uniform", n, deg, qs))
        f = 1.0 if deg else math.pi / 180
        cells = [key(360 * q * f, math.degrees(math.asin(2 * p - 1)) * f) for q in grid for p in grid]
        want = Counter(itertools.product(cells, repeat=n))
        ctx.check(seen == want, f"outcomes of {n} samples: {len(seen)} distinct, not every (RA, sin dec) cell exactly once")
        ctx.outcome(f"{n} samples")

    for n, grid in ((1, GRID), (2, GRID), (3, ctx.pick([0.2, 0.65, 0.9], GRID)), (4, [0.25, 0.9])):
        for deg in (True, False):
            ctx.case(["uniform", n, deg], go, n, deg, grid)

    def extreme(q, p):
        ctx.step()
        ra, dec = sample(UniformRADEC(node_label="s"), 1, [q, p])
        ctx.check(0 <= ra[0] <= 360 and -90 <= dec[0] <= 90, f"({q}, {p}) gives {ra}, {dec}")

    for q, p in itertools.product((0.0, 1e-16, 0.5, 1 - 1e-16), repeat=2):
        ctx.case(["extreme", q, p], extreme, q, p)


ROWS = {
    "floats": [(10.0, 0.0, 1.5), (20.0, 45.0, 2.5), (359.5, -60.0, 3.5)],
    "ints": [(10, 0, 1), (20, 45, 2), (300, -60, 3)],
    "one": [(5.0, 5.0, 9.0)],
}
INDEXES = {"default": None, "labels": [5, 5, 0], "strings": ["b", "a", "c"]}


def make_table(rows, index, radius=None):
    from lightcurvelynx.obstable.obs_table import ObsTable

    df = pd.DataFrame({c: [r[k] for r in ROWS[rows]] for k, c in enumerate(("ra", "dec", "time"))})
    if INDEXES[index]:
        df.index = INDEXES[index][: len(df)]
    return ObsTable(df, **({} if radius is None else {"radius": radius}))


def sec_rows(ctx):
    from lightcurvelynx.math_nodes.ra_dec_sampler import ObsTableRADECSampler

    def go(rows, index, survey, given, n, qs):
        ctx.step()
        table = make_table(rows, index, survey)
        keep = {c: list(table[c]) for c in table.columns}
        radius = given if given is not None else survey
        node = ObsTableRADECSampler(table, radius=given, node_label="s")
        ctx.state(("rows", rows, index, survey, given, n, qs))
        for again in range(2):
            got = sample(node, n, qs, ("ra", "dec", "time"))
            m = len(ROWS[rows])
            for k in range(n):
                r = ROWS[rows][int(qs[k] * m)]
                amt = ang = 0.0
                if radius > 0:
                    amt, ang = radius * math.sqrt(qs[n + k]), 2 * math.pi * qs[2 * n + k]
                want = (r[0] + amt * math.cos(ang), r[1] + amt * math.sin(ang), r[2])
                ctx.eq([float(g[k]) for g in got], [float(w) for w in want], f"sample {k} of script {qs}, draw {again}")
            ctx.outcome(f"{n} samples, radius {radius}")
        ctx.check(same({c: list(table[c]) for c in table.columns}, keep), "the survey table was changed")

    grid = ctx.pick((0.1, 0.6), (0.0, 0.1, 0.6, 0.9))
    for rows in ROWS:
        for index in INDEXES:
            for survey, given in ((1.75, None), (None, 0.5), (1.75, 0.0), (3.0, 0.25)):
                for n in (1, 2) if ctx.tier == "quick" else (1, 2, 3):
                    for rq in itertools.product((0.1, 0.5, 0.9), repeat=n):
                        for oq in itertools.product(grid, repeat=2 * n) if n < 3 else [(0.1, 0.6, 0.9, 0.0, 0.3, 0.7)]:
                            ctx.case(["rows", rows, index, survey, given, n, rq + oq], go, rows, index, survey, given, n, rq + oq)

    def refuse(survey, given, exc):
        ctx.step()
        ctx.raises(exc, lambda: ObsTableRADECSampler(make_table("one", "default", survey), radius=given), f"radius {given}, survey {survey}")

    ctx.case(["refuse", "none"], refuse, None, None, ValueError)
    ctx.case(["refuse", "negative"], refuse, 1.0, -0.5, ValueError)


class InOrder(Machine):
    """Reads of an in-order sampler: rows in order, refused beyond the end without losing the place."""

    def __init__(self, rows, radius):
        self.rows, self.radius = rows, radius

    def start(self, ctx):
        from lightcurvelynx.math_nodes.ra_dec_sampler import ObsTableRADECSampler

        return {"node": ObsTableRADECSampler(make_table(self.rows, "labels"), radius=self.radius, in_order=True, node_label="s"), "at": 0, "n": 0}

    def clone(self, st):
        new = self.start(None)
        new["node"].next_ind = st["node"].next_ind
        new["at"] = st["at"]
        return new

    def ops(self, st):
        return [["read", 1], ["read", 2], ["read", 3], ["reset"]]

    def step(self, ctx, st, op):
        if op[0] == "reset":
            st["node"].reset()
            st["at"] = 0
            ctx.outcome("reset")
            return
        rows, k = ROWS[self.rows], op[1]
        if st["at"] + k > len(rows):
            ctx.raises(IndexError, lambda: sample(st["node"], k, [0.0, 0.25], ("ra", "dec", "time")), f"{k} more rows of {len(rows)} after {st['at']}")
            ctx.outcome("exhausted")
            return
        got = sample(st["node"], k, [0.25], ("ra", "dec", "time"))
        off = self.radius * 0.5
        for i in range(k):
            r = rows[st["at"] + i]
            ctx.eq([float(g[i]) for g in got], [r[0] + off * math.cos(math.pi / 2), r[1] + off, float(r[2])], f"row {st['at'] + i}", atol=1e-9)
        st["at"] += k
        ctx.outcome("in order")

    def canon(self, st):
        return (self.rows, self.radius, st["at"])


def sec_order(ctx):
    for rows in ROWS:
        for radius in (0.0, 1.0):
            bfs(ctx, f"{rows},{radius}", InOrder(rows, radius), ctx.pick(4, 6))


# ---------------------------------------------------------------------- rejection sampling
def sec_reject(ctx):
    from lightcurvelynx.math_nodes.ra_dec_sampler import ObsTableUniformRADECSampler
    from lightcurvelynx.obstable.obs_table import ObsTable

    # candidate points of the quantile grid and which of them a survey sees
    def point(q, p):
        return 360 * q, math.degrees(math.asin(2 * p - 1))

    surveys = {
        "north": ([(0.0, 90.0)], 80.0),
        "two": ([(point(0.3, 0.55)), (point(0.8, 0.3))], 20.0),
        "none": ([(200.0, -89.0)], 0.5),
        "all": ([(0.0, 0.0), (180.0, 0.0)], 91.0),
    }

    def observed(s, a, d):
        pts, r = surveys[s]
        return any(math.degrees(math.acos(max(-1, min(1, float(unit(a, d) @ unit(*p)))))) <= r for p in pts)

    def reference(s, n, qs, cap):
        """Redraws only the samples that missed, until none does or the iterations are used up."""
        k, out, ok = 0, [None] * n, [False] * n
        for _ in range(cap):
            miss = [i for i in range(n) if not ok[i]]
            if not miss:
                break
            ras = [qs[(k + j) % len(qs)] for j in range(len(miss))]
            decs = [qs[(k + len(miss) + j) % len(qs)] for j in range(len(miss))]
            k += 2 * len(miss)
            for i, q, p in zip(miss, ras, decs):
                out[i] = point(q, p)
                ok[i] = observed(s, *out[i])
        return out, ok

    def go(s, n, cap, where, qs):
        ctx.step()
        pts, r = surveys[s]
        df = pd.DataFrame({"ra": [p[0] for p in pts], "dec": [p[1] for p in pts], "time": [1.0 * k for k in range(len(pts))]})
        table = ObsTable(df, **({"radius": r} if where == "survey" else {"radius": 0.001} if where == "both" else {}))
        node = ObsTableUniformRADECSampler(table, radius=None if where == "survey" else r, max_iterations=cap, node_label="s")
        ra, dec = sample(node, n, qs)
        want, ok = reference(s, n, qs, cap)
        ctx.eq([list(map(float, v)) for v in zip(ra, dec)], [list(w) for w in want], f"{n} samples of {s} from script {qs}, {cap} iterations")
        ctx.state((s, n, cap, where, qs))
        ctx.outcome("covered" if all(ok) else "gave up")

    grid = ctx.pick((0.3, 0.55, 0.8), GRID)
    for s in surveys:
        for where in ("given", "survey", "both"):
            for n, length in ((1, 4), (2, 4), (2, 5)) if ctx.tier == "quick" else ((1, 6), (2, 6), (2, 5), (3, 6)):
                for cap in (1, 2, 5):
                    for qs in itertools.product(grid, repeat=length):
                        ctx.case([s, n, cap, where, qs], go, s, n, cap, where, qs)

    def refuse(kind):
        ctx.step()
        table = make_table("one", "default")
        empty = make_table("one", "default", 1.0)
        empty.filter_rows(np.array([False]))
        fns = {
            "no radius": lambda: ObsTableUniformRADECSampler(table),
            "radius 0": lambda: ObsTableUniformRADECSampler(table, radius=0.0),
            "negative": lambda: ObsTableUniformRADECSampler(table, radius=-1.0),
            "empty": lambda: ObsTableUniformRADECSampler(empty),
            "iterations": lambda: ObsTableUniformRADECSampler(table, radius=1.0, max_iterations=0),
        }
        ctx.raises(ValueError, fns[kind], kind)

    for kind in ("no radius", "radius 0", "negative", "empty", "iterations"):
        ctx.case(["refuse", kind], refuse, kind)


# ---------------------------------------------------------------------- coverage maps
def sec_moc(ctx):
    from cdshealpix.nested import lonlat_to_healpix
    from lightcurvelynx.math_nodes.ra_dec_sampler import ApproximateMOCSampler
    from mocpy import MOC

    cells = {
        "one": [(1, 7)],
        "mixed": [(1, 3), (2, 100), (3, 700)],
        "fine": [(5, 17), (5, 18), (4, 3000)],
        "deep": [(12, 5000), (13, 30001), (14, 9)],
        "deepest": [(28, 12345), (27, 7)],
    }

    def moc_of(name):
        return MOC.from_healpix_cells(
            np.array([c[1] for c in cells[name]], dtype=np.uint64),
            np.array([c[0] for c in cells[name]], dtype=np.uint8),
            max_depth=max(c[0] for c in cells[name]),
        )

    def pixels(name, depth):
        """Cells of the depth that the map covers (in part, if it is finer than that)."""
        out = set()
        for d, p in cells[name]:
            if d <= depth:
                out |= set(range(p << (2 * (depth - d)), (p + 1) << (2 * (depth - d))))
            else:
                out.add(p >> (2 * (d - depth)))
        return sorted(out)

    def cell29(ra, dec):
        from astropy import units as u

        return [int(v) for v in lonlat_to_healpix(ra * u.deg, dec * u.deg, depth=29)]

    def go(name, depth, n, qs):
        ctx.step()
        pix = pixels(name, depth)
        node = ApproximateMOCSampler(moc_of(name), depth=depth, node_label="s")
        ra, dec = sample(node, n, qs)
        got = cell29(np.array(ra, dtype=float), np.array(dec, dtype=float))
        shift = 2 * (29 - depth)
        for k in range(n):
            p = pix[min(int(qs[k] * len(pix)), len(pix) - 1)]
            c = got[k] >> shift
            ctx.check(c in pix, f"sample {k} of {qs} at depth {depth} lies outside of the map")
            ctx.check(c == p, f"sample {k} of {qs} at depth {depth}: cell {c} of the map, expected {p}")
            off = got[k] - (c << shift)
            ctx.check(abs(off - int(np.floor(qs[n + k] * 4.0 ** (29 - depth)))) <= 4, f"sample {k}: offset {off} within its cell")
        ctx.state((name, depth, n, qs))
        ctx.outcome(f"depth {depth}")

    for name in cells:
        depths = {"deep": (11, 13, 15), "deepest": (26, 28, 29)}.get(name, ctx.pick((2, 4, 6), (2, 3, 4, 5, 6, 7)))
        for depth in depths:
            for n in (1, 2, 3):
                for qs in itertools.product((0.0, 0.4, 0.97), repeat=min(2 * n, ctx.pick(4, 6))):
                    if len(qs) < 2 * n:
                        qs = qs + (0.2,) * (2 * n - len(qs))
                    ctx.case([name, depth, n, qs], go, name, depth, n, qs)

    def shares(name, depth):
        """Every cell of the map is chosen for an equal share of the quantiles."""
        pix = pixels(name, depth)
        node = ApproximateMOCSampler(moc_of(name), depth=depth, node_label="s")
        m = len(pix)
        seen = Counter()
        for k in range(2 * m):
            ctx.step()
            ra, dec = sample(node, 1, [(k + 0.5) / (2 * m), 0.5])
            seen[cell29(np.array(ra, dtype=float), np.array(dec, dtype=float))[0] >> (2 * (29 - depth))] += 1
        ctx.check(seen == Counter({p: 2 for p in pix}), f"shares of the cells {dict(seen)}")

    for name in cells:
        for depth in (2, 3, 4):
            ctx.case(["shares", name, depth], shares, name, depth)

    def files(name, fmt):
        import shutil
        import tempfile

        ctx.step()
        tmp = tempfile.mkdtemp(prefix="mc_moc_")
        try:
            path = f"{tmp}/m.{fmt}"
            moc_of(name).save(path, format=fmt)
            for depth in (3, 5):
                a = ApproximateMOCSampler.from_file(path, format=fmt, depth=depth, node_label="s")
                b = ApproximateMOCSampler(moc_of(name), depth=depth, node_label="s")
                for qs in itertools.product((0.1, 0.9), repeat=2):
                    ctx.eq(sample(a, 1, qs), sample(b, 1, qs), f"the sampler of a {fmt} file")
            ctx.raises(FileNotFoundError, lambda: ApproximateMOCSampler.from_file(f"{tmp}/none.{fmt}", format=fmt), "a missing file")
        finally:
            shutil.rmtree(tmp)

    for name in cells:
        for fmt in ("fits", "json", "ascii"):
            ctx.case(["files", name, fmt], files, name, fmt)

    def refuse(depth):
        ctx.step()
        if 2 <= depth <= 12:
            ctx.check(ApproximateMOCSampler(moc_of("one"), depth=depth) is not None, "a valid depth")
        else:
            ctx.raises(ValueError, lambda: ApproximateMOCSampler(moc_of("one"), depth=depth), f"depth {depth}")

    for depth in (-1, 0, 1, 2, 3, 30, 31):
        ctx.case(["depth", depth], refuse, depth)


def sec_surveys(ctx):
    """Random surveys: positions uniform on the sphere, every other value over its range, the same again for the same seed."""
    from unittest import mock

    from lightcurvelynx.obstable.opsim import create_random_opsim, opsim_add_random_data
    from lightcurvelynx.obstable.ztf_obstable import ZTFObsTable, create_random_ztf_obs_data

    ops_filters, ztf_filters = list("ugrizy"), list("gri")
    makers = {"opsim": create_random_opsim, "ztf": create_random_ztf_obs_data}
    lo_hi = {"airmass": (1.3, 1.7), "maglim": (19.0, 21.0), "scibckgnd": (100.0, 200.0), "fwhm": (1.0, 3.0)}
    real = np.random.default_rng

    def read(kind, t):
        cols = ["airmass"] if kind == "opsim" else ["maglim", "scibckgnd", "fwhm"]
        return [np.asarray(t[c]) for c in ["ra", "dec", *cols, "filter"]]

    def scripted(kind, n, grid):
        """Every outcome of the draws of one row gives every combination of values once."""
        seen, used = Counter(), []
        width = 4 if kind == "opsim" else 6

        def fake(*a, **k):
            used.append(1)
            return ScriptedRNG(script)

        for qs in itertools.product(grid, repeat=width):
            ctx.step()
            script = list(qs)
            with mock.patch.object(np.random, "default_rng", fake):
                t = makers[kind](n, seed=3)
            if not used:
                ctx.outcome("not scripted")
                return
            vals = read(kind, t)
            ctx.check(all(len(v) == n for v in vals), "rows")
            seen[(round(float(vals[0][-1]), 6), round(math.sin(math.radians(float(vals[1][-1]))), 6), *(round(float(v[-1]), 6) for v in vals[2:-1]), str(vals[-1][-1]))] += 1
            ctx.state((kind, n, qs))
        axes = [[round(360 * q, 6) for q in grid], sorted(round(2 * q - 1, 6) for q in grid)]
        axes += [[round(a + (b - a) * q, 6) for q in grid] for a, b in ([lo_hi["airmass"]] if kind == "opsim" else [lo_hi[k] for k in ("maglim", "scibckgnd", "fwhm")])]
        names = ops_filters if kind == "opsim" else ztf_filters
        ctx.eq(sum(seen.values()), len(grid) ** width, "outcomes")
        got = [sorted({k[i] for k in seen}) for i in range(len(axes))]
        ctx.eq(got, [sorted(a) for a in axes], "values of each column")
        ctx.check(set(k[-1] for k in seen) <= set(names), "filters")
        each = Counter(k[:-1] for k in seen.elements())
        ctx.check(len(each) == np.prod([len(a) for a in axes]) and len(set(each.values())) == 1, "the columns are not drawn independently")
        ctx.outcome("scripted")

    for kind in makers:
        ctx.case(["survey", kind], scripted, kind, 1, [0.001, 0.5, 0.999] if kind == "ztf" else [0.001, 0.25, 0.45, 0.55, 0.75, 0.999])

    def seeds(kind, n):
        ctx.step()
        tabs = {}
        for s in range(ctx.pick(6, 40)):
            a, b = (read(kind, makers[kind](n, seed=s)) for _ in range(2))
            ctx.check(all(np.array_equal(x, y) for x, y in zip(a, b)), f"seed {s} gives two surveys")
            ra, dec = a[0], a[1]
            ctx.check(len(ra) == n and np.all((ra >= 0) & (ra <= 360) & (dec >= -90) & (dec <= 90)), "positions")
            for k, v in zip(["airmass"] if kind == "opsim" else ["maglim", "scibckgnd", "fwhm"], a[2:-1]):
                ctx.check(bool(np.all((v >= lo_hi[k][0]) & (v <= lo_hi[k][1]))), f"{k}: {v}")
            tabs[s] = tuple(ra)
        ctx.eq(len(set(tabs.values())), len(tabs), "different surveys")
        x, y = (read(kind, makers[kind](n)) for _ in range(2))
        ctx.check(not np.array_equal(x[0], y[0]), "surveys without a seed are equal")
        if kind == "ztf":
            t = ZTFObsTable(makers[kind](n, seed=1))
            ctx.eq(len(t), n, "rows")
            ctx.check(bool(np.all(np.isfinite(np.asarray(t["zp"])) & (np.asarray(t["zp"]) > 0))), "zero points")
        else:
            t = makers[kind](n, seed=1)
            ctx.check(bool(np.all(np.isfinite(np.asarray(t["zp"])) & (np.asarray(t["zp"]) > 0))), "zero points")
            ctx.check(len(set(np.asarray(t["time"]).tolist())) == n, "times")
            before = {c: list(t[c]) for c in t.columns}
            for lo, hi in ((0.0, 1.0), (-5.0, -4.0), (7.0, 7.0)):
                opsim_add_random_data(t, f"c{lo}", lo, hi)
                v = np.asarray(t[f"c{lo}"])
                ctx.check(len(v) == n and np.all((v >= lo) & (v <= hi)), f"added values {v}")
            ctx.raises(KeyError, lambda: opsim_add_random_data(t, "airmass"), "an existing column")
            ctx.check({c: list(t[c]) for c in before} == before, "other columns changed")
        ctx.state((kind, "seeds", n))
        ctx.outcome("seeds")

    for kind in makers:
        for n in (1, 2, 5, 100):
            ctx.case(["seeds", kind, n], seeds, kind, n)
        for n in (0, -1):
            ctx.case(["none", kind, n], ctx.raises, ValueError, lambda kind=kind, n=n: makers[kind](n), f"{n} rows")
    assert np.random.default_rng is real


SECTIONS = [
    ("uniform", sec_uniform, (1, 2)),
    ("rows", sec_rows, (4, 8)),
    ("order", sec_order, (1, 1)),
    ("reject", sec_reject, (4, 8)),
    ("moc", sec_moc, (2, 4)),
    ("surveys", sec_surveys, (2, 2)),
]
