"""D01: a detector footprint selects exactly the points inside it, at every pointing and rotation."""

import itertools
import math

import numpy as np
import pandas as pd
from mc import memory

ID = "D01"
RULE = (
    "every footprint shape, pixel scale and handedness of the WCS, every pointing (poles, RA wrap), rotation and offset, as "
    "scalars, as batches and as broadcast centers; every mix of argument shapes; every history of edits of a table with a "
    "footprint to the depth bound; a state is one footprint, pointing and rotation, or one table content"
)
ASSUMPTIONS = [
    "points within 1% or two pixels of a footprint's edge are not judged",
    "the rotation's sign is the one the tests fix: a point at position angle a goes to the detector's +y for rotation a",
]


def unit(ra, dec):
    a, d = math.radians(ra), math.radians(dec)
    return np.array([math.cos(d) * math.cos(a), math.cos(d) * math.sin(a), math.sin(d)])


def plane(ra, dec, cra, cdec, rot):
    """Gnomonic coordinates in degrees of a point about a rotated center; None on the far hemisphere."""
    a, d = math.radians(cra), math.radians(cdec)
    east = np.array([-math.sin(a), math.cos(a), 0.0])
    north = np.array([-math.sin(d) * math.cos(a), -math.sin(d) * math.sin(a), math.cos(d)])
    x = unit(ra, dec)
    c = float(x @ unit(cra, cdec))
    if c <= 1e-9:
        return None
    e, n = math.degrees(float(x @ east) / c), math.degrees(float(x @ north) / c)
    r = math.radians(rot)
    return e * math.cos(r) - n * math.sin(r), e * math.sin(r) + n * math.cos(r)


def offset(cra, cdec, pa, sep):
    """The point at position angle pa (degrees) and separation sep (degrees) from a center."""
    a, d = math.radians(cra), math.radians(cdec)
    east = np.array([-math.sin(a), math.cos(a), 0.0])
    north = np.array([-math.sin(d) * math.cos(a), -math.sin(d) * math.sin(a), math.cos(d)])
    p, s = math.radians(pa), math.radians(sep)
    v = math.cos(s) * unit(cra, cdec) + math.sin(s) * (math.sin(p) * east + math.cos(p) * north)
    return math.degrees(math.atan2(v[1], v[0])) % 360.0, math.degrees(math.asin(max(-1.0, min(1.0, v[2]))))


L_SHAPE = [(-1.0, -1.0), (2.0, -1.0), (2.0, 0.5), (0.5, 0.5), (0.5, 3.0), (-1.0, 3.0)]


def seg_dist(p, a, b):
    ax, ay = a
    dx, dy = b[0] - ax, b[1] - ay
    t = max(0.0, min(1.0, ((p[0] - ax) * dx + (p[1] - ay) * dy) / (dx * dx + dy * dy)))
    return math.hypot(p[0] - ax - t * dx, p[1] - ay - t * dy)


def polygon(pts):
    def inside(p):
        edges = list(zip(pts, pts[1:] + pts[:1]))
        n = sum((a[1] > p[1]) != (b[1] > p[1]) and p[0] < (b[0] - a[0]) * (p[1] - a[1]) / (b[1] - a[1]) + a[0] for a, b in edges)
        return n % 2 == 1, min(seg_dist(p, a, b) for a, b in edges)

    return inside


def rect(w, h):
    return polygon([(-w / 2, -h / 2), (w / 2, -h / 2), (w / 2, h / 2), (-w / 2, h / 2)])


def circle(r, cx=0.0, cy=0.0):
    return lambda p: (math.hypot(p[0] - cx, p[1] - cy) < r, abs(math.hypot(p[0] - cx, p[1] - cy) - r))


SHAPES = {
    "rect": (rect(2.0, 1.0), 2.0),
    "tall": (rect(0.6, 4.0), 4.0),
    "tiny": (rect(0.02, 0.01), 0.02),
    "circle": (circle(1.5), 3.0),
    "off": (circle(1.5, 1.0, -0.5), 3.0),
    "ell": (polygon(L_SHAPE), 4.0),
    "pixel_ell": (polygon(L_SHAPE), 4.0),
}


def make_wcs(scale, flip):
    from astropy.wcs import WCS

    w = WCS(naxis=2)
    w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    w.wcs.crval = [0.0, 0.0]
    w.wcs.crpix = [0.5, 0.5]
    w.wcs.cdelt = [-scale if flip else scale, scale]
    return w


def region(shape, scale):
    from astropy import units as u
    from astropy.coordinates import SkyCoord
    from regions import CircleSkyRegion, PixCoord, PolygonPixelRegion, PolygonSkyRegion, RectangleSkyRegion

    def sky(x, y):
        # plane coordinates back to the sphere around (0, 0)
        a, b = math.radians(x), math.radians(y)
        v = np.array([1.0, a, b]) / math.sqrt(1 + a * a + b * b)
        return math.degrees(math.atan2(v[1], v[0])), math.degrees(math.asin(v[2]))

    zero = SkyCoord(ra=0.0, dec=0.0, unit="deg")
    if shape == "circle":
        return CircleSkyRegion(center=zero, radius=1.5 * u.deg)
    if shape == "off":
        return CircleSkyRegion(center=SkyCoord(*sky(1.0, -0.5), unit="deg"), radius=1.5 * u.deg)
    if shape == "ell":
        pts = [sky(*p) for p in L_SHAPE]
        return PolygonSkyRegion(vertices=SkyCoord([p[0] for p in pts], [p[1] for p in pts], unit="deg"))
    if shape == "pixel_ell":
        return PolygonPixelRegion(vertices=PixCoord([p[0] / scale for p in L_SHAPE], [p[1] / scale for p in L_SHAPE]))
    w, h = {"rect": (2.0, 1.0), "tall": (0.6, 4.0), "tiny": (0.02, 0.01)}[shape]
    return RectangleSkyRegion(center=zero, width=w * u.deg, height=h * u.deg, angle=0.0 * u.deg)


def make(shape, scale, how):
    from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint

    if how == "rect":
        w, h = {"rect": (2.0, 1.0), "tall": (0.6, 4.0), "tiny": (0.02, 0.01)}[shape]
        return DetectorFootprint.from_rect(w, h, pixel_scale=scale)
    if how == "scale":
        return DetectorFootprint(region(shape, scale), pixel_scale=scale)
    return DetectorFootprint(region(shape, scale), wcs=make_wcs(scale, how == "flip"))


CENTERS = [(0.0, 0.0), (359.9, 0.3), (10.0, -30.0), (200.0, 75.0), (123.0, -90.0), (77.0, 90.0), (0.05, 89.5), (33.3333337, -12.3454321)]
ROTATIONS = [None, 0.0, 30.0, 90.0, -45.0, 180.0, 359.0, 405.0]


def truth(shape, scale, ra, dec, cra, cdec, rot):
    """True, False, or None if too close to the edge to be judged."""
    inside, size = SHAPES[shape]
    p = plane(ra, dec, cra, cdec, rot or 0.0)
    if p is None:
        return False
    ok, d = inside(p)
    return None if d < max(0.01 * size, 2 * scale) else ok


def points(shape, cra, cdec):
    size = SHAPES[shape][1]
    out = [(cra, cdec)]
    for f in np.arange(0.1, 0.9, 0.02) if shape == "tiny" else (0.1, 0.2, 0.35, 0.55, 0.9):
        for k in range(8):
            out.append(offset(cra, cdec, 10.0 + 45.0 * k, f * size))
    out.append(offset(cra, cdec, 40.0, 179.9))
    out.append(offset(cra, cdec, 200.0, 120.0))
    out.append(offset(cra, cdec, 0.0, 180.0))
    return out


def sec_contains(ctx):
    def go(shape, scale, how, center, rot):
        ctx.step()
        fp = make(shape, scale, how)
        pts = points(shape, *center)
        ra, dec = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
        want = [truth(shape, scale, *p, *center, rot) for p in pts]
        ctx.state((shape, scale, how, center, rot))
        got = fp.contains(ra, dec, center[0], center[1], rotation=rot)
        ctx.check(np.shape(got) == ra.shape, f"one answer per point: {np.shape(got)}")

        def judge(got, what, which=range(len(pts))):
            for p, g, w in zip([pts[k] for k in which], got, [want[k] for k in which]):
                ctx.compared += 1
                if w is not None:
                    ctx.outcome("inside" if w else "outside")
                    if bool(g) != w:
                        ctx.fail(f"{what}: {p} in {shape} at {center}, rotation {rot}: {bool(g)}, expected {w}")

        judge(got, "batch")
        kw = {} if rot is None else {"rotation": rot}
        some = range(0, len(pts), 5)
        judge([fp.contains(float(ra[k]), float(dec[k]), center[0], center[1], **kw) for k in some], "scalar", some)
        n = len(pts)
        full = {} if rot is None else {"rotation": np.full(n, rot)}
        judge(fp.contains(ra, dec, np.full(n, center[0]), np.full(n, center[1]), **full), "arrays")
        judge(fp.contains(list(ra), list(dec), [center[0]], [center[1]], **kw), "lists")
        # the same coordinates in pixels
        px = fp.sky_to_pixel(ra, dec, np.full(n, center[0]), np.full(n, center[1]), **full)
        sign = -1.0 if how == "flip" else 1.0
        for k, p in enumerate(pts):
            q = plane(*p, *center, rot or 0.0)
            if q is not None and max(abs(q[0]), abs(q[1])) < 50:
                ctx.eq([px[0][k], px[1][k]], [sign * q[0] / scale - 0.5, q[1] / scale - 0.5], f"pixel of {p} at {center}", rtol=1e-6, atol=1e-3)
                if k % 9:
                    continue
                one = fp.sky_to_pixel(float(ra[k]), float(dec[k]), center[0], center[1], **kw)
                ctx.eq([float(one[0]), float(one[1])], [px[0][k], px[1][k]], "a scalar's pixel", rtol=1e-9, atol=1e-6)

    for shape in SHAPES:
        hows = ["scale", "flip", "wcs"] + (["rect"] if shape in ("rect", "tall", "tiny") else [])
        for how in ["scale"] if shape == "pixel_ell" else hows:
            for scale in (1e-4,) if shape == "tiny" else ctx.pick((0.01,), (0.01, 0.003)):
                for center in CENTERS:
                    for rot in ROTATIONS:
                        ctx.case([shape, how, scale, center, rot], go, shape, scale, how, center, rot)

    # every mix of shapes of the arguments
    def shapes(nr, nd, ncr, ncd, nrot):
        ctx.step()
        fp = make("rect", 0.01, "scale")

        def arr(n, v):
            return v if n == 0 else np.full(n, v)

        args = (arr(nr, 10.2), arr(nd, -29.9), arr(ncr, 10.0), arr(ncd, -30.0))
        kw = {} if nrot is None else {"rotation": arr(nrot, 20.0)}
        n = max(nr, 1)
        ok = max(nd, 1) == n and all(k is None or max(k, 1) in (1, n) for k in (ncr, ncd, nrot))
        ctx.state(("shapes", nr, nd, ncr, ncd, nrot))
        if ok:
            got = fp.contains(*args, **kw)
            ctx.check(np.shape(got) == (() if nr == 0 else (nr,)) and bool(np.all(got)), f"shapes {nr, nd, ncr, ncd, nrot}: {got}")
        else:
            ctx.raises(ValueError, lambda: fp.contains(*args, **kw), f"shapes {nr, nd, ncr, ncd, nrot}")

    for combo in itertools.product((0, 1, 2, 3), (0, 1, 2, 3), (0, 1, 2, 3), (0, 1, 2, 3), (None, 0, 1, 2, 3)):
        ctx.case(["shapes", *combo], shapes, *combo)

    # coordinates given as whole numbers, with pointings and rotations that are not
    def whole(shape, center, rot, form):
        ctx.step()
        fp = make(shape, 0.01, "scale")
        pts = [(round(center[0]) + i, round(center[1]) + j) for i in range(-3, 4) for j in range(-3, 4)]
        ra, dec = ([p[k] for p in pts] for k in (0, 1))
        if form == "array":
            ra, dec = np.array(ra), np.array(dec)
        elif form == "scalar":
            ra, dec = ra[8], dec[8]
            pts = [pts[8]]
        got = np.atleast_1d(fp.contains(ra, dec, *center, rotation=rot))
        ctx.eq(len(got), len(pts), "one answer per point")
        ctx.state(("whole", shape, center, rot, form))
        for p, g in zip(pts, got):
            w = truth(shape, 0.01, *map(float, p), *center, rot[0] if isinstance(rot, list) else rot)
            if w is not None:
                ctx.outcome("inside" if w else "outside")
                ctx.check(bool(g) == w, f"whole numbers {p} in {shape} at {center}, rotation {rot}: {bool(g)}")

    for shape in ("rect", "tall", "ell"):
        for center in ((10.75, -30.5), (20.25, 10.75), (200.5, 0.5)):
            for rot in (None, 20.75, 50.5, [33.5]):
                for form in ("array", "list", "scalar"):
                    if not (form == "scalar" and isinstance(rot, list)):
                        ctx.case(["whole", shape, center, rot, form], whole, shape, center, rot, form)

    # batches that mix pointings and rotations
    def mixed(which):
        ctx.step()
        fp = make("ell", 0.01, "scale")
        ctx.state(("mixed", which))
        rows = [(CENTERS[c], ROTATIONS[r]) for c, r in which]
        pts = [offset(*c, 33.0, 1.3) for c, _ in rows]
        got = fp.contains(
            np.array([p[0] for p in pts]),
            np.array([p[1] for p in pts]),
            np.array([c[0] for c, _ in rows]),
            np.array([c[1] for c, _ in rows]),
            rotation=np.array([r for _, r in rows]),
        )
        for g, p, (c, r) in zip(got, pts, rows):
            w = truth("ell", 0.01, *p, *c, r)
            if w is not None:
                ctx.check(bool(g) == w, f"{p} at {c} rotation {r} within a batch: {g}")

    cells = list(itertools.product((2, 3, 4), (1, 2, 3, 4)))
    for n in (1, 2, 3):
        for which in itertools.product(cells, repeat=n) if n < 3 or ctx.tier == "thorough" else itertools.combinations(cells, 3):
            ctx.case(["mixed", which], mixed, which)

    def refuse(kind):
        from astropy import units as u
        from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint
        from regions import PixCoord, RectanglePixelRegion

        ctx.step()
        fns = {
            "no scale": lambda: DetectorFootprint(region("rect", 0.01)),
            "zero": lambda: DetectorFootprint(region("rect", 0.01), pixel_scale=0.0),
            "negative": lambda: DetectorFootprint(region("rect", 0.01), pixel_scale=-0.1),
            "away": lambda: DetectorFootprint(
                RectanglePixelRegion(center=PixCoord(100.0, 0.0), width=10, height=10, angle=0 * u.deg), pixel_scale=0.1
            ),
            "away y": lambda: DetectorFootprint(
                RectanglePixelRegion(center=PixCoord(0.0, -100.0), width=10, height=10, angle=0 * u.deg), pixel_scale=0.1
            ),
        }
        ctx.raises(ValueError, fns[kind], f"a footprint with {kind}")

    for kind in ("no scale", "zero", "negative", "away", "away y"):
        ctx.case(["refuse", kind], refuse, kind)


# ---------------------------------------------------------------------- survey tables with footprints
POINTINGS = [(10.0, -30.0, 0.0), (10.5, -30.5, 90.0), (10.0, -30.0, 45.0), (359.9, 89.0, 30.0), (12.0, -31.0, 200.0)]
QUERIES = [(10.0, -30.0), (10.9, -30.2), (10.4, -29.1), (11.5, -30.6), (180.0, 89.9), (9.2, -30.7), (200.0, 10.0)]


def sec_table(ctx):
    from lightcurvelynx.obstable.obs_table import ObsTable

    def go(which, shape, radius, rot, index, history):
        ctx.step()
        rows = [dict(ra=POINTINGS[i][0], dec=POINTINGS[i][1], rot=POINTINGS[i][2], time=float(k), id=i) for k, i in enumerate(which)]
        cols = {"ra": [r["ra"] for r in rows], "dec": [r["dec"] for r in rows], "time": [r["time"] for r in rows], "id": [r["id"] for r in rows]}
        cmap = None
        if rot == "column":
            cols["rotation"] = [r["rot"] for r in rows]
        elif rot == "mapped":
            cols["rotSkyPos"] = [r["rot"] for r in rows]
            cmap = {"rotation": "rotSkyPos"}
        df = pd.DataFrame(cols)
        if index == "labels":
            df.index = [7 * (k % 2) for k in range(len(df))]
        table = ObsTable(df, colmap=cmap, detector_footprint=region(shape, 0.01), pixel_scale=0.01, radius=radius)
        rotated, on = rot != "none", True
        for op in history:
            ctx.step()
            if op == "drop":
                table.filter_rows(np.array([k != 0 for k in range(len(rows))]))
                rows = rows[1:]
            elif op == "clear":
                table.clear_detector_footprint()
                on = False
            elif op == "rotate":
                table.add_column("rotation", [10.0 + 50.0 * k for k in range(len(rows))], overwrite=True)
                for k, r in enumerate(rows):
                    r["rot"] = 10.0 + 50.0 * k
                rotated = True
        ctx.state((which, shape, radius, rot, index, history))

        def want(q, tmin):
            out = []
            for k, r in enumerate(rows):
                c = float(np.clip(unit(*q) @ unit(r["ra"], r["dec"]), -1, 1))
                sep = math.degrees(math.acos(c))
                if abs(sep - radius) < 1e-6:
                    out.append(None)
                elif sep > radius or (tmin is not None and r["time"] < tmin):
                    out.append(False)
                else:
                    out.append(truth(shape, 0.01, *q, r["ra"], r["dec"], r["rot"] if rotated else 0.0) if on else True)
            return out

        def judge(got, q, tmin, what):
            got = [int(g) for g in got]
            ctx.check(len(set(got)) == len(got), f"{what}: repeated rows {got}")
            for k, w in enumerate(want(q, tmin)):
                if w is not None:
                    ctx.check((k in got) == w, f"{what} at {q}, from time {tmin}: row {k} ({rows[k]}) {'missing from' if w else 'wrongly in'} {got}")
                    ctx.outcome("seen" if w else "unseen")

        for tmin in (None, 1.0):
            for q in QUERIES:
                judge(table.range_search(*q, t_min=tmin), q, tmin, "a single query")
            res = table.range_search(np.array([q[0] for q in QUERIES]), np.array([q[1] for q in QUERIES]), t_min=tmin)
            for q, r in zip(QUERIES, res):
                judge(r, q, tmin, "a batch query")
            seen = table.is_observed(np.array([q[0] for q in QUERIES]), np.array([q[1] for q in QUERIES]), t_min=tmin)
            ctx.eq([bool(s) for s in seen], [len(r) > 0 for r in res], "is_observed")
        got = table.get_observations(*QUERIES[1], cols=["id"])["id"]
        ctx.eq([int(g) for g in got], [rows[int(k)]["id"] for k in table.range_search(*QUERIES[1])], "rows of the matches")

    depth = ctx.pick(2, 3)
    for n in (1, 2, 3):
        for which in itertools.combinations(range(len(POINTINGS)), n):
            for shape, radius in (("ell", 3.5), ("rect", 1.75), ("tall", 0.9)):
                for rot in ("none", "column", "mapped"):
                    for index in ("default", "labels"):
                        hists = [h for d in range(depth + 1) for h in itertools.product(("drop", "rotate", "clear"), repeat=d)]
                        for h in hists if n == 2 else [(), ("drop",), ("rotate",)]:
                            if h.count("drop") >= n or (shape != "ell" and len(h) > 1):
                                continue
                            ctx.case([which, shape, rot, index, h], go, which, shape, radius, rot, index, h)


SECTIONS = [("contains", sec_contains, (4, 8)), ("table", sec_table, (6, 8)), ("memory", memory.sec_footprints, 2)]
