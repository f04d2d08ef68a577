"""O01: spatial and temporal queries return exactly the matching pointings, after any history of edits."""

import itertools
import math

import numpy as np
import pandas as pd

from mc.core import Machine, bfs
from mc import memory

ID = "O01"
RULE = (
    "breadth-first search over histories of row filters, column additions and overwrites (of positions, times and filters too) and radius changes on tables with four kinds "
    "of row index, with a battery of queries after each step; every subset of a pool of special pointings (poles, "
    "RA wrap, duplicates) times every query point, radius and time window; a state is the table content + radius"
)
ASSUMPTIONS = ["query points within 1e-7 degrees of a field's edge are not judged (floating point)"]

POOL = [
    (0.0, 0.0), (359.6, 0.2), (0.3, -0.4), (180.0, 89.7), (10.0, -90.0), (200.0, 90.0), (45.0, -30.0), (45.0, -30.0),
]  # fmt: skip
TIMES = [5.0, 1.0, 3.0, 3.0, 2.0, 8.0, 4.0, 9.0]
FILTERS = ["r", "g", "r", "i", "g", "r", "g", "i"]
QUERIES = [
    (0.0, 0.0), (360.0, 0.0), (0.05, -0.1), (359.9, 0.0), (-0.2, 0.1), (0.0, 89.9), (77.0, -89.95), (45.0, -30.0),
    (45.2, -30.1), (225.0, 30.0), (180.0, 0.0),
]  # fmt: skip
RADII = [0.0513, 0.45, 1.75, 95.0, 179.9, 181.0, 300.0]
WINDOWS = [(None, None), (3.0, None), (None, 3.0), (3.0, 5.0), (2.5, 2.6), (9.5, None)]
INDEXES = ["default", "reversed", "duplicate", "strings"]


def dist(a, b):
    """Great-circle distance in degrees (Vincenty)."""
    l1, p1, l2, p2 = map(math.radians, (*a, *b))
    d = l2 - l1
    y = math.hypot(math.cos(p2) * math.sin(d), math.cos(p1) * math.sin(p2) - math.sin(p1) * math.cos(p2) * math.cos(d))
    x = math.sin(p1) * math.sin(p2) + math.cos(p1) * math.cos(p2) * math.cos(d)
    return math.degrees(math.atan2(y, x))


def match(rows, q, radius, tmin, tmax):
    """(positions certainly matching, positions undecided)."""
    yes, maybe = set(), set()
    for k, r in enumerate(rows):
        if tmin is not None and r["time"] < tmin:
            continue
        if tmax is not None and r["time"] > tmax:
            continue
        d = dist(q, (r["ra"], r["dec"]))
        if abs(d - radius) < 1e-7:
            maybe.add(k)
        elif d < radius:
            yes.add(k)
    return yes, maybe


def good(got, rows, q, radius, tmin, tmax):
    got = [int(g) for g in got]
    yes, maybe = match(rows, q, radius, tmin, tmax)
    return len(set(got)) == len(got) and yes <= set(got) <= yes | maybe


def make_rows(which):
    return [
        {"ra": POOL[i][0], "dec": POOL[i][1], "time": TIMES[i], "filter": FILTERS[i], "id": 100 + i} for i in which
    ]


def make_table(rows, index="default", cls=None, **kwargs):
    from lightcurvelynx.obstable.obs_table import ObsTable

    df = pd.DataFrame({c: [r[c] for r in rows] for c in ("ra", "dec", "time", "filter", "id")})
    n = len(rows)
    if index == "reversed":
        df.index = [10 * (n - i) for i in range(n)]
    elif index == "duplicate":
        df.index = [i // 2 for i in range(n)]
    elif index == "strings":
        df.index = [f"row{(i * 5) % 8}" for i in range(n)]
    return (cls or ObsTable)(df, **kwargs)


class Edits(Machine):
    def __init__(self, index, size):
        self.index = index
        self.size = size

    def start(self, ctx):
        rows = make_rows(range(self.size))
        return {"rows": rows, "t": make_table(rows, self.index, radius=1.75), "radius": 1.75, "cols": 0}

    def ops(self, st):
        n = len(st["rows"])
        out = [["mask", "even"], ["mask", "rest"], ["idx", "ends"], ["idx", "twice"], ["radius", 0.45], ["radius", 200.0]]
        out += [["mask", "all"], ["mask", "none"], ["idx", "negative"], ["idx", "empty"], ["mask", "short"], ["add"]]
        out += [["swap", "ra"], ["swap", "dec"], ["swap", "time"], ["swap", "filter"]]
        if n == 0:
            out = [["radius", 0.45], ["mask", "all"], ["idx", "empty"]]
        return out

    def step(self, ctx, st, op):
        t, rows = st["t"], st["rows"]
        n = len(rows)
        if op[0] == "mask":
            mask = {
                "even": [i % 2 == 0 for i in range(n)],
                "rest": [i > 0 for i in range(n)],
                "all": [True] * n,
                "none": [False] * n,
                "short": [True] * (n + 1),
            }[op[1]]
            if op[1] == "short":
                ctx.raises(ValueError, lambda: t.filter_rows(np.array(mask, dtype=bool)), "a mask of the wrong length")
                return
            out = t.filter_rows(np.array(mask, dtype=bool))
            ctx.check(out is t, "filter_rows returns the table itself")
            st["rows"] = [r for r, m in zip(rows, mask) if m]
        elif op[0] == "idx":
            idx = {"ends": [0, n - 1], "twice": [n // 2, n // 2], "negative": [-1], "empty": []}[op[1]]
            t.filter_rows(np.array(idx, dtype=int))
            keep = {i % n for i in idx} if n else set()
            st["rows"] = [r for i, r in enumerate(rows) if i in keep]
        elif op[0] == "radius":
            t.radius = op[1]
            st["radius"] = op[1]
        elif op[0] == "swap":  # overwrite a column with its values in the opposite order
            new = [r[op[1]] for r in rows][::-1]
            t.add_column(op[1], new, overwrite=True)
            for r, v in zip(rows, new):
                r[op[1]] = v
        elif op[0] == "add":
            name = f"c{st['cols']}"
            st["cols"] += 1
            t.add_column(name, [1000 * st["cols"] + i for i in range(n)])
            for i, r in enumerate(rows):
                r[name] = 1000 * st["cols"] + i
        ctx.outcome(op[0])

    def clone(self, st):
        import copy

        return {"rows": [dict(r) for r in st["rows"]], "t": copy.deepcopy(st["t"]), "radius": st["radius"], "cols": st["cols"]}

    def canon(self, st):
        return (self.index, st["rows"], st["radius"], st["cols"])

    def observe(self, ctx, st):
        t, rows = st["t"], st["rows"]
        ctx.eq(len(t), len(rows), "number of rows")
        ctx.eq([int(v) for v in t["id"]], [r["id"] for r in rows], "row order")
        ctx.eq(sorted(t.filters), sorted({r["filter"] for r in rows}), "filters")
        if rows:
            ctx.eq(tuple(t.time_bounds()), (min(r["time"] for r in rows), max(r["time"] for r in rows)), "time bounds")
        for q in ((0.05, -0.1), (45.0, -30.0), (77.0, -89.95)):
            for radius in (None, 1.0):
                for tmin, tmax in ((None, None), (3.0, 5.0)):
                    check_query(ctx, t, rows, q, radius, tmin, tmax, st["radius"])


def check_query(ctx, t, rows, q, radius, tmin, tmax, default):
    r = default if radius is None else radius
    kw = {k: v for k, v in (("radius", radius), ("t_min", tmin), ("t_max", tmax)) if v is not None}
    where = f"query {q} radius {r} window {(tmin, tmax)} on rows {[x['id'] for x in rows]}"
    inds = t.range_search(q[0], q[1], **kw)
    ctx.check(good(inds, rows, q, r, tmin, tmax), lambda: f"range_search: {where}: got {list(inds)}, expected {match(rows, q, r, tmin, tmax)[0]}")
    yes, maybe = match(rows, q, r, tmin, tmax)
    if not maybe:
        ctx.eq(bool(t.is_observed(q[0], q[1], **kw)), bool(yes), f"is_observed: {where}")
    obs = t.get_observations(q[0], q[1], **kw)
    ctx.check(set(obs) == set(t.columns), lambda: f"columns of get_observations: {sorted(obs)}")
    pos = {x["id"]: k for k, x in enumerate(rows)}
    got = [pos.get(int(v), -1) for v in obs["id"]]
    ctx.check(good(got, rows, q, r, tmin, tmax), lambda: f"get_observations: {where}: got positions {got}, expected {yes}")
    for k, p in enumerate(got):
        for c in obs:
            if c in rows[p]:
                ctx.eq(obs[c][k], rows[p][c], f"get_observations row {k} column {c}: {where}")
    ctx.step()


def sec_histories(ctx):
    for index in INDEXES:
        bfs(ctx, f"edits-{index}", Edits(index, 8), ctx.pick(2, 4))


def sec_subsets(ctx):
    """Every subset of the pool up to a size, in both orders, every query, radius and window."""
    size = ctx.pick(3, 6)
    for k in range(1, size + 1):
        for which in itertools.combinations(range(8), k):
            for rev in (False, True):
                if rev and k == 1:
                    continue
                order = which[::-1] if rev else which
                ctx.case({"rows": list(order)}, run_subset, ctx, order)


def run_subset(ctx, order):
    rows = make_rows(order)
    t = make_table(rows)
    qra, qdec = np.array([q[0] for q in QUERIES]), np.array([q[1] for q in QUERIES])
    nq = len(QUERIES)
    for radius in RADII:
        for tmin, tmax in WINDOWS:
            kw = {k: v for k, v in (("t_min", tmin), ("t_max", tmax)) if v is not None}
            batch = t.range_search(qra, qdec, radius=radius, **kw)
            seen = t.is_observed(qra, qdec, radius=radius, **kw)
            ctx.eq(len(batch), nq, "one result per query point")
            for k, q in enumerate(QUERIES):
                ctx.check(
                    good(batch[k], rows, q, radius, tmin, tmax),
                    lambda: f"batch query {q} radius {radius} window {(tmin, tmax)}: got {list(batch[k])}, expected "
                    f"{match(rows, q, radius, tmin, tmax)[0]}",
                )
                yes, maybe = match(rows, q, radius, tmin, tmax)
                if not maybe:
                    ctx.eq(bool(seen[k]), bool(yes), f"batch is_observed {q} radius {radius} window {(tmin, tmax)}")
                ctx.step()
            # one time window per query point
            lo = np.array([-1.0 if k % 3 == 0 else float(k % 5) for k in range(nq)])
            hi = lo + np.array([float(k % 4) * 2 for k in range(nq)])
            per = t.range_search(list(qra), list(qdec), radius=radius, t_min=lo, t_max=hi)
            for k, q in enumerate(QUERIES):
                ctx.check(
                    good(per[k], rows, q, radius, lo[k], hi[k]),
                    lambda: f"query {q} radius {radius} own window {(lo[k], hi[k])}: got {list(per[k])}",
                )
    # one radius per query point
    for shift in range(len(RADII)):
        radii = np.array([RADII[(k + shift) % len(RADII)] for k in range(nq)])
        own = t.range_search(qra, qdec, radius=radii)
        seen = t.is_observed(qra, qdec, radius=radii)
        for k, q in enumerate(QUERIES):
            yes, maybe = match(rows, q, radii[k], None, None)
            ctx.check(good(own[k], rows, q, radii[k], None, None), lambda: f"query {q} own radius {radii[k]}: got {list(own[k])}, expected {yes}")
            if not maybe:
                ctx.eq(bool(seen[k]), bool(yes), f"is_observed {q} own radius {radii[k]}")
    for q in QUERIES:
        check_query(ctx, t, rows, q, 0.45, None, 4.0, None)
    ctx.state([r["id"] for r in rows])
    ctx.outcome("subset")


def sec_errors(ctx):
    t = make_table(make_rows(range(8)))
    tr = make_table(make_rows(range(8)), radius=1.0)
    bad = {
        "no radius": lambda: t.range_search(0.0, 0.0),
        "no radius observed": lambda: t.is_observed(0.0, 0.0),
        "no radius rows": lambda: t.get_observations(0.0, 0.0),
        "no ra": lambda: tr.range_search(None, 0.0),
        "no dec": lambda: tr.range_search(0.0, None),
        "none inside": lambda: tr.range_search([1.0, None], [1.0, 2.0]),
        "lengths": lambda: tr.range_search([1.0, 2.0], [1.0, 2.0, 3.0]),
        "longer ra": lambda: tr.range_search([1.0, 2.0, 3.0], [1.0, 2.0]),
        "one dec": lambda: tr.range_search([1.0, 2.0, 3.0], [1.0]),
        "one ra": lambda: tr.range_search([1.0], [1.0, 2.0, 3.0]),
        "array and scalar": lambda: tr.range_search([1.0, 2.0], 1.0),
        "scalar and array": lambda: tr.range_search(1.0, [1.0, 2.0]),
        "t_min length": lambda: tr.range_search([1.0, 2.0, 3.0], [1.0, 2.0, 3.0], t_min=[1.0, 2.0]),
        "t_max length": lambda: tr.range_search([1.0, 2.0, 3.0], [1.0, 2.0, 3.0], t_max=np.array([1.0, 2.0])),
        "negative radius": lambda: setattr(tr, "radius", -1.0),
        "zero radius": lambda: setattr(tr, "radius", 0.0),
    }
    for name, fn in bad.items():
        ctx.case({"bad": name}, ctx.raises, ValueError, fn, name)
    for name, cols in {"one": "time", "several": ["id", "time"], "twice": ["ra", "ra"]}.items():

        def go(cols=cols):
            got = tr.get_observations(45.0, -30.0, cols=cols)
            want = [cols] if isinstance(cols, str) else cols
            ctx.eq(set(got), set(want), "columns requested")
            ctx.eq(len(got[want[0]]), 2, "rows")

        ctx.case({"cols": name}, go)
    ctx.case({"cols": "unknown"}, ctx.raises, KeyError, lambda: tr.get_observations(0.0, 0.0, cols=["id", "nope"]), "an unknown column")

    def length_one():
        # one coordinate a scalar, the other an array of one
        for q in QUERIES:
            got = tr.range_search(q[0], [q[1]], radius=0.45)
            ctx.eq(len(got), 1, "one result")
            yes, _ = match(make_rows(range(8)), q, 0.45, None, None)
            ctx.eq(set(int(v) for v in got[0]), yes, f"mixed scalar and array at {q}")
            ctx.eq([bool(v) for v in tr.is_observed(q[0], [q[1]], radius=0.45)], [bool(yes)], f"is_observed, mixed, at {q}")

    ctx.case({"mixed": 1}, length_one)

    def moc():
        # the coverage map contains every field centre and nothing beyond the fields plus one map cell
        from astropy import units as u

        for given, depth in itertools.product((0.5, 2.0, None), (7, 9)):
            m = tr.build_moc(max_depth=depth) if given is None else tr.build_moc(radius=given, max_depth=depth)
            radius = tr.survey_values["radius"] if given is None else given
            ctx.eq(m.max_order, depth, "depth of the coverage map")
            cell = math.degrees(math.sqrt(math.pi / 3)) / 2**depth * 2
            for q in QUERIES + POOL:
                ra = q[0] % 360.0
                d = min(dist((ra, q[1]), p) for p in POOL)
                inside = bool(m.contains_lonlat(np.array([ra]) * u.deg, np.array([q[1]]) * u.deg)[0])
                if d < radius - cell:
                    ctx.check(inside, f"coverage map radius {radius} misses {q}, {d} degrees from a pointing")
                elif d > radius + cell:
                    ctx.check(not inside, f"coverage map radius {radius} contains {q}, {d} degrees from any pointing")
                ctx.outcome(f"moc-{inside}")

    ctx.case({"moc": 1}, moc)
    ctx.case({"moc": "no radius"}, ctx.raises, ValueError, lambda: t.build_moc(), "a coverage map without radius")
    ctx.state("errors")


def sec_close(ctx):
    """Pointings an arc second apart and times a second apart, at modern dates: nothing is blurred."""
    from lightcurvelynx.obstable.obs_table import ObsTable

    sec, day = 1.0 / 3600.0, 60913.0
    for place in ((10.0, 0.0), (200.0, -60.0), (359.99999, 45.0), (120.0, 89.0)):
        rows = []
        for k, (dd, dt) in enumerate(itertools.product((-1.1, -0.9, 0.0, 0.9, 1.1), (-2.0, -1.0, 0.0, 1.0))):
            rows.append({"ra": place[0], "dec": place[1] + dd * sec, "time": day + dt / 86400.0, "filter": "gr"[k % 2], "id": 100 + k})

        def go(rows=rows, place=place):
            t = make_table(rows, "reversed", ObsTable)
            edges = [None] + [day + d / 86400.0 for d in (-2.0, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0)]
            qra, qdec = np.full(len(edges), place[0]), np.full(len(edges), place[1])
            for radius in (0.5 * sec, 1.0 * sec, 1.2 * sec):
                for lo in edges:
                    for hi in edges:
                        check_query(ctx, t, rows, place, radius, lo, hi, None)
                    for ends in (np.array([day + 9.0] + edges[1:]), [day + 9.0] + edges[1:]):
                        got = t.range_search(qra, qdec, radius=radius, t_min=lo, t_max=ends)
                        for k in range(len(edges)):
                            ctx.check(good(got[k], rows, place, radius, lo, ends[k]), lambda: f"batch at {place}, radius {radius}, window {(lo, ends[k])}: {list(got[k])}")
                        ctx.step()
            ctx.state(("close", place))
            ctx.outcome("close")

        ctx.case({"close": list(place)}, go)


SECTIONS = [("histories", sec_histories, 8), ("subsets", sec_subsets, 8), ("close", sec_close, 2), ("errors", sec_errors), ("memory", memory.sec_tables, 2)]
