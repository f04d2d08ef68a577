"""M07: supernova models reproduce their templates for each sample's own parameters, at any query."""

import itertools
import math
import os
from pathlib import Path

import numpy as np

from ..core import Machine, bfs
from mc import memory

ID = "M07"
RULE = (
    "every pair of interpolation axes (regular and irregular) and every order of queries inside, on the edges and outside of "
    "the grid; every number of color law coefficients and layout of its file; every combination of sampled template "
    "parameters and query order of the SALT2, sncosmo and BayeSN models, on small model files written for the check; "
    "breadth-first search over histories of sampling, setting and evaluating wrapped sncosmo models; a state is one setup"
)
ASSUMPTIONS = [
    "jax computes in single precision (relative 1e-4 of the largest value); nodes of axes are exact in binary",
    "sncosmo's own splines and dust_extinction's laws are taken as given; BayeSN is compared inside its knots",
]

AA_C = 2.99792458e18  # Angstrom / s
FNU = 1e32  # erg / s / cm^2 / Hz -> nJy (1 nJy = 1e-32)


def scratch(name):
    d = Path(os.environ.get("VERIF_SCRATCH", "/tmp")) / f"m07_{name}_{os.getpid()}"
    d.mkdir(parents=True, exist_ok=True)
    return d


def close(ctx, got, want, what, rtol=1e-4):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if not ctx.check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}"):
        return
    scale = float(np.max(np.abs(want))) if want.size else 0.0
    bad = np.argwhere(~(np.abs(got - want) <= rtol * scale + 1e-300))
    ctx.check(len(bad) == 0, f"{what}: at {bad[:3].tolist()} {got[tuple(bad[0])] if len(bad) else ''}, expected {want[tuple(bad[0])] if len(bad) else ''}")


# ---------------------------------------------------------------------- reference interpolation
def keys(x):
    x = abs(x)
    if x < 1:
        return 1.5 * x**3 - 2.5 * x**2 + 1
    if x < 2:
        return -0.5 * x**3 + 2.5 * x**2 - 4 * x + 2
    return 0.0


def locate(ax, v):
    """Index of the interval and the fraction inside it; None outside."""
    if v < ax[0] or v > ax[-1]:
        return None
    i = max(k for k in range(len(ax) - 1) if ax[k] <= v)
    return i, (v - ax[i]) / (ax[i + 1] - ax[i])


def bicubic(xs, ys, z, x, y):
    lx, ly = locate(xs, x), locate(ys, y)
    if lx is None or ly is None:
        return 0.0
    (i, a), (j, b) = lx, ly
    if i in (0, len(xs) - 2) or j in (0, len(ys) - 2):
        return (1 - a) * ((1 - b) * z[i][j] + b * z[i][j + 1]) + a * ((1 - b) * z[i + 1][j] + b * z[i + 1][j + 1])
    return sum(keys(a - p) * keys(b - q) * z[i + p][j + q] for p in (-1, 0, 1, 2) for q in (-1, 0, 1, 2))


AXES = {
    "three": [0.0, 1.0, 2.0],
    "four": [-2.0, -1.0, 0.0, 1.0],
    "six": [0.0, 0.5, 1.0, 1.5, 2.0, 2.5],
    "waves": [2000.0, 2400.0, 2800.0, 3200.0, 3600.0],
    "irregular": [0.0, 1.0, 3.0, 4.0, 8.0, 8.5],
    "ints": [1, 2, 3, 4, 5],
    "almost": [0.0, 1.0, 2.0078125, 3.0, 4.0],
}


def queries(ax):
    out = [ax[0] - 0.5, float(ax[0])]
    for a, b in zip(ax[:-1], ax[1:]):
        out += [a + 0.25 * (b - a), a + 0.5 * (b - a), float(b)]
    return out + [ax[-1] + 0.25]


def table(n, m, kind="float"):
    z = [[((7 * i + 11 * j + i * j) % 13) - 4 for j in range(m)] for i in range(n)]
    return [[v if kind == "int" else v + 0.25 for v in row] for row in z]


def orders(q):
    yield "sorted", list(q)
    yield "reversed", list(q)[::-1]
    yield "mixed", list(q)[1::2] + list(q)[0::2] + [q[1], q[1]]
    yield "single", [q[len(q) // 2]]


def sec_bicubic(ctx):
    from lightcurvelynx.utils.bicubic_interp import BicubicAxis, BicubicInterpolator

    def go(kx, ky, zk, conv):
        xs, ys = AXES[kx], AXES[ky]
        z = table(len(xs), len(ys), zk)
        f = BicubicInterpolator(conv(xs), conv(ys), conv(z))
        pairs = list(zip(orders(queries(xs)), list(orders(queries(ys)))[1:] + list(orders(queries(ys)))[:1]))
        if ctx.tier == "thorough":
            pairs = itertools.product(orders(queries(xs)), orders(queries(ys)))
        for (ox, qx), (oy, qy) in pairs:
            ctx.step()
            ctx.state((kx, ky, zk, ox, oy))
            want = [[bicubic(xs, ys, z, x, y) for y in qy] for x in qx]
            close(ctx, f(conv(qx), conv(qy)), want, f"{kx} x {ky} grid, {ox} x {oy} queries")
        ctx.outcome(f"{zk} grid")

    for kx, ky in itertools.product(AXES, repeat=2):
        for zk, conv in (("float", list), ("float", np.array), ("int", list))[: 3 if kx == ky or ctx.tier == "thorough" else 1]:
            ctx.case(["grid", kx, ky, zk, conv.__name__], go, kx, ky, zk, conv)

    def files(kx, ky, zk, scale, header):
        ctx.step()
        xs, ys = AXES[kx], AXES[ky]
        z = table(len(xs), len(ys), zk)
        path = scratch("grid") / "grid.dat"
        rows = [f"{x} {y} {z[i][j]}" for i, x in enumerate(xs) for j, y in enumerate(ys)]
        path.write_text("\n".join((["# phase wave value"] if header else []) + rows) + "\n")
        f = BicubicInterpolator.from_grid_file(path) if scale is None else BicubicInterpolator.from_grid_file(path, scale_factor=scale)
        qx, qy = queries(xs), queries(ys)
        s = 1.0 if scale is None else scale
        close(ctx, f(qx, qy), [[s * bicubic(xs, ys, z, x, y) for y in qy] for x in qx], f"grid file {kx} x {ky} of {zk} values times {scale}")
        ctx.state(("file", kx, ky, zk, scale, header))
        ctx.outcome("file")

    for kx, ky in itertools.product(("three", "six", "irregular", "ints"), ("waves", "four", "ints")):
        for zk in ("float", "int"):
            for scale in (None, 1e-12, 2.0):
                ctx.case(["file", kx, ky, zk, scale], files, kx, ky, zk, scale, scale == 2.0)

    def refuse(xs, ys, shape):
        ctx.step()
        ok = len(xs) >= 3 and len(ys) >= 3 and sorted(set(xs)) == list(xs) and sorted(set(ys)) == list(ys) and shape == (len(xs), len(ys))
        make = lambda: BicubicInterpolator(xs, ys, np.zeros(shape))  # noqa: E731
        if ok:
            make()
        else:
            ctx.raises(ValueError, make, f"axes {xs}, {ys}, values of shape {shape}")

    for xs, ys in itertools.product(([0.0, 1.0, 2.0], [0.0, 1.0], [0.0, 2.0, 1.0], [0.0, 1.0, 1.0, 2.0], [1.0, 2.0, 3.0, 4.0]), repeat=2):
        for shape in ((3, 3), (4, 3), (3, 4), (12,), (3, 3, 1)):
            ctx.case(["refuse", xs, ys, shape], refuse, xs, ys, shape)

    def drifting(n, step, first):
        # Steps that differ slightly: over a long axis, an average step leads to the wrong interval.
        ctx.step()
        xs, ys = [0.0] + [first + step * k for k in range(n)], AXES["three"]
        z = table(len(xs), 3)
        qx = [a + q * (b - a) for a, b in list(zip(xs, xs[1:]))[:: max(1, n // 8)] + [(xs[-2], xs[-1])] for q in (0.125, 0.5, 0.875)]
        f = BicubicInterpolator(np.array(xs), np.array(ys), np.array(z))
        close(ctx, f(np.array(qx), np.array([0.5, 1.5])), [[bicubic(xs, ys, z, x, y) for y in (0.5, 1.5)] for x in qx], f"{n} steps of {step}, the first {first}", 1e-3)
        ctx.state(("drift", n, step, first))

    for n in (10, 60, 120):
        for step, first in ((1.0, 1.0), (1.0, 0.9921875), (1.00390625, 1.0), (1.0, 1.25), (0.5, 0.498046875)):
            ctx.case(["drift", n, step, first], drifting, n, step, first)

    for bad in (np.zeros((3, 3)), 5.0, np.zeros((1, 3))):
        ctx.case(["axis", str(np.shape(bad))], ctx.raises, ValueError, lambda bad=bad: BicubicAxis(bad), f"an axis of shape {np.shape(bad)}")

    def index(k, order):
        ctx.step()
        ax = BicubicAxis(AXES[k])
        q = dict(orders(queries(AXES[k])))[order]
        n = len(AXES[k])
        want = [min(max([0] + [i for i in range(n) if AXES[k][i] <= v]), n - 2) for v in q]
        ctx.eq([int(i) for i in ax.find_indices(q)], want, f"intervals of {q}")
        ctx.eq([bool(b) for b in ax.out_of_bounds(q)], [v < AXES[k][0] or v > AXES[k][-1] for v in q], f"out of bounds of {q}")
        ctx.eq(len(ax), n, "length")

    for k in AXES:
        for order in ("sorted", "reversed", "mixed", "single"):
            ctx.case(["index", k, order], index, k, order)


# ---------------------------------------------------------------------- color law
B, V = 4302.57, 5428.55


def colorlaw(lo, hi, coeffs, wave):
    c = list(coeffs)[:6]
    c = [1 - sum(c)] + c + [0] * (6 - len(c))
    sc = lambda w: (w - B) / (V - B)  # noqa: E731
    poly = lambda x: sum(a * x ** (k + 1) for k, a in enumerate(c))  # noqa: E731
    der = lambda x: sum((k + 1) * a * x**k for k, a in enumerate(c))  # noqa: E731
    x, a, b = sc(wave), sc(lo), sc(hi)
    if x < a:
        return -(poly(a) + der(a) * (x - a))
    if x > b:
        return -(poly(b) + der(b) * (x - b))
    return -poly(x)


CL_WAVES = [2000.0, 2800.0, 3000.0, 4302.57, 5000.0, 5428.55, 7000.0, 8000.0, 9200.0]


def sec_colorlaw(ctx):
    from lightcurvelynx.astro_utils.salt2_color_law import SALT2ColorLaw

    pool = [-0.504294, 0.787691, -0.461715, 0.0815619, 0.25, -0.125, 0.5, 3.0]

    def go(n, lo, hi, conv):
        law = SALT2ColorLaw(lo, hi, conv(pool[:n]))
        for order, q in orders(CL_WAVES):
            ctx.step()
            ctx.state((n, lo, hi, order))
            close(ctx, law.apply(np.array(q)), [colorlaw(lo, hi, pool[:n], w) for w in q], f"{n} coefficients on [{lo}, {hi}], {order}")
        ctx.outcome(f"{n} coefficients")

    for n in range(9):
        for lo, hi in ((3000.0, 7000.0), (2800.0, 8000.0), (4302.57, 5428.55), (2000.0, 9200.0)):
            for conv in (list, np.array):
                ctx.case(["law", n, lo, hi, conv.__name__], go, n, lo, hi, conv)

    def files(n, meta):
        ctx.step()
        lines = [str(n)] + [str(c) for c in pool[:n]] + [f"Salt2ExtinctionLaw.{k} {v}" for k, v in meta]
        path = scratch("law") / "law.dat"
        path.write_text("\n".join(lines) + "\n")
        d = dict(meta)
        if d.get("version", 1) != 1:
            ctx.raises(RuntimeError, lambda: SALT2ColorLaw.from_file(path), f"version {d['version']}")
            return
        law = SALT2ColorLaw.from_file(path)
        lo, hi = float(d.get("min_lambda", 3000)), float(d.get("max_lambda", 7000))
        close(ctx, law.apply(np.array(CL_WAVES)), [colorlaw(lo, hi, pool[:n], w) for w in CL_WAVES], f"file of {n} coefficients with {meta}")
        ctx.state(("file", n, meta))
        ctx.outcome("file")

    items = [("version", 1), ("min_lambda", 2800), ("max_lambda", 8000)]
    metas = [list(p) for r in range(4) for p in itertools.permutations(items, r)] + [[("version", 2)], [("min_lambda", 2800), ("version", 0)]]
    for n in (1, 4, 5, 6):
        for meta in metas:
            ctx.case(["file", n, meta], files, n, meta)


# ---------------------------------------------------------------------- SALT2
PH = [-20.0 + 8 * k for k in range(10)]
WV = [2000.0 + 512 * k for k in range(15)]


def template(k):
    return [[(2.0 + k) * math.exp(-((p - 5 * k) ** 2) / 300) * (1 + 0.3 * math.sin(w / (700.0 + 100 * k))) - 0.4 * k for w in WV] for p in PH]


def salt_dir():
    d = scratch("salt")
    if not (d / "done").exists():
        for k in (0, 1):
            t = template(k)
            rows = "\n".join(f"{p} {w} {t[i][j]!r}" for i, p in enumerate(PH) for j, w in enumerate(WV)) + "\n"
            (d / f"salt2_template_{k}.dat").write_text(rows)
        for name in ("lc_dispersion_scaling", "lc_relative_variance_0", "lc_relative_variance_1", "lc_relative_covariance_01"):
            (d / f"salt2_{name}.dat").write_text("\n".join(f"{p} {w} 1.0" for p in PH for w in WV) + "\n")
        (d / "salt2_color_dispersion.dat").write_text("".join(f"{w} 0.0\n" for w in WV))
        (d / "salt2_color_correction.dat").write_text("4\n-0.5\n0.8\n-0.45\n0.08\nSalt2ExtinctionLaw.version 1\nSalt2ExtinctionLaw.min_lambda 2800\nSalt2ExtinctionLaw.max_lambda 7000\n")
        (d / "done").write_text("")
    return d


def salt(p, t, w):
    """Observer-frame flux in nJy."""
    z = p["redshift"]
    ph, wr = (t - p["t0"]) / (1 + z), w / (1 + z)
    m0, m1 = bicubic(PH, WV, template(0), ph, wr), bicubic(PH, WV, template(1), ph, wr)
    flam = 1e-12 * p["x0"] * (m0 + p["x1"] * m1) * 10 ** (-0.4 * p["c"] * colorlaw(2800.0, 7000.0, [-0.5, 0.8, -0.45, 0.08], wr))
    return flam * wr**2 / AA_C * FNU * (1 + z)


SAMPLES = {
    "x0": [0.5, 2.0, 1.0],
    "x1": [0.0, -1.5, 2.0],
    "c": [0.1, -1.4, 0.0],
    "redshift": [0.0, 0.25, 1.0],
    "t0": [0.0, 59000.0, -10.0],
}


def sec_salt(ctx):
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.models.salt2_jax import SALT2JaxModel
    from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel

    import sncosmo

    d = salt_dir()
    sncosmo.register(sncosmo.SALT2Source(modeldir=str(d)), name="mc-salt2", force=True)
    rel = [-30.0, -19.0, -5.0, 0.0, 3.7, 20.0, 51.0, 70.0]
    waves = [2050.0, 2900.0, 4310.0, 5000.0, 6789.0, 9000.0]

    def params(ids):
        return {k: [v[i] for i in ids] for k, v in SAMPLES.items()}

    def go(kind, ids, torder, worder):
        ctx.step()
        ps = params(ids)
        args = {k: (GivenValueList(v) if len(ids) > 1 else v[0]) for k, v in ps.items()}
        if kind == "jax":
            m = SALT2JaxModel(model_dir=d, node_label="m", **args)
        else:
            m = SncosmoWrapperModel("mc-salt2", node_label="m", **args)
        st = m.sample_parameters(num_samples=len(ids))
        base = ps["t0"][0]
        ts = [base + r for r in dict(orders(rel))[torder]]
        ws = dict(orders(waves))[worder]
        want = []
        for k in range(len(ids)):
            p = {a: b[k] for a, b in ps.items()}
            want.append([[salt(p, t, w) for w in ws] for t in ts])
        # the templates' edges are reached exactly by no query: no sample's phase or wavelength is a node
        got = m.evaluate_sed(np.array(ts), np.array(ws), st)
        want = np.array(want)
        if kind == "sncosmo":
            for k in range(len(ids)):  # outside of the templates' wavelengths the wrapper extrapolates (M01)
                zz = 1 + ps["redshift"][k]
                out = [w / zz < WV[0] or w / zz > WV[-1] for w in ws]
                want[k][:, out] = 0.0
        close(ctx, got, want[0] if len(ids) == 1 else want, f"{kind}, samples {ids}, {torder} times, {worder} wavelengths", 3e-4 if kind == "jax" else 1e-6)
        mask = []
        lo, hi = (-20.0, 50.0) if kind == "jax" else (PH[0], PH[-1])
        for k, s in enumerate(st if len(ids) > 1 else [st]):
            z, t0 = ps["redshift"][k], ps["t0"][k]
            grid = np.array([t0 + x * (1 + z) + e for x in (lo, hi) for e in (-1, 1)])
            mask.append([bool(b) for b in m.mask_by_time(grid, s)])
        ctx.eq(mask, [[False, True, True, False]] * len(ids), "times of interest")
        ctx.raises(ValueError, lambda: m.mask_by_time(grid), "times of interest without a state")
        ctx.state((kind, ids, torder, worder))
        ctx.outcome(f"{kind} {len(ids)}")

    for kind in ("jax", "sncosmo"):
        for n in (1, 2, 3):
            for ids in itertools.permutations(range(3), n):
                for torder, worder in itertools.product(("sorted", "reversed", "mixed", "single"), repeat=2):
                    ctx.case([kind, ids, torder, worder], go, kind, ids, torder, worder)


# ---------------------------------------------------------------------- sncosmo histories
def poly_flux(ph, w):
    return (3.0 + 0.1 * ph) * (w / 1000.0) ** 2 * 1e-15


SN_T = [-10.0, 0.0, 10.0, 20.0, 30.0]
SN_W = [2000.0, 3000.0, 4000.0, 5000.0, 6000.0, 7000.0]


def register():
    import sncosmo

    f = np.array([[poly_flux(p, w) for w in SN_W] for p in SN_T])
    sncosmo.register(sncosmo.TimeSeriesSource(np.array(SN_T), np.array(SN_W), f, time_spline_degree=1, zero_before=True), name="mc-poly", force=True)


def sn_flux(amp, z, t0, t, w):
    ph, wr = (t - t0) / (1 + z), w / (1 + z)
    if ph < SN_T[0] or not SN_W[0] <= wr <= SN_W[-1]:
        return 0.0
    return amp * poly_flux(ph, wr) * wr**2 / AA_C * FNU * (1 + z)


class Wrapped(Machine):
    """Two wrapped models of the same registered source: sampling, setting parameters, evaluating stored states."""

    def __init__(self, kind):
        self.kind = kind

    def build(self, st):
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList
        from lightcurvelynx.models.sncomso_models import SncosmoWrapperModel

        register()
        k = self.kind
        a = SncosmoWrapperModel("mc-poly", amplitude=GivenValueList([2.0, 0.0, 5.0, 7.0, 11.0, 13.0, 17.0]) if k == "list" else 2.0, t0=5.0, redshift=0.5, node_label="a")
        b = SncosmoWrapperModel("mc-poly", t0=-5.0, redshift=0.0, node_label="b", **({} if k in ("default", "late") else {"amplitude": 0.0 if k == "zero" else 19.0}))
        return {"a": a, "b": b}, []

    def start(self, ctx):
        return {"hist": [], "amp": {"a": 2.0, "b": {"default": 1.0, "late": 1.0, "zero": 0.0}.get(self.kind, 19.0)}, "pos": 0, "states": []}

    def ops(self, st):
        out = []
        if len(st["states"]) < 3:
            out += [["sample", "a", 1], ["sample", "a", 2], ["sample", "b", 1]]
        for k in range(len(st["states"])):
            out += [["eval", k, "sorted"], ["eval", k, "mixed"]]
        out += [["set", "a", 23.0], ["set", "b", 29.0], ["bad", "a"]]
        if self.kind == "list":
            out.remove(["set", "a", 23.0])
        if self.kind == "late":
            # only the second model, whose parameter is first given after it was built
            out = [op for op in out if op[0] == "eval" or op[1] == "b"] + [["set", "b", 31.0]]
        if self.kind in ("default", "late") and any(who == "b" for who, _ in st["states"]) and st["amp"]["b"] == 1.0:
            # a state sampled before its model gained the parameter has no value for it
            out = [op for op in out if op[:2] != ["set", "b"]]
        return out

    def clone(self, st):
        return {"hist": list(st["hist"]), "amp": dict(st["amp"]), "pos": st["pos"], "states": list(st["states"])}

    def step(self, ctx, st, op):
        # the implementation is rebuilt and replayed: its models hold generators and sources
        st["hist"] = st["hist"] + [op]
        if op[0] == "sample":
            if op[1] == "a" and self.kind == "list":
                vals = [2.0, 0.0, 5.0, 7.0, 11.0, 13.0, 17.0][st["pos"] : st["pos"] + op[2]]
                st["pos"] += op[2]
            else:
                vals = [st["amp"][op[1]]] * op[2]
            st["states"] = st["states"] + [(op[1], vals)]
        elif op[0] == "set":
            st["amp"][op[1]] = op[2]
        ctx.outcome(op[0])

    def observe(self, ctx, st):
        models, states = self.build(st)
        for n, op in enumerate(st["hist"]):
            last = n == len(st["hist"]) - 1
            if op[0] == "sample":
                states.append(models[op[1]].sample_parameters(num_samples=op[2]))
            elif op[0] == "set":
                models[op[1]].set(amplitude=op[2])
                if last:
                    ctx.eq(float(models[op[1]].get("amplitude")), op[2], "value read back after setting it")
            elif op[0] == "bad":
                if last:
                    ctx.raises(Exception, lambda: models[op[1]].set(nonsense=1.0), "setting a parameter that the source does not have")
                else:
                    try:
                        models[op[1]].set(nonsense=1.0)
                    except Exception:
                        pass
            elif op[0] == "eval":
                who, vals = st["states"][op[1]]
                t0, z = (5.0, 0.5) if who == "a" else (-5.0, 0.0)
                ts = dict(orders([t0 + r for r in (-40.0, -14.0, -3.0, 0.0, 11.0, 19.5)]))[op[2]]
                ws = dict(orders([1500.0, 3100.0, 4500.0, 6500.0, 9000.0]))[op[2]]
                got = models[who].evaluate_sed(np.array(ts), np.array(ws), states[op[1]])
                want = [[[sn_flux(v, z, t0, t, w) for w in ws] for t in ts] for v in vals]
                close(ctx, got, want[0] if len(vals) == 1 else want, f"flux of state {op[1]} of model {who}", 1e-9)

    def canon(self, st):
        return (self.kind, st["amp"], st["pos"], st["states"], st["hist"])


def sec_sncosmo(ctx):
    for kind in ("list", "constant", "default", "zero"):
        bfs(ctx, kind, Wrapped(kind), ctx.pick(3, 4))
    bfs(ctx, "late", Wrapped("late"), ctx.pick(4, 5))


# ---------------------------------------------------------------------- BayeSN
L_KNOTS = [2500.0, 4000.0, 5500.0, 7000.0, 9000.0]
TAU_KNOTS = [-12.0, -2.0, 8.0, 25.0]
H_PH = [-15.0, -5.0, 5.0, 15.0, 30.0]
H_WV = [2000.0, 3000.0, 4500.0, 6000.0, 8000.0, 10000.0]


def bayes_dir():
    import h5py

    d = scratch("bayes")
    if not (d / "done").exists():
        w0 = np.array([[0.1 * ((3 * i + 5 * j) % 7) - 0.2 for j in range(4)] for i in range(5)])
        w1 = np.array([[0.1 * ((4 * i + 3 * j) % 5) - 0.1 for j in range(4)] for i in range(5)])
        np.savetxt(d / "W0.txt", w0)
        np.savetxt(d / "W1.txt", w1)
        np.savetxt(d / "l_knots.txt", L_KNOTS)
        np.savetxt(d / "tau_knots.txt", TAU_KNOTS)
        with h5py.File(d / "hsiao.h5", "w") as f:
            g = f.create_group("default")
            g["phase"], g["wave"] = np.array(H_PH), np.array(H_WV)
            g["flux"] = np.array([[3.0 + ((5 * i + 7 * j) % 6) for j in range(6)] for i in range(5)])
        (d / "done").write_text("")
    return d


def natural(x, y, q):
    """Natural cubic spline by solving for the second derivatives (written out, no library)."""
    n = len(x)
    h = [x[i + 1] - x[i] for i in range(n - 1)]
    m = [0.0] * n
    c, r = [0.0] * n, [0.0] * n
    for i in range(1, n - 1):
        rhs = 6 * ((y[i + 1] - y[i]) / h[i] - (y[i] - y[i - 1]) / h[i - 1])
        den = 2 * (h[i - 1] + h[i]) - h[i - 1] * c[i - 1]
        c[i] = h[i] / den
        r[i] = (rhs - h[i - 1] * r[i - 1]) / den
    for i in range(n - 2, 0, -1):
        m[i] = r[i] - c[i] * m[i + 1]
    i = max(k for k in range(n - 1) if x[k] <= q or k == 0)
    a, b = (x[i + 1] - q) / h[i], (q - x[i]) / h[i]
    return a * y[i] + b * y[i + 1] + ((a**3 - a) * m[i] + (b**3 - b) * m[i + 1]) * h[i] ** 2 / 6


def natural2(x, y, z, p, q):
    return natural(y, [natural(x, [row[j] for row in z], p) for j in range(len(y))], q)


def bayes(p, t, w):
    from astropy import units as u
    from dust_extinction.parameter_averages import F99

    z = p["redshift"]
    ph, wr = (t - p["t0"]) / (1 + z), w / (1 + z)
    w0 = [[0.1 * ((3 * i + 5 * j) % 7) - 0.2 for j in range(4)] for i in range(5)]
    w1 = [[0.1 * ((4 * i + 3 * j) % 5) - 0.1 for j in range(4)] for i in range(5)]
    ww = [[a + p["theta"] * b for a, b in zip(ra, rb)] for ra, rb in zip(w0, w1)]
    warp = natural2(L_KNOTS, TAU_KNOTS, ww, wr, ph)
    base = natural2(H_PH, H_WV, [[3.0 + ((5 * i + 7 * j) % 6) for j in range(6)] for i in range(5)], ph, wr)
    ext = float(F99(Rv=p["Rv"]).extinguish(wr * u.AA, Av=p["Av"]))
    return base * 10 ** (-0.4 * warp) * ext * p["Amplitude"] * wr**2 / AA_C * FNU * (1 + z)


BSAMPLES = {
    "theta": [0.0, 1.0, -1.5],
    "Av": [0.0, 1.0, 0.3],
    "Rv": [3.1, 2.5, 4.0],
    "Amplitude": [1.0, 1e-14, 2.5],
    "redshift": [0.0, 0.25, 0.1],
    "t0": [0.0, 4.0, -3.0],
}


def sec_bayesn(ctx):
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.models.bayesn import BayesnModel

    d = bayes_dir()

    def go(ids, torder, worder):
        ctx.step()
        ps = {k: [v[i] for i in ids] for k, v in BSAMPLES.items()}
        args = {k: (GivenValueList(v) if len(ids) > 1 else v[0]) for k, v in ps.items()}
        m = BayesnModel(_M20_model_path=d, hsiao_model_path=d / "hsiao.h5", node_label="m", **args)
        st = m.sample_parameters(num_samples=len(ids))
        ts = dict(orders([-6.0, -2.0, 0.0, 5.0, 8.0, 9.5, 15.5, 20.0]))[torder]
        ws = dict(orders([3200.0, 4000.0, 4500.0, 5000.0, 6100.0, 8000.0]))[worder]
        want = [[[bayes({a: b[k] for a, b in ps.items()}, t, w) for w in ws] for t in ts] for k in range(len(ids))]
        got = m.evaluate_sed(np.array(ts), np.array(ws), st)
        for k in range(len(ids)):
            close(ctx, np.asarray(got) if len(ids) == 1 else got[k], want[k], f"sample {ids[k]} of {ids}, {torder} times, {worder} wavelengths", 1e-9)
        for k, one in enumerate(st if len(ids) > 1 else [st]):
            z, t0 = ps["redshift"][k], ps["t0"][k]
            grid = np.array([t0 + x * (1 + z) + e for x in (50.0, -20.0) for e in (-0.01, 0.01)])
            ctx.eq([bool(b) for b in m.mask_by_time(grid, one)], [True, False, False, True], f"times of interest of sample {ids[k]}")
        ctx.raises(ValueError, lambda: m.mask_by_time(grid), "times of interest without a state")
        ctx.state((ids, torder, worder))
        ctx.outcome(f"{len(ids)} samples")

    for n in (1, 2, 3):
        for ids in itertools.permutations(range(3), n):
            for torder, worder in itertools.product(("sorted", "reversed", "mixed", "single"), repeat=2):
                if n < 3 or torder == worder or ctx.tier == "thorough":
                    ctx.case([ids, torder, worder], go, ids, torder, worder)

    def one(theta, av, rv):
        ctx.step()
        p = {"theta": theta, "Av": av, "Rv": rv, "Amplitude": 1.0, "redshift": 0.0, "t0": 0.0}
        m = BayesnModel(_M20_model_path=d, hsiao_model_path=d / "hsiao.h5", node_label="m", **p)
        ts, ws = [-12.0, -5.0, 3.0, 5.0, 25.0], [2500.0, 3000.0, 7500.0, 9000.0]
        close(ctx, m.evaluate_sed(np.array(ts), np.array(ws)), [[bayes(p, t, w) for w in ws] for t in ts], f"{p}", 1e-9)
        ctx.state(("one", theta, av, rv))

    for theta, av, rv in itertools.product((-2.0, 0.0, 0.5), (0.0, 0.5, 2.0), (2.0, 3.1, 5.5)):
        ctx.case(["one", theta, av, rv], one, theta, av, rv)


SECTIONS = [
    ("bicubic", sec_bicubic, (4, 8)),
    ("colorlaw", sec_colorlaw, (1, 1)),
    ("salt", sec_salt, (4, 8)),
    ("sncosmo", sec_sncosmo, (4, 8)),
    ("bayesn", sec_bayesn, (4, 8)),
    ("memory", memory.sec_models(memory.supernovae), 8),
]
