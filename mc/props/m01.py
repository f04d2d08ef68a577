"""M01: SEDs are the model at rest-frame times and wavelengths, with effects, redshift and extrapolation in their order."""

import itertools

import numpy as np

from mc.core import Machine, bfs
from mc import memory

ID = "M01"
RULE = (
    "every combination of redshift, reference time, redshift toggle, wavelength bounds, extrapolation rule, query grid and "
    "sequence of up to three non-commuting rest- and observer-frame effects, for one and many samples and every order of "
    "the queries, against the documented order of operations in scalar Python; breadth-first search over histories of "
    "adding effects, toggling redshift and evaluating on two models that share effects; a state is one configuration"
)
ASSUMPTIONS = ["the model's flux formula depends on time and wavelength jointly, so a misplaced value is visible"]

TIMES = [0.0, 3.0, 10.0]
WAVES = [1000.0, 1500.0, 2000.0, 2500.0, 3000.0, 4000.0]


def flux(amp, t, w):
    return amp * (1.0 + 0.1 * t + 0.01 * t * t) * (2.0 + w / 1000.0) + t * w / 1e4


def make_classes():
    from lightcurvelynx.effects.effect_model import EffectModel
    from lightcurvelynx.models.physical_model import SEDModel

    class Probe(SEDModel):
        def __init__(self, amp, lo=None, hi=None, **kw):
            super().__init__(**kw)
            self.add_parameter("amp", amp)
            self.add_parameter("lo", lo)
            self.add_parameter("hi", hi)
            self.queries = []

        def minwave(self, graph_state=None):
            return self.get_param(graph_state, "lo")

        def maxwave(self, graph_state=None):
            return self.get_param(graph_state, "hi")

        def compute_sed(self, times, wavelengths, graph_state, **kwargs):
            p = self.get_local_params(graph_state)
            self.queries.append((np.array(times), np.array(wavelengths)))
            return np.array([[flux(p["amp"], t, w) for w in wavelengths] for t in times]).reshape(len(times), len(wavelengths))

    class Add(EffectModel):
        """Adds c * (t + w / 500) + amp, where amp is the model's parameter."""

        def __init__(self, name, c, **kw):
            super().__init__(**kw)
            self.name = name
            self.add_effect_parameter(name, c)

        def apply(self, flux_density, times=None, wavelengths=None, rng_info=None, **kw):
            c, amp = kw[self.name], kw["amp"]
            return flux_density + c * (times[:, None] + wavelengths[None, :] / 500.0) + amp

    class Mul(EffectModel):
        def __init__(self, name, c, **kw):
            super().__init__(**kw)
            self.name = name
            self.add_effect_parameter(name, c)

        def apply(self, flux_density, times=None, wavelengths=None, rng_info=None, **kw):
            return flux_density * (kw[self.name] + times[:, None] / 100.0) * (wavelengths[None, :] / 1000.0)

    return Probe, Add, Mul


EFFECTS = {
    "radd": ("add", True, 0.7),
    "rmul": ("mul", True, 1.3),
    "oadd": ("add", False, 0.9),
    "omul": ("mul", False, 1.9),
    "rmul2": ("mul", True, 0.4),
}


def make_effect(name, c=None):
    _, Add, Mul = make_classes()
    kind, rest, dflt = EFFECTS[name]
    return (Add if kind == "add" else Mul)(name, dflt if c is None else c, rest_frame=rest)


def ref_effect(name, c, amp, f, t, w):
    if EFFECTS[name][0] == "add":
        return f + c * (t + w / 500.0) + amp
    return f * (c + t / 100.0) * (w / 1000.0)


def extrap(rule, last_wave, last_flux, w):
    import math

    if rule is None:
        return 0.0
    kind, v = rule
    d = abs(w - last_wave)
    if kind == "zero":
        return 0.0
    if kind == "const":
        return v
    if kind == "last":
        return last_flux
    if kind == "lin":
        return last_flux * min(1.0, max(0.0, 1.0 - d / v))
    return last_flux * math.exp(-v * d)


def make_extrap(rule):
    from lightcurvelynx.utils import wave_extrapolate as we

    if rule is None:
        return None
    kind, v = rule
    if kind == "zero":
        return we.WaveExtrapolationModel()
    if kind == "const":
        return we.ConstantExtrapolation(v)
    if kind == "last":
        return we.LastValueExtrapolation()
    if kind == "lin":
        return we.LinearDecay(v)
    return we.ExponentialDecay(v)


def reference(p, apply_z, rule, effects, times, waves):
    """p: dict amp, lo, hi, z, t0; effects: list of (name, c) in the order of addition."""
    zed = p["z"] if apply_z and p["z"] else 0.0
    out = np.zeros((len(times), len(waves)))
    for i, t in enumerate(times):
        for j, w in enumerate(waves):
            rt, rw = t, w
            if zed:
                rt = (t - p["t0"]) / (1 + zed) + p["t0"]
                rw = w / (1 + zed)
            if p["lo"] is not None and rw < p["lo"]:
                f = extrap(rule, p["lo"], flux(p["amp"], rt, p["lo"]), rw)
            elif p["hi"] is not None and rw > p["hi"]:
                f = extrap(rule, p["hi"], flux(p["amp"], rt, p["hi"]), rw)
            else:
                f = flux(p["amp"], rt, rw)
            for name, c in effects:
                if EFFECTS[name][1]:
                    f = ref_effect(name, c, p["amp"], f, rt, rw)
            f *= 1 + zed
            for name, c in effects:
                if not EFFECTS[name][1]:
                    f = ref_effect(name, c, p["amp"], f, t, w)
            out[i, j] = f
    return out


def build(p, rule=None, toggle=None, label="m"):
    Probe, _, _ = make_classes()
    kw = {}
    for k in ("z", "t0"):
        if p[k] is not None:
            kw[{"z": "redshift", "t0": "t0"}[k]] = p[k]
    m = Probe(p["amp"], p["lo"], p["hi"], wave_extrapolation=make_extrap(rule), node_label=label, **kw)
    if toggle is not None:
        m.set_apply_redshift(toggle)
    return m


def evaluate(m, times, waves, state, **kw):
    t, w = np.array(times), np.array(waves)
    t.setflags(write=False)
    w.setflags(write=False)
    return m.evaluate_sed(t, w, graph_state=state, **kw)


# ---------------------------------------------------------------------- single evaluation
BOUNDS = [(None, None), (1500.0, 2500.0), (1500.0, None), (None, 2500.0), (1500.37, 2499.71), (1200.0, 1200.0), (3500.0, 5000.0)]
RULES = [None, ("zero", 0), ("const", 0.0), ("const", 3.5), ("last", 0), ("lin", 400.0), ("lin", 5000.0), ("exp", 0.0), ("exp", 1e-3)]


def sec_eval(ctx):
    zs = ctx.pick([None, 0.0, 0.5, 1.0, -0.2], [None, 0.0, 1e-3, 0.5, 1.0, 7.0, -0.2, -1e-3])
    t0s = ctx.pick([0.0, 4.0], [0.0, 4.0, -100.0, 60000.0])
    wave_sets = ctx.pick(
        [WAVES, [1500.0], [2500.0], [1000.0], [4000.0, 1500.0, 2600.0], [1500.0, 1500.0], [1000.0, 4000.0]],
        [list(s) for r in (1, 2, 3) for s in itertools.permutations(WAVES, r)] + [WAVES, [1500.0, 1500.0]],
    )
    for z, t0, toggle, bounds, rule in itertools.product(zs, t0s, (None, False, True), BOUNDS, RULES):
        if toggle and z is None:
            continue
        if bounds == (None, None) and rule is not None:
            continue

        def go(z=z, t0=t0, toggle=toggle, bounds=bounds, rule=rule):
            p = {"amp": 2.0, "lo": bounds[0], "hi": bounds[1], "z": z, "t0": t0}
            m = build(p, rule, toggle)
            apply_z = z is not None if toggle is None else toggle
            state = m.sample_parameters()
            for ws in wave_sets:
                for ts in (TIMES, [10.0], [3.0, 0.0, 3.0], []):
                    m.queries.clear()
                    got = evaluate(m, ts, ws, state)
                    want = reference(p, apply_z, rule, [], ts, ws)
                    ctx.step()
                    ctx.eq(got, want, f"z={z} t0={t0} toggle={toggle} bounds={bounds} rule={rule} times={ts} waves={ws}")
                    if None not in bounds:
                        for _, q in m.queries:
                            inside = all(bounds[0] - 1e-9 <= x <= bounds[1] + 1e-9 for x in q)
                            ctx.check(inside, f"bounds={bounds} waves={ws}: the model was queried at {q.tolist()}")
            # the same queries given as lists
            ctx.eq(m.evaluate_sed(list(TIMES), list(WAVES), state), reference(p, apply_z, rule, [], TIMES, WAVES), "lists")
            ctx.eq(m.evaluate_sed([0, 3, 10], [1000, 2000, 4000], state), reference(p, apply_z, rule, [], [0, 3, 10], [1000, 2000, 4000]), "integers")
            ctx.state((z, t0, toggle, bounds, rule))
            ctx.outcome(f"z={bool(z) and apply_z} extrapolated={rule is not None}")

        ctx.case([z, t0, toggle, list(bounds), list(rule) if rule else None], go)


# ---------------------------------------------------------------------- effect sequences
def sec_effects(ctx):
    depth = ctx.pick(3, 4)
    for z, toggle, bounds in itertools.product((None, 0.0, 0.5), (None, False), ((None, None), (1500.0, 2500.0))):
        for n in range(depth + 1):
            for seq in itertools.permutations(EFFECTS, n):

                def go(z=z, toggle=toggle, bounds=bounds, seq=seq):
                    p = {"amp": 2.0, "lo": bounds[0], "hi": bounds[1], "z": z, "t0": 4.0}
                    rule = ("last", 0)
                    m = build(p, rule, toggle)
                    effs = [make_effect(e) for e in seq]
                    for e in effs:
                        m.add_effect(e)
                    apply_z = z is not None if toggle is None else toggle
                    applied = [(e, EFFECTS[e][2]) for e in seq]
                    want = reference(p, apply_z, rule, applied, TIMES, WAVES)
                    state = m.sample_parameters()
                    for _ in range(2):
                        ctx.eq(evaluate(m, TIMES, WAVES, state), want, f"z={z} toggle={toggle} effects={seq}")
                    ctx.step(2)
                    # every wavelength and every time asked for on its own
                    for j, w in enumerate(WAVES):
                        ctx.eq(evaluate(m, TIMES, [w], state), want[:, j : j + 1], f"z={z} effects={seq}: wavelength {w} alone")
                    for i, t in enumerate(TIMES):
                        ctx.eq(evaluate(m, [t], WAVES, state), want[i : i + 1], f"z={z} effects={seq}: time {t} alone")
                    ctx.step(len(WAVES) + len(TIMES))
                    order = [e for e in effs if e.rest_frame] + [e for e in effs if not e.rest_frame]
                    ctx.check([id(e) for e in m.list_effects()] == [id(e) for e in order], "list_effects is the order of application")
                    # evaluating without a state samples one
                    ctx.eq(evaluate(m, TIMES, WAVES, None), want, "no state given")
                    # ... with any of the values given by the caller
                    new = {**p, "amp": 3.5, "t0": 2.0}
                    want = reference(new, apply_z, rule, applied, TIMES, WAVES)
                    given = {"m": {"amp": 3.5, "t0": 2.0}}
                    ctx.eq(evaluate(m, TIMES, WAVES, None, given_args=given), want, f"no state given, values {given}")
                    ctx.state((z, toggle, bounds, seq))
                    ctx.outcome(f"n={len(seq)}")

                ctx.case([z, toggle, list(bounds), list(seq)], go)


def sec_named_alike(ctx):
    """Effects whose parameter the model (or an earlier effect) already has use that one and do not replace it."""
    _, Add, Mul = make_classes()
    for z, rest, kinds in itertools.product((None, 0.5), (False, True), itertools.product("am", repeat=2)):
        for name in ("amp", "c1"):

            def go(z=z, rest=rest, kinds=kinds, name=name):
                p = {"amp": 2.0, "lo": None, "hi": None, "z": z, "t0": 4.0}
                m = build(p)
                for k, val in zip(kinds, (0.7, 1.9)):
                    m.add_effect((Add if k == "a" else Mul)(name, val, rest_frame=rest))
                c = 2.0 if name == "amp" else 0.7
                state = m.sample_parameters()
                ctx.eq(m.get_param(state, "amp"), 2.0, "the model's own parameter")
                got = evaluate(m, TIMES, WAVES, state)
                zed = z or 0.0
                want = np.zeros((len(TIMES), len(WAVES)))
                for i, t in enumerate(TIMES):
                    for j, w in enumerate(WAVES):
                        rt, rw = ((t - 4.0) / (1 + zed) + 4.0, w / (1 + zed)) if zed else (t, w)
                        f = flux(2.0, rt, rw)
                        for frame in (True, False):
                            et, ew = (rt, rw) if rest else (t, w)
                            if frame == rest:
                                for k in kinds:
                                    f = f + c * (et + ew / 500.0) + 2.0 if k == "a" else f * (c + et / 100.0) * (ew / 1000.0)
                            if frame:
                                f *= 1 + zed
                        want[i, j] = f
                ctx.step()
                ctx.state((z, rest, kinds, name))
                ctx.eq(got, want, f"z={z} rest={rest} effects={kinds} sharing {name}")
                ctx.outcome(name)

            ctx.case([z, rest, list(kinds), name], go)


def sec_kept(ctx):
    """A model that hands out an array it keeps: redshift, effects and extrapolation leave that array as it was."""
    from lightcurvelynx.effects.basic_effects import ConstantDimming
    from lightcurvelynx.effects.extinction import ExtinctionEffect
    from lightcurvelynx.effects.white_noise import WhiteNoise
    from lightcurvelynx.models.physical_model import SEDModel

    class Table(SEDModel):
        def __init__(self, table, **kw):
            super().__init__(**kw)
            self.table = table

        def compute_sed(self, times, wavelengths, graph_state, **kw):
            return self.table

    makers = {
        "dim": lambda rest: ConstantDimming(0.25, rest_frame=rest),
        "dust": lambda rest: ExtinctionEffect("CCM89", ebv=0.3, Rv=3.1, frame="rest" if rest else "observer"),
        "noise": lambda rest: WhiteNoise(2.0, rest_frame=rest),
        "add": lambda rest: make_effect("radd" if rest else "oadd"),
    }
    times, waves = np.array([0.0, 1.0, 5.0]), np.array([4000.0, 6000.0])

    def go(z, names, rest, dtype, keep):
        table = (np.arange(6).reshape(3, 2) + 10).astype(dtype)
        before = table.copy()
        table.setflags(write=not keep)
        m = Table(table, redshift=z, t0=1.0, node_label="m")
        m.add_parameter("amp", 2.0)
        for x in names:
            m.add_effect(makers[x](rest))
        state = m.sample_parameters()
        outs = [m.evaluate_sed(times, waves, state, rng_info=np.random.default_rng(3)) for _ in range(2)]
        ctx.eq(outs[0], outs[1], f"z={z} effects={names} {dtype}: second evaluation")
        m2 = Table(before.astype(float), redshift=z, t0=1.0, node_label="m")
        m2.add_parameter("amp", 2.0)
        for x in names:
            m2.add_effect(makers[x](rest))
        ctx.eq(outs[1], m2.evaluate_sed(times, waves, m2.sample_parameters(), rng_info=np.random.default_rng(3)), f"z={z} effects={names} {dtype}: as from a fresh model")
        if not names:
            ctx.eq(outs[0], before * (1.0 + (z or 0.0)), f"z={z}: flux")
        ctx.check(np.array_equal(table, before), f"z={z} effects={names} rest={rest}: the model's own array was changed")
        ctx.step(2)
        ctx.state((z, names, rest, dtype, keep))
        ctx.outcome("kept")

    for z, r, rest, dtype, keep in itertools.product((None, 0.0, 0.5), (0, 1, 2), (False, True), ("float64", "float32", "int64"), (False, True)):
        for names in itertools.permutations(makers, r):
            ctx.case([z, list(names), rest, dtype, keep], go, z, names, rest, dtype, keep)


# ---------------------------------------------------------------------- many samples
def sec_batch(ctx):
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    vals = {
        "amp": [2.0, 5.0, 0.5],
        "z": [0.5, 0.0, 1.0],
        "t0": [4.0, 7.0, -3.0],
        "lo": [1500.0, 900.0, 2000.0],
        "hi": [2500.0, 1800.0, 4500.0],
    }
    orders = list(itertools.permutations(range(3)))
    varied = [s for r in range(len(vals) + 1) for s in itertools.combinations(vals, r)]
    seqs = [(), ("radd", "omul"), ("omul", "radd", "rmul"), ("oadd", "rmul2")]
    for n, vary, seq in itertools.product((1, 2, 3), varied, seqs):

        def go(n=n, vary=vary, seq=seq):
            rows = [{k: v[i if k in vary else 0] for k, v in vals.items()} for i in range(n)]
            p = {k: (GivenValueList(v[:n]) if k in vary and n > 1 else v[0]) for k, v in vals.items()}
            rule = ("exp", 1e-3)
            m = build(p, rule)
            cs = {}
            for k, e in enumerate(seq):
                cs[e] = [EFFECTS[e][2] + 0.3 * i for i in range(n)] if k == 0 else [EFFECTS[e][2]] * n
                m.add_effect(make_effect(e, GivenValueList(cs[e]) if k == 0 and n > 1 else cs[e][0]))
            state = m.sample_parameters(num_samples=n)
            want = [reference(r, True, rule, [(e, cs[e][i]) for e in seq], TIMES, WAVES) for i, r in enumerate(rows)]
            got = evaluate(m, TIMES, WAVES, state)
            ctx.step()
            ctx.eq(got, want[0] if n == 1 else np.array(want), f"n={n} vary={vary} effects={seq}")
            for i in range(n):
                ctx.eq(evaluate(m, TIMES, WAVES, state.extract_single_sample(i)), want[i], f"sample {i} alone")
                ctx.step()
            ctx.eq(np.shape(evaluate(m, [], WAVES, state)), (0, len(WAVES)) if n == 1 else (n, 0, len(WAVES)), f"no times, n={n}")
            for o in orders:
                got = evaluate(m, [TIMES[k] for k in o], WAVES, state)
                ctx.eq(got, (want[0] if n == 1 else np.array(want))[..., list(o), :], f"times in order {o}")
                wo = list(o) + [5, 4, 3]
                got = evaluate(m, TIMES, [WAVES[k] for k in wo], state)
                ctx.eq(got, (want[0] if n == 1 else np.array(want))[..., wo], f"wavelengths in order {wo}")
                ctx.step(2)
            ctx.state((n, vary, seq))
            ctx.outcome(f"n={n} vary={len(vary)}")

        ctx.case([n, list(vary), list(seq)], go)


# ---------------------------------------------------------------------- refusals
def sec_refuse(ctx):
    for z, t0, toggle in itertools.product((None, 0.0, 0.5), (None, 4.0), (None, True, False)):

        def go(z=z, t0=t0, toggle=toggle):
            p = {"amp": 2.0, "lo": None, "hi": None, "z": z, "t0": t0}
            m = build(p, None, toggle)
            state = m.sample_parameters()
            apply_z = z is not None if toggle is None else toggle
            needs = apply_z and (z is None or z != 0.0)
            if needs and (z is None or t0 is None):
                ctx.raises(ValueError, lambda: evaluate(m, TIMES, WAVES, state), f"z={z} t0={t0} toggle={toggle}")
                ctx.outcome("refused")
            else:
                ctx.eq(evaluate(m, TIMES, WAVES, state), reference(p, apply_z, None, [], TIMES, WAVES), f"z={z} t0={t0} toggle={toggle}")
                ctx.outcome("accepted")
            ctx.state((z, t0, toggle))

        ctx.case([z, t0, toggle], go)

    def bad_rules():
        from lightcurvelynx.utils import wave_extrapolate as we

        ctx.raises(ValueError, lambda: we.ConstantExtrapolation(-1.0), "negative constant")
        ctx.raises(ValueError, lambda: we.LinearDecay(0.0), "zero decay width")
        ctx.raises(ValueError, lambda: we.LinearDecay(-1.0), "negative decay width")
        ctx.raises(ValueError, lambda: we.ExponentialDecay(-0.1), "negative decay rate")
        m = build({"amp": 2.0, "lo": None, "hi": None, "z": None, "t0": None})
        ctx.outcome("rules")

    ctx.case(["rules"], bad_rules)


# ---------------------------------------------------------------------- histories
class Model:
    """Two models sharing effect objects; reference: per model (toggle, effects)."""


class History(Machine):
    P = [{"amp": 2.0, "lo": None, "hi": None, "z": 0.5, "t0": 4.0}, {"amp": 3.0, "lo": 1500.0, "hi": 2500.0, "z": 1.0, "t0": 1.0}]

    def __init__(self, depth):
        self.depth = depth

    def start(self, ctx):
        st = Model()
        st.models = [build(p, ("lin", 900.0), label=f"m{i}") for i, p in enumerate(self.P)]
        st.effects = {e: make_effect(e) for e in ("radd", "omul", "rmul")}
        st.ref = [[True, []], [True, []]]
        return st

    def ops(self, st):
        out = []
        for i in range(2):
            out.append(["toggle", i])
            out += [["add", i, e] for e in st.effects if e not in st.ref[i][1]]
        out += [["eval", 0], ["eval", 1], ["rename"]]
        return out

    def step(self, ctx, st, op):
        if op[0] == "toggle":
            st.ref[op[1]][0] = not st.ref[op[1]][0]
            st.models[op[1]].set_apply_redshift(st.ref[op[1]][0])
        elif op[0] == "add":
            st.ref[op[1]][1].append(op[2])
            st.models[op[1]].add_effect(st.effects[op[2]])
        elif op[0] == "eval":
            evaluate(st.models[op[1]], [5.0], [1000.0, 5000.0], None)
        else:
            for m in st.models:
                m.set_graph_positions()

    def observe(self, ctx, st):
        for i, m in enumerate(st.models):
            z, effs = st.ref[i]
            want = reference(self.P[i], z, ("lin", 900.0), [(e, EFFECTS[e][2]) for e in effs], TIMES, WAVES)
            ctx.eq(evaluate(m, TIMES, WAVES, m.sample_parameters()), want, f"model {i} after the history")

    def canon(self, st):
        return [(z, tuple(e)) for z, e in st.ref] + [[(m.apply_redshift, [str(e) for e in m.list_effects()], sorted(m.setters)) for m in st.models]]


def sec_history(ctx):
    bfs(ctx, "history", History(0), ctx.pick(4, 5))


SECTIONS = [
    ("eval", sec_eval, (6, 8)),
    ("effects", sec_effects, (2, 4)),
    ("kept", sec_kept),
    ("named_alike", sec_named_alike),
    ("batch", sec_batch, (2, 4)),
    ("refuse", sec_refuse),
    ("history", sec_history, (4, 8)),
    ("memory", memory.sec_models(memory.physical_models), 4),
]
