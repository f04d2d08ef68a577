"""M03: combined models are the weighted sum, or the selected one, of their objects, each with its own frame and effects."""

import itertools
import math

import numpy as np

from mc.core import Machine, bfs
from mc.props.m01 import build
from mc.props.m01 import flux as sed_flux
from mc.props.m02 import bands, bandflux_classes, bflux, code, full, pb_group
from mc import memory

ID = "M03"
RULE = (
    "every tree of additive and random models of bounded size over SED and bandflux leaves, times every way of attaching "
    "effects to its nodes, weights, samples and redshifts, against recursive evaluation in plain Python; histories of adding effects "
    "and toggling redshift; a state is one tree with its effects"
)
ASSUMPTIONS = ["leaf models and effects have formulas that make every swap or omission visible"]

TIMES = [0.0, 3.0, 10.0]
WAVES = [1000.0, 1500.0, 2600.0]
OBS = [(10.0, "S_g"), (0.0, "z"), (3.0, "T_g"), (3.0, "r")]

LEAVES = {
    "a": {"kind": "sed", "amp": [2.0, 3.0], "z": None, "t0": [4.0, 4.0], "lo": None, "hi": None},
    "b": {"kind": "sed", "amp": [5.0, 7.0], "z": [0.5, 1.0], "t0": [1.0, -2.0], "lo": 800.0, "hi": 1200.0},
    "c": {"kind": "sed", "amp": [11.0, 13.0], "z": [2.0, 0.0], "t0": [0.0, 5.0], "lo": None, "hi": None},
    "x": {"kind": "band", "amp": [17.0, 19.0]},
    "y": {"kind": "band", "amp": [23.0, 29.0]},
}
RULE_X = ("last", 0)


def effect_class():
    from lightcurvelynx.effects.effect_model import EffectModel

    class Both(EffectModel):
        """mul: f * (c + t / 100) ; add: f + c * (t + 1) (times wavelength or filter code)."""

        def __init__(self, name, c, op, **kw):
            super().__init__(**kw)
            self.name, self.op = name, op
            self.add_effect_parameter(name, c)

        def apply(self, flux_density, times=None, wavelengths=None, rng_info=None, **kw):
            t, w = times[:, None], wavelengths[None, :] / 1000.0
            return flux_density * (kw[self.name] + t / 100.0) * w if self.op == "mul" else flux_density + kw[self.name] * (t + 1.0) * w

        def apply_bandflux(self, bandfluxes, *, times=None, filters=None, rng_info=None, **kw):
            w = np.array([code(f) for f in filters], dtype=float)
            return bandfluxes * (kw[self.name] + times / 100.0) * w if self.op == "mul" else bandfluxes + kw[self.name] * (times + 1.0) * w

    return Both


EFF = {"e_rm": ("mul", True, 0.7), "e_ra": ("add", True, 1.7), "e_om": ("mul", False, 1.3), "e_oa": ("add", False, 0.3)}


def apply_ref(name, f, t, w):
    op, _, c = EFF[name]
    return f * (c + t / 100.0) * w if op == "mul" else f + c * (t + 1.0) * w


class Tree:
    """spec: leaf name, or [kind, [children], weights or None]; kind is "sum" or "rand"."""

    def __init__(self, spec, n=1, path="r", select=None):
        self.spec, self.path, self.n = spec, path, n
        self.rest, self.obs = [], []
        self.toggle = None
        if isinstance(spec, str):
            self.kids = []
            self.model = self._leaf(spec, n)
            return
        kind, children, weights = spec
        self.kids = [Tree(c, n, f"{path}{i}") for i, c in enumerate(children)]
        from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

        objs = [k.model for k in self.kids]
        cls = AdditiveMultiObjectModel if kind == "sum" else RandomMultiObjectModel
        self.weights = weights or [1.0] * len(objs)
        self.model = cls(objs, weights=weights, node_label=f"{kind}_{path}")

    def _leaf(self, name, n):
        from lightcurvelynx.math_nodes.given_sampler import GivenValueList

        p = LEAVES[name]

        def v(key):
            if not isinstance(p[key], list):
                return p[key]
            return GivenValueList(p[key][:n] * 8) if n > 1 else p[key][0]

        if p["kind"] == "band":
            Bands, _, _ = bandflux_classes()
            return Bands(v("amp"), node_label=f"{name}_{self.path}")
        return build({k: v(k) for k in ("amp", "z", "t0", "lo", "hi")}, RULE_X, label=f"{name}_{self.path}")

    def nodes(self):
        out = [self]
        for k in self.kids:
            out += k.nodes()
        return out

    def leaves(self):
        return [x for x in self.nodes() if not x.kids]

    def add_effect(self, name, effect):
        self.model.add_effect(effect)
        self._ref_add(name)

    def _ref_add(self, name):
        if not self.kids:
            (self.rest if EFF[name][1] else self.obs).append(name)
        elif EFF[name][1]:
            for k in self.kids:
                k._ref_add(name)
        else:
            self.obs.append(name)
        self.order = getattr(self, "order", []) + [name]

    def any_band(self):
        return any(LEAVES[x.spec]["kind"] == "band" for x in self.leaves())

    def refuses_sed(self, state, i):
        """Does evaluating the SED reach a model with a bandflux object?"""
        if any(not k.kids and LEAVES[k.spec]["kind"] == "band" for k in self.kids):
            return True
        kids = self.kids if not self.kids or self.spec[0] == "sum" else [self.chosen(state, i)]
        return any(k.refuses_sed(state, i) for k in kids)

    # ------------------------------------------------------------ reference
    def chosen(self, state, i):
        name = state[self.model.node_string]["selected_object"]
        name = name if self.n == 1 else name[i]
        hits = [k for k in self.kids if k.model.node_string == str(name)]
        assert len(hits) == 1, (name, [k.model.node_string for k in self.kids])
        return hits[0]

    def zed(self, i):
        z = LEAVES[self.spec]["z"]
        on = z is not None if self.toggle is None else self.toggle
        return z[i] if on and z is not None else 0.0

    def sed(self, state, i, t, w):
        if self.kids:
            if self.spec[0] == "sum":
                f = sum(wt * k.sed(state, i, t, w) for wt, k in zip(self.weights, self.kids))
            else:
                f = self.chosen(state, i).sed(state, i, t, w)
        else:
            p, z = LEAVES[self.spec], self.zed(i)
            t0 = p["t0"][i]
            rt, rw = ((t - t0) / (1 + z) + t0, w / (1 + z)) if z else (t, w)
            q = rw
            if p["lo"] is not None:
                q = min(max(rw, p["lo"]), p["hi"])
            f = sed_flux(p["amp"][i], rt, q)
            for e in self.rest:
                f = apply_ref(e, f, rt, rw / 1000.0)
            f *= 1 + z
        for e in self.obs:
            f = apply_ref(e, f, t, w / 1000.0)
        return f

    def band(self, state, i, t, f, pbs):
        if self.kids:
            if self.spec[0] == "sum":
                v = sum(wt * k.band(state, i, t, f, pbs) for wt, k in zip(self.weights, self.kids))
            else:
                v = self.chosen(state, i).band(state, i, t, f, pbs)
            for e in self.obs:
                v = apply_ref(e, v, t, code(f))
            return v
        if LEAVES[self.spec]["kind"] == "band":
            v = bflux(LEAVES[self.spec]["amp"][i], t, f)
            for e in getattr(self, "order", []):
                v = apply_ref(e, v, t, code(f))
            return v
        pb = pbs[full(f)]
        return float(pb.fluxes_to_bandflux(np.array([[self.sed(state, i, t, w) for w in pb.waves]]))[0])


def check_tree(ctx, tree, pbs, group, what, seed=7):
    m = tree.model
    for rep in range(2):
        state = m.sample_parameters(num_samples=tree.n, rng_info=np.random.default_rng(seed + rep))
        n = tree.n
        ts, fs = np.array([o[0] for o in OBS]), [o[1] for o in OBS]
        want = np.array([[tree.band(state, i, t, f, pbs) for t, f in OBS] for i in range(n)])
        ctx.eq(m.evaluate_bandfluxes(group, ts, fs, state), want[0] if n == 1 else want, f"{what}: band fluxes")
        for i in range(n if n > 1 else 0):
            ctx.eq(m.evaluate_bandfluxes(group, ts, fs, state.extract_single_sample(i)), want[i], f"{what}: band fluxes of sample {i}")
        if tree.any_band():
            if any(tree.refuses_sed(state, i) for i in range(n)):
                ctx.raises(TypeError, lambda: m.evaluate_sed(np.array(TIMES), np.array(WAVES), state), f"{what}: SED of a model with bandflux objects")
        else:
            want = np.array([[[tree.sed(state, i, t, w) for w in WAVES] for t in TIMES] for i in range(n)])
            ctx.eq(m.evaluate_sed(np.array(TIMES), np.array(WAVES), state), want[0] if n == 1 else want, f"{what}: SEDs")
        ctx.step(2)
        # Each object alone is unchanged by being part of the whole.
        for k in tree.leaves():
            for i in range(n):
                single = state if n == 1 else state.extract_single_sample(i)
                got = k.model.evaluate_bandfluxes(group, ts, fs, single)
                ctx.eq(got, [k.band(state, i, t, f, pbs) for t, f in OBS], f"{what}: object {k.spec} alone, sample {i}")


def specs(tier):
    flat = []
    names = list(LEAVES)
    for r in (1, 2, 3):
        for c in itertools.permutations(names, r):
            if r == 3 and tier == "quick" and list(c) != sorted(c):
                continue
            for w in (None, [0.5, 2.0, 0.0][:r], [3.0, 1.0, 0.25][:r], [1.5, -0.5, -2.0][:r]):
                if r == 1 and w:
                    w = [2.5 if w[0] != 1.5 else -2.5]
                flat.append(["sum", list(c), w])
            flat.append(["rand", list(c), None])
            if r > 1:
                flat.append(["rand", list(c), [0.0, 1.0, 0.0][:r]])
    nested = []
    for k1, k2, (p, q, s) in itertools.product(("sum", "rand"), ("sum", "rand"), (("a", "b", "c"), ("b", "x", "c"), ("x", "a", "y"), ("b", "c", "a"))):
        nested.append([k1, [[k2, [p, q], None], s], None])
        nested.append([k1, [p, [k2, [q, s], [1.0, 2.0]]], [0.5, 1.5]])
        nested.append([k1, [[k2, [p, q], None], ["sum", [s, p], None]], None])
        nested.append(["sum", [[k1, [p, [k2, [q, s], None]], None]], [2.0]])
    return flat, nested


def run_tree(ctx, spec, plan, n):
    group = pb_group()
    pbs = {pb.full_name: pb for pb in bands()}
    tree = Tree(spec, n)
    Both = effect_class()
    nodes = tree.nodes()
    for idx, e in plan:
        op, rest, c = EFF[e]
        nodes[idx].add_effect(e, Both(e, c, op, rest_frame=rest))
    check_tree(ctx, tree, pbs, group, f"{spec} effects={plan} n={n}")
    ctx.state((spec, plan, n))
    ctx.outcome(f"{spec[0]} effects={len(plan)} bandflux={tree.any_band()}")


def sec_plain(ctx):
    for spec in sum(specs(ctx.tier), []):
        for n in (1, 2):
            ctx.case([spec, [], n], run_tree, ctx, spec, [], n)


def sec_effects(ctx):
    """Up to two (three) effects attached anywhere in the tree, in any order."""
    flat, nested = specs("quick")
    some = [s for s in flat if len(s[1]) == 2 and s[1] in (["a", "b"], ["b", "c"], ["b", "x"], ["x", "y"])] + nested[:: ctx.pick(5, 2)]
    for spec in some:
        count = len(Tree(spec).nodes())
        places = [(i, e) for i in range(count) for e in EFF]
        for k in (1, 2) if ctx.tier == "quick" or count > 5 else (1, 2, 3):
            for plan in itertools.product(places, repeat=k):
                if len(set(plan)) == k and len({e for _, e in plan}) < k and (k > 2 or plan[0][0] > plan[1][0]):
                    continue  # two nodes with effects of one name: one order is enough
                ctx.case([spec, [list(p) for p in plan], 1], run_tree, ctx, spec, plan, 1)


def sec_refuse(ctx):
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

    def go():
        leaf = [Tree("a").model, Tree("b").model, Tree("x").model]
        for w in ([], [1.0], [1.0, 2.0], [1.0] * 4):
            ctx.raises(ValueError, lambda w=w: AdditiveMultiObjectModel(leaf, weights=w), f"weights {w} for three objects")
        for cls in (AdditiveMultiObjectModel, RandomMultiObjectModel):
            ctx.raises(ValueError, lambda cls=cls: cls([leaf[0], "not a model"]), "an object that is no model")
            m = cls([leaf[0], leaf[2]])
            ctx.raises(NotImplementedError, lambda m=m: m.set_apply_redshift(True), "redshift toggle with a bandflux object")
            ctx.raises(TypeError, lambda m=m: m.evaluate_sed(np.array(TIMES), np.array(WAVES), m.sample_parameters()), "SED with a bandflux object")
        ctx.outcome("refused")

    ctx.case(["refuse"], go)

    # Wavelength bounds are those of the objects / the selected object.
    for spec in specs("quick")[0]:
        def bounds(spec=spec):
            if any(LEAVES[x]["kind"] == "band" for x in spec[1]):
                return
            tree = Tree(spec)
            for s in range(3):
                st = tree.model.sample_parameters(rng_info=np.random.default_rng(s))
                lo, hi = tree.model.minwave(graph_state=st), tree.model.maxwave(graph_state=st)
                if spec[0] == "sum":
                    ctx.eq([lo, hi], [[LEAVES[x][k] for x in spec[1]] for k in ("lo", "hi")], f"{spec}: wavelength bounds")
                else:
                    p = LEAVES[tree.chosen(st, 0).spec]
                    ctx.check(lo == p["lo"] and hi == p["hi"], f"{spec}: wavelength bounds {lo, hi} of {p}")
            ctx.outcome("bounds")

        ctx.case(["bounds", spec], bounds)


def sec_select(ctx):
    """Every object of a random model can be selected, in proportion to the weights, for every way of naming them."""
    from lightcurvelynx.models.multi_object_model import RandomMultiObjectModel
    from mc.props.m01 import make_classes

    Probe, _, _ = make_classes()
    for n, labels, names in itertools.product((1, 2, 3), ("none", "each", "same", "mixed"), (None, "given")):
        for pick in range(n):

            def go(n=n, labels=labels, names=names, pick=pick):
                lab = {"none": [None] * 3, "each": ["p", "q", "r"], "same": [None, None, None], "mixed": ["p", None, None]}[labels][:n]
                objs = [Probe(float(10 * (i + 1)), node_label=lab[i], t0=0.0) for i in range(n)]
                given = [f"name{i}" for i in range(n)] if names else None
                w = [0.0] * n
                w[pick] = 2.0
                m = RandomMultiObjectModel(objs, weights=w, object_names=given)
                for s in range(2):
                    for num in (1, 4):
                        st = m.sample_parameters(num_samples=num, rng_info=np.random.default_rng(s))
                        got = m.evaluate_sed(np.array([0.0, 2.0]), np.array([1000.0]), st)
                        one = np.array([[sed_flux(10.0 * (pick + 1), t, 1000.0)] for t in (0.0, 2.0)])
                        ctx.eq(got, one if num == 1 else np.stack([one] * num), f"n={n} labels={labels} names={names}: weight on object {pick}")
                        ctx.step()
                        if given:
                            sel = m.get_param(st, "selected_object")
                            ctx.eq(np.atleast_1d(sel).astype(str).tolist(), [given[pick]] * num, "selected name")
                ctx.state((n, labels, names, pick))
                ctx.outcome(f"select {names}")

            ctx.case([n, labels, names, pick], go)


# ---------------------------------------------------------------------- histories
class History(Machine):
    def __init__(self, spec):
        self.spec = spec

    def start(self, ctx):
        t = Tree(self.spec)
        t.used = []
        return t

    def ops(self, tree):
        out = [["add", i, e] for i in range(len(tree.nodes())) for e in ("e_rm", "e_oa", "e_om") if e not in tree.used]
        if not tree.any_band():
            out += [["toggle", i, v] for i in range(len(tree.nodes())) for v in (False, True)]
        out += [["eval"]]
        return out

    def step(self, ctx, tree, op):
        nodes = tree.nodes()
        if op[0] == "add":
            o, rest, c = EFF[op[2]]
            tree.used.append(op[2])
            nodes[op[1]].add_effect(op[2], effect_class()(op[2], c, o, rest_frame=rest))
        elif op[0] == "toggle":
            node = nodes[op[1]]
            if op[2] and any(LEAVES[x.spec]["z"] is None for x in node.leaves()):
                return
            node.model.set_apply_redshift(op[2])
            for x in node.leaves():
                x.toggle = op[2]
        else:
            tree.model.evaluate_bandfluxes(pb_group(), np.array([1.0]), ["r"], tree.model.sample_parameters(rng_info=np.random.default_rng(0)))

    def observe(self, ctx, tree):
        check_tree(ctx, tree, {pb.full_name: pb for pb in bands()}, pb_group(), f"{self.spec} after the history")

    def canon(self, tree):
        return [(x.path, x.rest, x.obs, x.toggle, getattr(x, "order", []), sorted(x.model.setters)) for x in tree.nodes()]


HIST = [
    ["sum", ["a", "b"], [0.5, 2.0]],
    ["rand", ["b", "c"], None],
    ["sum", [["rand", ["b", "c"], None], "a"], None],
    ["sum", ["x", "b"], None],
    ["sum", ["a", ["sum", ["b", "c"], [60, 40]], ["rand", ["c", "a"], None]], [30, 70, -5]],
]


def sec_history(ctx):
    for i, spec in enumerate(HIST):
        bfs(ctx, f"history{i}", History(spec), ctx.pick(3, 4) - (i == 4))


def sec_repeat(ctx):
    """The same object listed several times with weights of its own, and the same effect added several times."""
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel

    def go(names, weights, eff, times):
        group = pb_group()
        pbs = {pb.full_name: pb for pb in bands()}
        kids = {x: Tree(x, 1, f"k{x}") for x in sorted(set(names))}
        m = AdditiveMultiObjectModel([kids[x].model for x in names], weights=weights, node_label="sum")
        ref = Tree(["sum", list(names), weights])
        ref.kids = [kids[x] for x in names]
        Both = effect_class()
        if eff:
            op, rest, c = EFF[eff]
            e = Both(eff, c, op, rest_frame=rest)
            for _ in range(times):
                m.add_effect(e)
                ref._ref_add(eff)
        ref.model = m
        check_tree(ctx, ref, pbs, group, f"{names} weights={weights} effect={eff} added {times} times")
        ctx.state((names, weights, eff, times))
        ctx.outcome("repeat")

    for names in (("a", "a"), ("a", "b", "a"), ("b", "b", "c"), ("x", "a", "x")):
        for weights in (None, [0.5, 2.0, 3.0][: len(names)], [1.0, 0.0, -1.5][: len(names)]):
            for eff in (None, "e_om", "e_oa"):
                for times in (1, 2) if eff else (0,):
                    ctx.case([list(names), weights, eff, times], go, names, weights, eff, times)
    for names in (("a",), ("a", "b"), ("x", "a"), ("b", "c", "a")):
        for eff in EFF:
            for times in (2, 3):
                ctx.case([list(names), None, eff, times], go, names, None, eff, times)


def sec_kept(ctx):
    """Objects that hand out arrays they keep (tables of their own): combining them leaves those arrays as they were."""
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel
    from lightcurvelynx.models.physical_model import BandfluxModel, SEDModel

    class Table(SEDModel):
        def __init__(self, table, **kw):
            super().__init__(**kw)
            self.table = table

        def compute_sed(self, times, wavelengths, graph_state, **kw):
            return self.table

    class Bands(BandfluxModel):
        def __init__(self, table, **kw):
            super().__init__(**kw)
            self.table = table

        def compute_bandflux(self, times, filters, state, rng_info=None):
            return self.table

    nt, nw = 3, 2
    times, waves, filters = np.arange(nt) * 1.0, np.array([1000.0, 2000.0]), ["r"] * nt

    def go(kind, cls, n, weights, dtype, eff, keep):
        shape = (nt, nw) if kind == "sed" else (nt,)
        tables = [(np.arange(math.prod(shape)).reshape(shape) + 10 * (i + 1)).astype(dtype) for i in range(n)]
        for x in tables:
            x.setflags(write=not keep)
        before = [x.copy() for x in tables]
        objs = [(Table if kind == "sed" else Bands)(x, node_label=f"o{i}") for i, x in enumerate(tables)]
        w = [2.5, -0.5, 3.0][:n] if weights else None
        m = cls(objs, weights=w, node_label="m") if cls is AdditiveMultiObjectModel else cls(objs, object_names=list("abc")[:n], node_label="m")
        if eff:
            op, rest, c = EFF[eff]
            m.add_effect(effect_class()(eff, c, op, rest_frame=rest))
        for k in range(3):
            state = m.sample_parameters(rng_info=np.random.default_rng(k))
            if kind == "sed":
                got = m.evaluate_sed(times, waves, state)
            else:
                got = m.evaluate_bandfluxes(None, times, filters, state)
            want = np.zeros(shape)
            if cls is AdditiveMultiObjectModel:
                for i in range(n):
                    want = want + (w[i] if w else 1.0) * before[i]
            else:
                want = before["abc".index(str(m.get_param(state, "selected_object")))] * 1.0
            if eff:
                tt = times[:, None] if kind == "sed" else times
                ww = waves[None, :] / 1000.0 if kind == "sed" else np.array([code(f) for f in filters], dtype=float)
                want = apply_ref(eff, want, tt, ww)
            ctx.step()
            ctx.eq(np.asarray(got, dtype=float), want, f"{kind} {cls.__name__} of {n} weights={w} {dtype} effect={eff}: evaluation {k}")
            for i in range(n):
                ctx.check(np.array_equal(tables[i], before[i]), lambda: f"{kind} {cls.__name__} of {n} weights={w}: the array of object {i} was changed")
        ctx.state((kind, cls.__name__, n, weights, dtype, eff, keep))
        ctx.outcome(kind)

    for kind, cls, n, weights, dtype, eff, keep in itertools.product(
        ("sed", "band"), (AdditiveMultiObjectModel, RandomMultiObjectModel), (1, 2, 3), (False, True), ("float64", "float32", "int64"), (None, "e_om", "e_oa"), (False, True)
    ):
        if weights and cls is RandomMultiObjectModel:
            continue
        ctx.case([kind, cls.__name__, n, weights, dtype, eff, keep], go, kind, cls, n, weights, dtype, eff, keep)


SECTIONS = [
    ("repeat", sec_repeat),
    ("kept", sec_kept),
    ("plain", sec_plain, (4, 8)),
    ("effects", sec_effects, (8, 16)),
    ("refuse", sec_refuse),
    ("select", sec_select),
    ("history", sec_history, (6, 12)),
    ("memory", memory.sec_models(memory.multi_models), 2),
]
