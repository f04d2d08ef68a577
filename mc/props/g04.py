"""G04: a draw depends on the graph's current declarations only, never on what happened before.

Histories of draws (from any node), re-declarations of any parameter, renumberings and dependency-graph
requests over graphs whose nodes are shared between several roots; after every draw the result must equal
the reference evaluation of the current declarations.
"""

from mc.core import Ctx, Machine, bfs
from mc.graphs import EXPORTS, Built

ID = "G04"
RULE = (
    "breadth-first search over histories of draw / redeclare / renumber / inspect operations on shared graphs; a "
    "state is (declarations, node numbering and names, evaluation counts)"
)
ASSUMPTIONS = ["values are read from a draw before another root's draw renumbers shared nodes"]

SCENES = {
    # two roots over a shared chain: 0 <- 1 <- 2(root), 3(root) reads 0 and 1 in the other order
    "shared_chain": [
        {"t": "P", "x": ["c", 10], "y": ["c", 1]},
        {"t": "P", "x": ["p", 0, "x"], "y": ["c", 2]},
        {"t": "P", "x": ["p", 1, "x"], "y": ["p", 0, "y"]},
        {"t": "P", "x": ["p", 0, "x"], "y": ["p", 1, "x"]},
    ],
    # a second root that reaches only the top of the first root's chain
    "shared_top": [
        {"t": "P", "x": ["c", 10], "y": ["c", 1]},
        {"t": "P", "x": ["p", 0, "x"], "y": ["c", 2]},
        {"t": "P", "x": ["p", 1, "x"], "y": ["p", 0, "y"]},
        {"t": "P", "x": ["p", 0, "x"], "y": ["c", 3]},
    ],
    # function nodes shared between two roots
    "shared_functions": [
        {"t": "F", "x": ["c", 10], "y": ["c", 1]},
        {"t": "F", "x": ["p", 0, "r"], "y": ["c", 2]},
        {"t": "P", "x": ["p", 1, "r"], "y": ["p", 0, "r"]},
        {"t": "P", "x": ["p", 0, "r"], "y": ["p", 1, "x"]},
    ],
}


class Shared(Machine):
    def __init__(self, spec, thorough):
        self.spec = spec
        self.thorough = thorough

    def start(self, ctx):
        st = Built(self.spec)
        st.hist = []
        return st

    def clone(self, st):
        mute = Ctx("-", "-", "quick", 0)
        new = self.start(mute)
        for op in st.hist:
            self.step(mute, new, op)
        return new

    def ops(self, st):
        out = []
        for r in (3, 2, 1):
            out.append(["draw", r, 1])
        out.append(["draw", 2, 2])
        for i in range(4):
            out.append(["set", i, "x", ["c", 77]])
            if st.spec[i]["t"] == "P":
                out.append(["set", i, "x", ["fn", 5]])
                out.append(["set", i, "y", ["fn", 6]])
            for j in range(i):
                a = EXPORTS[st.spec[j]["t"]][0]
                out.append(["set", i, "y", ["p", j, a]])
        out.append(["number", 2])
        out.append(["number", 3])
        out.append(["inspect", 3])
        if self.thorough:
            out.append(["draw", 0, 1])
            out.append(["number", 1])
            out.append(["inspect", 2])
        return out

    def canon(self, st):
        names = [(n.node_pos, str(n)) for n in st.nodes]
        deps = []
        for n in st.nodes:
            for p, s in n.setters.items():
                if s.dependency is not None:
                    deps.append((str(n), p, str(s.dependency), s.dependency.node_pos))
        calls = [min(c.calls, 2) for c in st.counters]
        return (st.spec, names, deps, calls)

    def step(self, ctx, st, op):
        st.hist.append(op)
        if op[0] == "draw":
            _, root, n = op
            before = [c.calls for c in st.counters]
            state = st.nodes[root].sample_parameters(num_samples=n)
            reach = st.reachable(root)
            for i, s in enumerate(st.spec):
                if s["t"] in "FM":
                    used = st.counters[i].calls - before[i]
                    ctx.eq(used, int(i in reach), f"evaluations of function node {i} in one draw")
            st.compare(ctx, state, root, n, {}, f"draw from {root}")
            ctx.outcome(f"draw{root}")
        elif op[0] == "set":
            _, i, name, src = op
            st.redefine(i, name, src)
            ctx.outcome("set-" + src[0])
        elif op[0] == "number":
            st.nodes[op[1]].set_graph_positions()
            ctx.outcome("number")
        elif op[0] == "inspect":
            dg = st.nodes[op[1]].build_dependency_graph()
            reach = st.reachable(op[1])
            extra = sum(len(st.extra[i]) for i in reach)
            ctx.eq(len(dg.all_nodes), len(reach) + extra, "nodes in the dependency graph")
            ctx.outcome("inspect")


def sec_histories(ctx):
    for name, spec in SCENES.items():
        bfs(ctx, name, Shared(spec, ctx.tier != "quick"), ctx.pick(4, 5))


def sec_models(ctx):
    """Compositions of physical models that share a host: draws from the parts, from the whole and from a
    second whole, in every order, with parts re-declared in between."""
    from itertools import product

    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.models.basic_models import ConstantSEDModel
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel

    ops = ["host", "src1", "src2", "pair12", "pair21", "redo_host", "redo_src2", "effect"]
    depth = ctx.pick(4, 5)
    for ln in range(1, depth + 1):
        for hist in product(ops, repeat=ln):
            if hist[-1].startswith("redo") or hist[-1] == "effect":
                continue
            ctx.case({"hist": hist}, _model_history, ctx, hist)


def _model_history(ctx, hist):
    from lightcurvelynx.effects.basic_effects import ConstantDimming
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList
    from lightcurvelynx.models.basic_models import ConstantSEDModel
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel

    feed = GivenValueList([float(i) for i in range(1, 60)])
    host = ConstantSEDModel(brightness=feed, ra=1.0, dec=2.0)
    src1 = ConstantSEDModel(brightness=10.0, ra=host.ra, dec=host.dec)
    src2 = ConstantSEDModel(brightness=host.brightness, ra=src1.ra, dec=4.0)
    objs = {
        "host": host,
        "src1": src1,
        "src2": src2,
        "pair12": AdditiveMultiObjectModel([src1, src2], weights=[1.0, 2.0]),
        "pair21": AdditiveMultiObjectModel([src2, src1], weights=[1.0, 3.0]),
    }
    nxt = 1
    host_const = None
    ra, b2, dim = 1.0, None, None
    times, waves = [0.0, 1.0], [4000.0, 5000.0, 6000.0]
    for op in hist:
        ctx.step()
        if op == "redo_host":
            host.set_parameter("ra", 50.0)
            ra = 50.0
            continue
        if op == "redo_src2":
            src2.set_parameter("brightness", 7.0)
            b2 = 7.0
            continue
        if op == "effect":
            if dim is None:
                src2.add_effect(ConstantDimming(flux_fraction=0.5))
                dim = 0.5
            continue
        model = objs[op]
        state = model.sample_parameters(num_samples=1)
        needs_host_b = op in ("host", "src1") or True
        # brightness of the host is drawn exactly once in any draw that reaches the host
        hb = float(nxt)
        nxt += 1
        v2 = (b2 if b2 is not None else hb) * (dim or 1.0)
        flux = model.evaluate_sed(times, waves, state)
        want = {"host": hb, "src1": 10.0, "src2": v2, "pair12": 10.0 + 2 * v2, "pair21": v2 + 30.0}[op]
        import numpy as np

        ctx.eq(flux, np.full((2, 3), want), f"{op} flux after {hist}")
        if op != "host":
            ctx.eq(src1.get_param(state, "ra"), ra, f"{op}: src1.ra after {hist}")
        ctx.eq(host.get_param(state, "ra"), ra, f"{op}: host.ra after {hist}")
        ctx.state((hist, op))
        ctx.outcome(op)


class Names(Shared):
    """A root whose graph gains and loses unlabelled nodes: the names in a draw are those of a graph freshly
    built with the same declarations, so draws of equal graphs can be compared, saved and given back."""

    def ops(self, st):
        out = [["draw", 3, 1]]
        for i in range(4):
            for p in "xy":
                out.append(["set", i, p, ["c", 77]])
                if st.spec[i]["t"] == "P":
                    out.append(["set", i, p, ["fn", 5]])
                for j in range(i):
                    out.append(["set", i, p, ["p", j, EXPORTS[st.spec[j]["t"]][0]]])
        return out

    def canon(self, st):
        return (st.spec, [(n.node_pos, str(n)) for n in st.nodes])

    def step(self, ctx, st, op):
        super().step(ctx, st, op)
        if op[0] == "draw":
            fresh = Built(st.spec)
            fresh.nodes[3].sample_parameters()
            for i in st.reachable(3):
                ctx.eq(str(st.nodes[i]), str(fresh.nodes[i]), f"name of node {i}")


def sec_names(ctx):
    for name, spec in SCENES.items():
        bfs(ctx, "names-" + name, Names(spec, False), ctx.pick(3, 4))


SECTIONS = [("histories", sec_histories, 8), ("models", sec_models, 4), ("names", sec_names, 4)]
