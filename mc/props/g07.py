"""G07: the dependency graph and the parameter tree describe exactly the declared graph."""

import itertools

import numpy as np

from mc.core import Ctx, Machine, bfs
from mc.graphs import OUTNAME, Built, all_specs3, all_specs4, diamonds

ID = "G07"
RULE = (
    "every 3-node graph over three node kinds and all sources, every 4-node single-source graph and diamond, plus "
    "multi-object compositions; a state is one graph (with the leaf values replaced by the caller)"
)
ASSUMPTIONS = ["node functions are deterministic, so a draw is determined by the constants it starts from"]

IN = {"P": ["x", "y"], "F": ["x", "y"], "M": ["x", "y"]}
OUT = {"P": [], "F": ["r"], "M": ["u", "v"]}


class Fixed(Built):
    """Graphs whose function nodes do not count evaluations."""

    def expected_fixed(self, root, n, given):
        return self.expected(root, n, given, [0] * len(self.spec))


def build(spec):
    b = Fixed(spec)
    # freeze the ticket counters: evaluation count no longer enters the values
    for c in b.counters:
        c.__class__ = Zero
    return b


class Zero:
    @property
    def calls(self):
        return 0

    @calls.setter
    def calls(self, v):
        pass


def edges(b, root):
    """Expected edges and constants, from the spec alone. Nodes are named by index or ("impl", i, param)."""
    es, consts, params = [], [], set()
    for i in sorted(b.reachable(root)):
        s = b.spec[i]
        for p in IN[s["t"]]:
            params.add((i, p))
            src = s[p]
            if src[0] == "c":
                consts.append((src[1], (i, p)))
            elif src[0] == "p":
                es.append(((src[1], src[2]), (i, p)))
            elif src[0] == "self":
                es.append(((i, "x"), (i, p)))
            elif src[0] == "selff":
                h = ("impl", i, p)
                params |= {(h, "q"), (h, "r")}
                es += [((i, "x"), (h, "q")), ((h, "q"), (h, "r")), ((h, "r"), (i, p))]
        for o in OUT[s["t"]]:
            params.add((i, o))
            for p in IN[s["t"]]:
                es.append(((i, p), (i, o)))
    return es, consts, params


def check_graph(ctx, spec):
    b = build(spec)
    root = len(spec) - 1
    g = b.nodes[root].build_dependency_graph()
    es, consts, params = edges(b, root)

    def name(pair):
        node, attr = pair
        if isinstance(node, tuple):
            obj = b.extra[node[1]][node[2]][1]
        else:
            obj = b.nodes[node]
        return f"{obj}.{OUTNAME.get(attr, attr)}"

    ctx.step()
    want_edges = sorted((name(a), name(c)) for a, c in es)
    got_edges = sorted((a, c) for c, ins in g.incoming.items() for a in ins if not a.startswith("const_"))
    ctx.check(got_edges == want_edges, lambda: f"edges {got_edges}, declared {want_edges}")
    out_edges = sorted((a, c) for a, outs in g.outgoing.items() for c in outs if not a.startswith("const_"))
    ctx.check(out_edges == got_edges, lambda: "incoming and outgoing edges differ")
    got_params = {p for p in g.all_params if not p.startswith("const_")}
    ctx.check(got_params == {name(p) for p in params}, lambda: f"parameters {got_params}, declared {sorted(name(p) for p in params)}")
    got_consts = sorted((a.split("=", 1)[1], c) for c, ins in g.incoming.items() for a in ins if a.startswith("const_"))
    ctx.check(got_consts == sorted((str(v), name(c)) for v, c in consts), lambda: f"constants {got_consts}")
    nodes = {name(p).rsplit(".", 1)[0] for p in params}
    ctx.check(set(g.all_nodes) == nodes, lambda: f"nodes {g.all_nodes}, declared {nodes}")
    ctx.check(all(p in g for p in got_params) and "nowhere.z" not in g, "membership")
    ctx.check(len(g) == len(got_params) + len(got_consts), lambda: f"len {len(g)}")

    # The tree of values: the leaves determine the draw, and replacing them propagates.
    for n in (1, 2):
        st = b.nodes[root].sample_parameters(num_samples=n)
        tree = b.nodes[root].build_pytree(st)
        leaves = {name(c): (v, c) for v, c in consts}
        got_leaves = {f"{nd}.{p}" for nd, ps in tree.items() for p in ps}
        ctx.check(got_leaves <= set(leaves), lambda: f"leaves {got_leaves} are not all constants of the graph")
        # every constant the root can see through non-leaf parameters is there
        ctx.check(got_leaves == set(leaves), lambda: f"leaves {sorted(got_leaves)}, constants {sorted(leaves)}")
        again = b.nodes[root].sample_parameters(given_args=tree, num_samples=n)
        b.compare(ctx, again, root, n, {}, "draw from its own tree")
        new, given = {}, {}
        for k, (full, (v, (i, p))) in enumerate(sorted(leaves.items())):
            if full not in got_leaves:
                continue
            vals = [1000.0 * (k + 1) + 3 * s for s in range(n)]
            given[(i, p)] = vals
            new.setdefault(full.rsplit(".", 1)[0], {})[p] = vals[0] if n == 1 else np.array(vals)
        changed = b.nodes[root].sample_parameters(given_args=new, num_samples=n)
        b.compare(ctx, changed, root, n, given, "draw with replaced leaves")
    ctx.state(spec)
    ctx.outcome("-".join(s["t"] for s in spec))


def sec_three(ctx):
    for k, spec in enumerate(all_specs3()):
        if ctx.tier == "quick" and k % 2 and all(s["t"] != "P" for s in spec):
            continue  # quick: half of the graphs made of function nodes only
        ctx.case({"spec": spec}, check_graph, ctx, spec)


def sec_four(ctx):
    for spec in itertools.chain(all_specs4() if ctx.tier != "quick" else [], diamonds()):
        ctx.case({"spec": spec}, check_graph, ctx, spec)


def sec_multi(ctx):
    """Compositions of objects: every part's parameters and edges are in the whole's graph, and the whole's tree
    reproduces the whole's draw."""
    from lightcurvelynx.base_models import FunctionNode
    from lightcurvelynx.models.basic_models import ConstantSEDModel, SinWaveModel
    from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

    for kind in ("additive", "random", "nested", "three", "random three"):
        for link in ("none", "param", "function", "both"):
            for labels in (True, False):
                for n in (1, 3):

                    def go(kind=kind, link=link, labels=labels, n=n):
                        lab = (lambda s: s) if labels else (lambda s: None)
                        a = ConstantSEDModel(brightness=5.0, ra=1.0, dec=2.0, redshift=0.5, t0=3.0, node_label=lab("a"))
                        br = {"none": 7.0, "param": a.brightness}.get(link)
                        if br is None:
                            br = FunctionNode(lambda p, q: p + 2 * q, p=a.brightness, q=10.0, node_label=lab("f"))
                        ra = a.ra if link == "both" else 30.0
                        b = SinWaveModel(amplitude=br, frequency=1.0, ra=ra, dec=4.0, t0=0.0, node_label=lab("b"))
                        third = []
                        if "three" in kind:
                            third = [ConstantSEDModel(brightness=b.amplitude, ra=9.0, dec=9.0, node_label=lab("c"))]
                        if kind == "random":
                            m = RandomMultiObjectModel([a, b], object_names=["one", "two"], node_label=lab("m"))
                        elif kind == "random three":
                            m = RandomMultiObjectModel([a, b, *third], node_label=lab("m"))
                        elif kind == "three":
                            m = AdditiveMultiObjectModel([a, b, *third], node_label=lab("m"))
                        else:
                            m = AdditiveMultiObjectModel([a, b], weights=[1.0, 2.0], node_label=lab("m"))
                        top = m
                        if kind == "nested":
                            c = ConstantSEDModel(brightness=b.amplitude, ra=9.0, dec=9.0, node_label=lab("c"))
                            top = AdditiveMultiObjectModel([c, m], node_label=lab("top"))
                        g = top.build_dependency_graph()
                        ctx.check({str(x) for x in (a, b, m, top, *third)} <= set(g.all_nodes), lambda: f"nodes {g.all_nodes}")
                        for node in (a, b, m, top, *third):
                            for p in node.list_params():
                                full = f"{node}.{p}"
                                if not ctx.check(full in g, lambda: f"{full} is missing from the graph"):
                                    continue
                                ins = [x for x in g.incoming[full]]
                                ctx.check(len(ins) == 1, lambda: f"{full} has incoming edges {ins}")
                        if link == "param":
                            ctx.check(g.incoming[f"{b}.amplitude"] == [f"{a}.brightness"], lambda: f"amplitude <- {g.incoming[f'{b}.amplitude']}")
                        if link == "both":
                            ctx.check(g.incoming[f"{b}.ra"] == [f"{a}.ra"], lambda: f"ra <- {g.incoming[f'{b}.ra']}")
                        st = top.sample_parameters(num_samples=n, rng_info=np.random.default_rng(1))
                        tree = top.build_pytree(st)
                        ctx.check("brightness" in tree.get(str(a), {}), lambda: f"a.brightness is not a leaf of {tree}")
                        if link == "none":
                            ctx.check("amplitude" in tree.get(str(b), {}), lambda: f"b.amplitude is not a leaf of {tree}")
                        new = {str(a): {"brightness": 50.0 if n == 1 else np.array([50.0, 60.0, 70.0])}}
                        st2 = top.sample_parameters(given_args=new, num_samples=n, rng_info=np.random.default_rng(1))
                        v = np.atleast_1d(np.array([50.0, 60.0, 70.0])[:n])
                        want = {"none": np.full(n, 7.0), "param": v, "function": v + 20.0, "both": v + 20.0}[link]
                        ctx.eq(np.atleast_1d(b.get_param(st2, "amplitude")), want, "amplitude after replacing the leaf a.brightness")
                        again = top.sample_parameters(given_args=tree, num_samples=n, rng_info=np.random.default_rng(1))
                        for node in (a, b):
                            for p in node.list_params():
                                ctx.eq(node.get_param(again, p), node.get_param(st, p), f"{p} drawn from its own tree")
                        ctx.state((kind, link, labels, n))
                        ctx.outcome(kind)

                    ctx.case({"kind": kind, "link": link, "labels": labels, "n": n}, go)


TOGGLE_SPEC = [
    {"t": "P", "x": ["c", 10], "y": ["c", 1]},
    {"t": "F", "x": ["p", 0, "x"], "y": ["c", 2]},
    {"t": "P", "x": ["p", 1, "r"], "y": ["p", 0, "y"]},
]
ATTRS = {"P": ["x", "y"], "F": ["x", "y", "r"]}


class Toggles(Machine):
    """Turning gradients on and off for any parameter, with re-declarations in between."""

    def start(self, ctx):
        b = build(TOGGLE_SPEC)
        allow = {(i, a): a != "r" and b.spec[i][a][0] == "c" for i in range(3) for a in ATTRS[b.spec[i]["t"]]}
        return {"b": b, "allow": allow, "hist": []}

    def clone(self, st):
        mute = Ctx("-", "-", "quick", 0)
        new = self.start(mute)
        for op in st["hist"]:
            self.step(mute, new, op)
        return new

    def ops(self, st):
        out = []
        for i, a in st["allow"]:
            out.append(["grad", i, a, not st["allow"][(i, a)]])
        out.append(["grad", 2, "x", st["allow"][(2, "x")]])
        for i in (1, 2):
            for a in "xy":
                out += [["set", i, a, ["c", 77]], ["set", i, a, ["p", 0, "x"]], ["set", i, a, ["p", 0, "y"]]]
        out += [["set", 2, "x", ["p", 1, "r"]], ["set", 0, "x", ["c", 5]], ["grad", 1, "nothing", True]]
        return out

    def step(self, ctx, st, op):
        st["hist"].append(op)
        b = st["b"]
        if op[0] == "grad":
            _, i, a, on = op
            if a == "nothing":
                ctx.raises(KeyError, lambda: b.nodes[i].set_allow_gradient(a, on), "an unknown parameter")
                return
            b.nodes[i].set_allow_gradient(OUTNAME.get(a, a), on)
            st["allow"][(i, a)] = on
            ctx.outcome(f"grad-{on}")
        else:
            _, i, a, src = op
            b.redefine(i, a, src)
            st["allow"][(i, a)] = src[0] == "c"
            ctx.outcome("set-" + src[0])

    def canon(self, st):
        return (st["b"].spec, sorted(st["allow"].items()))

    def observe(self, ctx, st):
        b, allow = st["b"], st["allow"]
        want, seen = set(), set()

        def walk(i):
            if i in seen:
                return
            seen.add(i)
            for a in ATTRS[b.spec[i]["t"]]:
                if allow[(i, a)]:
                    want.add((i, a))
                elif a != "r" and b.spec[i][a][0] == "p":
                    walk(b.spec[i][a][1])

        walk(2)
        for n in (1, 2):
            root = b.nodes[2]
            draw = root.sample_parameters(num_samples=n)
            tree = root.build_pytree(draw)
            idx = {str(b.nodes[i]): i for i in b.reachable(2)}
            back = {v: k for k, v in OUTNAME.items()}
            got = {(idx[nd], back.get(p, p)) for nd, ps in tree.items() for p in ps}
            ctx.check(got == want, lambda: f"leaves {sorted(got)}, expected {sorted(want)}")
            for nd, ps in tree.items():
                for p, v in ps.items():
                    ctx.eq(v, draw[f"{nd}.{p}"], f"value of the leaf {nd}.{p}")
            again = root.sample_parameters(given_args=tree, num_samples=n)
            b.compare(ctx, again, 2, n, {}, "draw from its own tree")


def sec_toggles(ctx):
    bfs(ctx, "toggles", Toggles(), ctx.pick(3, 5))

    def initial():
        from lightcurvelynx.base_models import FunctionNode, ParameterizedNode

        for flag in (None, True, False):
            for src in ("constant", "function"):
                n = ParameterizedNode(node_label="n")
                n.add_parameter("p", 3.0 if src == "constant" else FunctionNode(lambda a: a, node_label="f", a=3.0), allow_gradient=flag)
                tree = n.build_pytree(n.sample_parameters())
                leaf = flag if flag is not None else src == "constant"
                ctx.eq({k: v for k, v in tree.items() if v}, {"n": {"p": 3.0}} if leaf else {} if src == "constant" else {"f": {"a": 3.0}}, f"{src} with allow_gradient={flag}")
        n = ParameterizedNode()
        n.add_parameter("p", 1.0)
        from lightcurvelynx.graph_state import GraphState

        ctx.raises(ValueError, lambda: n.build_pytree(GraphState()), "a tree of a graph that was never numbered")

    ctx.case({"initial": 1}, initial)


SECTIONS = [("three", sec_three, 8), ("four", sec_four, 8), ("multi", sec_multi), ("toggles", sec_toggles, 4)]
