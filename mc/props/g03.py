"""G03: one joint draw is consistent with every declaration of the graph."""

import itertools

import numpy as np

from mc.graphs import OUTNAME, Built, all_specs3, all_specs4, diamonds

ID = "G03"
RULE = (
    "every 3-node graph over three node kinds and all sources, every 4-node single-source graph and diamond, "
    "for 1 and 3 samples, each drawn twice, without and with each exported value supplied by the caller; a state "
    "is (graph, samples, supplied values)"
)
ASSUMPTIONS = ["function nodes are deterministic apart from a per-evaluation ticket that reveals repeated draws"]


def run_graph(ctx, spec, labels, full_given):
    reach_root = len(spec) - 1
    if labels:
        spec = [dict(s, l=f"L{i} node") for i, s in enumerate(spec)]
    exports = {"P": ["x", "y"], "F": ["r", "x", "y"], "M": ["u", "v", "x"]}
    for n in (1, 3):
        b = Built(spec)
        reach = sorted(b.reachable(reach_root))
        options = [{}]
        if full_given:
            for i in reach:
                for a in exports[spec[i]["t"]]:
                    options.append({(i, a): [5000.0 + 10 * i + k for k in range(n)]})
            if len(reach) > 1:
                i, j = reach[0], reach[-1]
                options.append(
                    {
                        (i, exports[spec[i]["t"]][0]): [8000.0 + k for k in range(n)],
                        (j, exports[spec[j]["t"]][0]): [9000.0 + k for k in range(n)],
                    }
                )
        b.nodes[reach_root].set_graph_positions()
        for gi, given in enumerate(options):
            arg = None
            if given:
                arg = {}
                for (i, a), vals in given.items():
                    arg.setdefault(str(b.nodes[i]), {})[OUTNAME.get(a, a)] = vals[0] if n == 1 else np.array(vals)
            before = [c.calls for c in b.counters]
            state = b.nodes[reach_root].sample_parameters(given_args=arg, num_samples=n)
            ctx.step()
            ctx.eq(state.num_samples, n, "number of samples")
            for i, s in enumerate(spec):
                if s["t"] in "FM":
                    # a node whose only output was supplied by the caller need not be evaluated
                    supplied = (i, "r") in given or (i, "u") in given or (i, "v") in given
                    used = b.counters[i].calls - before[i]
                    want = {1} if i in reach else {0}
                    if supplied:
                        want = {0, 1}
                    ctx.check(used in want, f"function node {i} was evaluated {used} times in one draw")
            b.compare(ctx, state, reach_root, n, given, f"n={n} given={sorted(given)}")
            ctx.state((spec, n, sorted(given)))
            ctx.outcome("given" if given else "plain")
            ctx.outcome(f"reach{len(reach)}")


def sec_three(ctx):
    for spec in all_specs3():
        for labels in (False, True):
            if labels and ctx.tier == "quick" and spec[2]["t"] == "M":
                continue
            ctx.case({"spec": spec, "labels": labels}, run_graph, ctx, spec, labels, not labels or ctx.tier != "quick")


def sec_four(ctx):
    for spec in all_specs4():
        ctx.case({"spec": spec}, run_graph, ctx, spec, False, ctx.tier != "quick")
    for spec in diamonds():
        ctx.case({"spec": spec, "d": 1}, run_graph, ctx, spec, False, True)


def sec_generate(ctx):
    """A function node's generate() gives its own outputs, for each sample, with fixed and given arguments."""
    from lightcurvelynx.base_models import FunctionNode, ParameterizedNode
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    def f1(a, b, c=0.0):
        return a * 100.0 + b * 10.0 + c

    def f2(a, b, c=0.0):
        return a + 1000.0, b * 2.0 + c

    def f3(a, b, c=0.0):
        return [c, a, b]

    def f5(a, b, c=0.0):
        return (a, -a, b - c, a + b, 7.0)

    funcs = {"five": (f5, ["e", "m", "k", "z", "d"]), "one": (f1, None), "named": (f1, ["z"]), "two": (f2, ["u", "w"]), "three": (f3, ["q", "p", "o"])}

    def go(kind, n, fixed, chain, given):
        ctx.step()
        fn, outs = funcs[kind]
        base = ParameterizedNode(node_label="base")
        base.add_parameter("a", GivenValueList([1.0, 2.0, 3.0]) if n > 1 else 1.0)
        kw = {"b": 4.0 if "b" not in fixed else None}
        kw = {k: v for k, v in kw.items() if v is not None}
        node = FunctionNode(fn, node_label="f", outputs=outs, fixed_params=dict(fixed) if fixed else None, a=base.a, **kw)
        b, c = fixed.get("b", 4.0), fixed.get("c", 0.0)
        avals = [1.0, 2.0, 3.0][:n]
        args = {}
        if given:
            args = {"base": {"a": 7.0}} if given == "above" else {"f": {"a": 8.0}}
            avals = [7.0 if given == "above" else 8.0] * n
        res = [fn(x, b, c) for x in avals]
        if chain:
            # A node below it, generated on its own, computes from this one's output.
            first = outs[-1] if outs else "function_node_result"
            node2 = FunctionNode(lambda v: -v, node_label="g", v=getattr(node, first))
            got = node2.generate(given_args=args or None, num_samples=n)
            want = [-(r[-1] if outs and len(outs) > 1 else r) for r in res]
            ctx.eq(np.atleast_1d(got), want, f"{kind}: node below")
        else:
            got = node.generate(given_args=args or None, num_samples=n)
            if outs is None or len(outs) == 1:
                ctx.eq(np.ndim(got), 0 if n == 1 else 1, f"{kind}: shape")
                ctx.eq(np.atleast_1d(got), res, f"{kind}")
            else:
                ctx.eq(len(got), len(outs), f"{kind}: outputs")
                for k in range(len(outs)):
                    ctx.eq(np.atleast_1d(got[k]), [r[k] for r in res], f"{kind}: output {outs[k]}")
            ctx.check(all(k not in node.list_params() for k in fixed), "a fixed argument is a parameter")
        ctx.state((kind, n, sorted(fixed), chain, given))
        ctx.outcome(kind)

    def override(n, b, c):
        # Arguments given to a single computation replace the drawn ones, whatever their value.
        ctx.step()
        node = FunctionNode(f1, node_label="f", a=GivenValueList([1.0, 2.0, 3.0]) if n > 1 else 1.0, b=4.0, c=7.0)
        st = node.sample_parameters(num_samples=n)
        args = {k: v for k, v in (("b", b), ("c", c)) if v is not None}
        got = node.compute(st, **args)
        want = [f1(x, args.get("b", 4.0), args.get("c", 7.0)) for x in [1.0, 2.0, 3.0][:n]]
        ctx.eq(np.atleast_1d(got), np.array(want), f"computed with {args}")
        ctx.eq(np.atleast_1d(node.get_param(st, "function_node_result")), np.array(want), f"state after computing with {args}")
        ctx.state(("override", n, b, c))
        ctx.outcome("override")

    for n in (1, 2, 3):
        for b, c in itertools.product((None, 0.0, -1.0, 0, 2.5), repeat=2):
            ctx.case({"override": [b, c], "n": n}, override, n, b, c)
    for kind, n, chain in itertools.product(funcs, (1, 2, 3), (False, True)):
        for fixed in ({}, {"b": 6.0}, {"c": 5.0}, {"b": 6.0, "c": 5.0}):
            for given in (None, "above", "own"):
                ctx.case({"kind": kind, "n": n, "chain": chain, "fixed": fixed, "given": given}, go, kind, n, fixed, chain, given)


def sec_references(ctx):
    """Ways to name a source: a node itself (same-named parameter, named output or single output), a getter,
    a plain callable; unusable references are refused when the graph is declared."""
    from lightcurvelynx.base_models import FunctionNode, ParameterizedNode
    from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode

    class Host(ParameterizedNode):
        def __init__(self, **kw):
            super().__init__(node_label=kw.pop("node_label", None))
            for k, v in kw.items():
                self.add_parameter(k, v)

        def method(self):
            return 1.0

    for n in (1, 2):
        for target in ("x", "u", "w"):
            for via in ("node", "getter_x", "getter_u", "single", "multi", "multi_getter_w", "callable", "kw_callable"):

                def go(n=n, target=target, via=via):
                    host = Host(x=1.5, u=2.5)
                    single = FunctionNode(lambda a: a + 100.0, a=host.x)
                    multi = FunctionNode(lambda a: [a + 200.0, a + 300.0], outputs=["u", "w"], a=host.x)
                    want = None
                    src = None
                    if via == "node":
                        src = host
                        want = {"x": 1.5, "u": 2.5}.get(target)
                    elif via == "getter_x":
                        src, want = host.x, 1.5
                    elif via == "getter_u":
                        src, want = host.u, 2.5
                    elif via == "single":
                        src, want = single, 101.5
                    elif via == "multi":
                        src, want = multi, {"u": 201.5, "w": 301.5}.get(target)
                    elif via == "multi_getter_w":
                        src, want = multi.w, 301.5
                    elif via in ("callable", "kw_callable"):
                        src, want = (lambda: 42.0), 42.0
                    ctx.step()
                    ctx.state((n, target, via))

                    def draw():
                        if via == "kw_callable":
                            node = ParameterizedNode()
                            node.add_parameter(target, lambda q: q + 2.0, q=40.0)
                        else:
                            node = SingleVariableNode(target, src)
                        return node.sample_parameters(num_samples=n), node

                    if want is None:
                        ctx.raises((ValueError, KeyError), draw, f"{via} for '{target}'")
                        ctx.outcome("refused")
                    else:
                        st, node = draw()
                        got = node.get_param(st, target)
                        ctx.eq(got, want if n == 1 else np.full(n, want), f"{via} for '{target}'")
                        ctx.outcome(via)

                ctx.case({"n": n, "target": target, "via": via}, go)
    # ill-formed declarations
    bad = {
        "itself": lambda: (lambda h: h.set_parameter("z", h))(Host(z=1)),
        "no_state": lambda: Host(z=1).get_param(None, "z"),
        "no_state_locals": lambda: Host(z=1).get_local_params(None),
        "no_function": lambda: FunctionNode(None, a=1.0).sample_parameters(),
        "missing_param": lambda: Host(z=1).set_parameter("q", 2),
        "duplicate": lambda: Host(z=1).add_parameter("z", 3),
        "predefined": lambda: Host(z=1).add_parameter("method", 3),
        "predefined2": lambda: Host(z=1).add_parameter("setters", 3),
        "node_without_param": lambda: SingleVariableNode("q", Host(z=1)),
        "method_not_param": lambda: SingleVariableNode("q", Host(z=1).method),
        "too_few_results": lambda: FunctionNode(lambda a: [a], outputs=["u", "w"], a=1.0).sample_parameters(),
        "too_many_results": lambda: FunctionNode(lambda a: [a, a, a], outputs=["u", "w"], a=1.0).sample_parameters(),
        "same_label": lambda: SingleVariableNode(
            "q", Host(z=Host(z=1, node_label="S").z, node_label="S").z, node_label="root"
        ).sample_parameters(),
    }
    for name, fn in bad.items():

        def go(name=name, fn=fn):
            ctx.step()
            ctx.state(name)
            ctx.raises((ValueError, KeyError), fn, name)
            ctx.outcome("refused")

        ctx.case({"bad": name}, go)


def sec_constants(ctx):
    """Constants of every kind reach all samples unchanged and are readable from the node."""
    from lightcurvelynx.base_models import ParameterizedNode

    consts = {
        "zero": 0,
        "neg": -2.5,
        "str": "abc",
        "none": None,
        "bool": False,
        "vec": np.array([1.0, 2.0, 3.0]),
        "list": [1, 2],
    }
    for (k1, v1), (k2, v2) in itertools.product(consts.items(), repeat=2):
        for n in (1, 2, 3):

            def go(v1=v1, v2=v2, n=n, k1=k1, k2=k2):
                a = ParameterizedNode(node_label="a")
                a.add_parameter("p", v1)
                b = ParameterizedNode(node_label="b")
                b.add_parameter("q", a.p)
                b.add_parameter("r", v2)
                st = b.sample_parameters(num_samples=n)
                ctx.step()
                for node, nm, v in ((a, "p", v1), (b, "q", v1), (b, "r", v2)):
                    got = node.get_param(st, nm, default="<missing>")
                    if n == 1:
                        ctx.eq(got, v, f"{nm} (single sample)")
                    else:
                        ctx.check(len(got) == n, f"{nm} has {len(got)} entries for {n} samples")
                        for i in range(n):
                            ctx.eq(got[i], v, f"{nm} sample {i}")
                for i, s in enumerate(st):
                    ctx.eq(b.get_param(s, "q"), v1, f"slice {i}")
                ctx.eq(a.get_param(st, "absent", default=3), 3, "default of a missing parameter")
                ctx.state((k1, k2, n))
                ctx.outcome(k1)

            ctx.case({"p": k1, "r": k2, "n": n}, go)


SECTIONS = [("three", sec_three, 8), ("four", sec_four, 8), ("references", sec_references), ("generate", sec_generate), ("constants", sec_constants)]
