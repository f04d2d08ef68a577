"""Small parameter graphs: JSON spec -> real nodes, and an independent reference evaluation.

spec = list of nodes, each {"t": type, "x": src, "y": src, "l": label?}
  types  P  plain node with parameters x, y                 exports x, y
         F  function node, inputs x, y, one output          exports r (the output), x
         M  function node, inputs x, y, two outputs u, v    exports u, v
  src    ["c", number]           constant
         ["p", j, attr]          attr of node j (an earlier node)
         ["self"]                parameter x of the same node        (P.y only)
         ["selff"]               function node of own parameter x    (P.y only)
         ["fn", k]               a plain callable returning k        (P only)

Function nodes add 1000 * (number of times they were evaluated), so a value tells how often its node was
drawn and every dependent must have seen the same draw.
"""

import itertools

import numpy as np

EXPORTS = {"P": ["x", "y"], "F": ["r", "x"], "M": ["u", "v"]}
OUTNAME = {"r": "function_node_result"}


class Counter:
    def __init__(self):
        self.calls = 0


def make_plain_callable(k):
    def plain():
        return k

    return plain


class Built:
    def __init__(self, spec):
        from lightcurvelynx.base_models import FunctionNode, ParameterizedNode

        class PNode(ParameterizedNode):
            pass

        self.spec = [dict(s) for s in spec]
        self.nodes = []
        self.counters = []
        self.extra = []  # per node: implicit function node of "selff" / "fn" sources, by parameter
        for i, s in enumerate(spec):
            cnt = Counter()
            lab = s.get("l")
            self.counters.append(cnt)
            self.extra.append({})
            if s["t"] == "P":
                node = PNode(node_label=lab)
                self.nodes.append(node)
                for name in ("x", "y"):
                    node.add_parameter(name, self.source(i, name, s[name]))
            elif s["t"] == "F":

                def func_f(x, y, cnt=cnt):
                    cnt.calls += 1
                    return 2 * x + 3 * y + 1000 * cnt.calls

                node = FunctionNode(lambda x, y, f=func_f: f(x, y), node_label=lab, x=self.source(i, "x", s["x"]), y=self.source(i, "y", s["y"]))
                self.nodes.append(node)
            else:

                def func_m(x, y, cnt=cnt):
                    cnt.calls += 1
                    return [x + y + 1000 * cnt.calls, x - y + 1000 * cnt.calls]

                node = FunctionNode(
                    lambda x, y, f=func_m: f(x, y),
                    node_label=lab,
                    outputs=["u", "v"],
                    x=self.source(i, "x", s["x"]),
                    y=self.source(i, "y", s["y"]),
                )
                self.nodes.append(node)

    def source(self, i, name, src):
        from lightcurvelynx.base_models import FunctionNode

        if src[0] == "c":
            return src[1]
        if src[0] == "p":
            return getattr(self.nodes[src[1]], OUTNAME.get(src[2], src[2]))
        if src[0] == "self":
            return self.nodes[i].x
        if src[0] == "selff":
            node = FunctionNode(lambda q: q * 7, q=self.nodes[i].x)
            self.extra[i][name] = ("own", node)
            return node
        if src[0] == "fn":
            self.extra[i][name] = ("fn", src[1])
            return make_plain_callable(src[1])
        raise KeyError(src)

    def redefine(self, i, name, src):
        self.spec[i][name] = src
        self.extra[i].pop(name, None)
        self.nodes[i].set_parameter(name, self.source(i, name, src))

    # ---- reference evaluation ------------------------------------------------
    def reachable(self, root):
        out, todo = set(), [root]
        while todo:
            i = todo.pop()
            if i in out:
                continue
            out.add(i)
            for name in ("x", "y"):
                src = self.spec[i][name]
                if src[0] == "p":
                    todo.append(src[1])
        return out

    def expected(self, root, n, given, calls):
        """{node: {param: list of n values}} for a draw rooted at ``root``.

        calls[i] is how often function node i has been evaluated once this draw is over.
        given: {(i, attr): list of n values}
        """
        reach = sorted(self.reachable(root))
        val = {}

        def put(i, attr, v):
            val[(i, attr)] = given.get((i, attr), v)

        for i in reach:
            s = self.spec[i]
            for name in ("x", "y"):
                src = s[name]
                if src[0] == "c" or src[0] == "fn":
                    v = [src[1]] * n
                elif src[0] == "p":
                    v = val[(src[1], src[2])]
                elif src[0] == "self":
                    v = val[(i, "x")]
                else:
                    v = [7 * q for q in val[(i, "x")]]
                put(i, name, v)
            x, y = val[(i, "x")], val[(i, "y")]
            if s["t"] == "F":
                put(i, "r", [2 * a + 3 * b + 1000 * calls[i] for a, b in zip(x, y)])
            elif s["t"] == "M":
                put(i, "u", [a + b + 1000 * calls[i] for a, b in zip(x, y)])
                put(i, "v", [a - b + 1000 * calls[i] for a, b in zip(x, y)])
        return val

    def compare(self, ctx, state, root, n, given, what):
        calls = [c.calls for c in self.counters]
        want = self.expected(root, n, given, calls)
        reach = self.reachable(root)
        names = {}
        for i in reach:
            key = str(self.nodes[i])
            if key in names:
                ctx.fail(f"{what}: nodes {names[key]} and {i} share the name {key}")
                return
            names[key] = i
        for (i, attr), vals in want.items():
            node = self.nodes[i]
            got = node.get_param(state, OUTNAME.get(attr, attr), default="<missing>")
            if n == 1:
                ok = np.ndim(got) == 0 and not isinstance(got, str) and got == vals[0]
            else:
                ok = isinstance(got, np.ndarray) and got.shape == (n,) and list(got) == list(vals)
            ctx.check(ok, lambda: f"{what}: node {i} ({self.spec[i]['t']}).{attr} is {got!r}, its declaration gives {vals}")
            got2 = state[f"{node}.{OUTNAME.get(attr, attr)}"]
            ctx.check(got2 is got or np.array_equal(got2, got), lambda: f"{what}: full-name lookup differs: {got2!r}")
        # Nothing else: the parameters of reachable nodes (and of implicit function nodes).
        extra_nodes = 0
        for i in reach:
            extra_nodes += sum(1 for nm in self.extra[i])
        ctx.eq(len(state.states), len(reach) + extra_nodes, f"{what}: number of nodes in the draw")


def all_specs3():
    """Every 3-node graph over the three node types and every source."""

    def sources(i, types):
        out = [["c", 10 * (i + 1)]]
        for j in range(i):
            for a in EXPORTS[types[j]]:
                out.append(["p", j, a])
        return out

    for types in itertools.product("PFM", repeat=3):
        per_node = []
        for i, t in enumerate(types):
            xs = sources(i, types)
            ys = [["c", 10 * (i + 1) + 1]] + xs[1:]
            if t == "P":
                ys = ys + [["self"], ["selff"]]
            per_node.append([(x, y) for x in xs for y in ys])
        for combo in itertools.product(*per_node):
            yield [{"t": t, "x": c[0], "y": c[1]} for t, c in zip(types, combo)]


def all_specs4():
    """Every 4-node graph in which y is constant (chains, diamonds, forks)."""
    for types in itertools.product("PFM", repeat=4):
        per_node = []
        for i in range(4):
            out = [["c", 10 * (i + 1)]]
            for j in range(i):
                for a in EXPORTS[types[j]]:
                    out.append(["p", j, a])
            per_node.append(out)
        for combo in itertools.product(*per_node[1:]):
            yield [
                {"t": t, "x": c, "y": ["c", i + 1]} for i, (t, c) in enumerate(zip(types, (per_node[0][0],) + combo))
            ]


def diamonds():
    """4 nodes: two middle nodes over a shared top, joined by a bottom node reading both."""
    for types in itertools.product("PFM", repeat=4):
        t0, t1, t2, t3 = types
        for a1 in EXPORTS[t0]:
            for a2 in EXPORTS[t0]:
                for b1 in EXPORTS[t1]:
                    for b2 in EXPORTS[t2]:
                        for swap in (False, True):
                            bx, by = ["p", 1, b1], ["p", 2, b2]
                            if swap:
                                bx, by = by, bx
                            yield [
                                {"t": t0, "x": ["c", 10], "y": ["c", 1]},
                                {"t": t1, "x": ["p", 0, a1], "y": ["c", 2]},
                                {"t": t2, "x": ["c", 3], "y": ["p", 0, a2]},
                                {"t": t3, "x": bx, "y": by},
                            ]
