"""G01: the sampled-state store behaves as a plain table under every operation history.

Reference model: {node: {param: list of per-sample values | one value}} plus the set of fixed entries.
"""

import itertools

import numpy as np

from mc.core import Machine, bfs

ID = "G01"
RULE = (
    "breadth-first search over operation histories (set / update / update-from-state / rejected writes, with "
    "and without copying and fixing) for 1, 2 and 3 samples; a state is the table content + fixed entries"
)
ASSUMPTIONS = [
    "two nodes with two parameters each are enough for key confusions between nodes and parameters",
    "without force_copy the store may alias the caller's array (documented), so the caller does not touch it",
]

NODES = ["A", "B"]
VARS = ["x", "y"]


def value(code, n):
    """A fresh value object and the per-sample list the table must then hold."""
    if code == "none":
        return None, [None] * n
    if code == "s1":
        return 1.5, [1.5] * n
    if code == "s2":
        return 7, [7] * n
    if code == "str":
        return "abc", ["abc"] * n
    if code == "bool":
        return True, [True] * n
    if code == "arr":
        if n == 1:
            return 4.25, [4.25]
        a = np.arange(n) * 10.0 + 3.0
        return a, list(a)
    if code == "list":
        if n == 1:
            return -2, [-2]
        a = [100 + i for i in range(n)]
        return a, list(a)
    if code == "long":
        return np.arange(n + 1) * 1.0, None
    if code == "short":
        return np.arange(n - 1) * 1.0, None
    raise KeyError(code)


class St:
    def __init__(self, n):
        from lightcurvelynx.graph_state import GraphState

        self.n = n
        self.g = GraphState(n)
        self.m = {}  # (node, var) -> list of n values
        self.order = []
        self.fixed = set()

    def write(self, node, var, vals, fixed):
        if (node, var) in self.fixed:
            return
        if (node, var) not in self.m:
            self.order.append((node, var))
        self.m[(node, var)] = vals
        if fixed:
            self.fixed.add((node, var))


class Store(Machine):
    def __init__(self, n, thorough):
        self.n = n
        self.thorough = thorough

    def start(self, ctx):
        return St(self.n)

    def ops(self, st):
        n = self.n
        out = []
        codes = ["s1", "arr", "s2"] + (["none", "str", "list", "bool"] if self.thorough else ["list", "none"])
        for node in NODES:
            for var in VARS:
                for c in codes if (node, var) in (("A", "x"), ("B", "x")) else ["s1", "arr"]:
                    out.append(["set", node, var, c, False, False])
        out.append(["set", "A", "x", "arr", True, False])
        out.append(["set", "A", "x", "arr", False, True])
        out.append(["set", "A", "y", "s1", False, True])
        out.append(["set", "B", "x", "s2", True, True])
        if n > 1:
            out.append(["set", "A", "x", "long", False, False])
            out.append(["set", "B", "y", "short", False, False])
            out.append(["set", "A", "x", "long", True, True])
        out.append(["set", "A.b", "x", "s1", False, False])
        out.append(["set", "A", "x.y", "s1", False, False])
        for fixed in (False, True):
            out.append(["update", "dict", fixed])
            out.append(["update", "state1", fixed])
            if n > 1:
                out.append(["update", "stateN", fixed])
        out.append(["update", "stateBad", False])
        out.append(["copy_swap"])
        return out

    def canon(self, st):
        return (st.n, st.m, sorted(st.fixed), [a for a, _ in st.order])

    # -- one operation on both sides
    def step(self, ctx, st, op):
        from lightcurvelynx.graph_state import GraphState

        g, n = st.g, st.n
        if op[0] == "set":
            _, node, var, code, force, fixed = op
            val, want = value(code, n)
            bad = want is None or "." in node or "." in var
            if bad and (node, var) in st.fixed:
                ctx.attempt(lambda: g.set(node, var, val, force_copy=force, fixed=fixed))
                ctx.outcome("set-fixed-bad")
            elif bad:
                ctx.raises((ValueError, TypeError), lambda: g.set(node, var, val, force_copy=force, fixed=fixed), f"{op}")
                ctx.outcome("rejected")
            else:
                g.set(node, var, val, force_copy=force, fixed=fixed)
                ctx.outcome("set-fixed" if (node, var) in st.fixed else "set")
                st.write(node, var, want, fixed)
                if force and isinstance(val, np.ndarray):
                    val += 1000.0  # the caller reuses its buffer
        elif op[0] == "update":
            _, kind, fixed = op
            if kind == "dict":
                v1, w1 = value("arr", n)
                v2, w2 = value("s2", n)
                g.update({"A": {"x": v2, "y": v1}, "B": {"y": v2}}, all_fixed=fixed)
                for node, var, w in (("A", "x", w2), ("A", "y", w1), ("B", "y", w2)):
                    st.write(node, var, list(w), fixed)
                ctx.outcome("update-dict")
            elif kind in ("state1", "stateN"):
                k = 1 if kind == "state1" else n
                other = GraphState(k)
                v1, w1 = value("arr", k)
                # Entries that the other state marked as fixed are plain values here.
                other.set("B", "x", v1, fixed=kind == "state1")
                other.set("A", "y", 9.5)
                before = other.to_dict()
                g.update(other, all_fixed=fixed, force_copy=True)
                for node, var, w in (("B", "x", w1), ("A", "y", [9.5] * k)):
                    st.write(node, var, list(w) * (n if k == 1 else 1), fixed)
                ctx.eq(other.to_dict(), before, "update changed its input")
                if kind == "stateN":
                    v1 += 500.0
                ctx.outcome("update-" + kind)
            else:
                other = GraphState(n + 1)
                other.set("A", "x", 3.0)
                ctx.raises(ValueError, lambda: g.update(other), f"{op}")
                ctx.outcome("update-rejected")
        elif op[0] == "copy_swap":
            # Continue the history on a copy; scribbling over the original must not matter.
            new = g.copy()
            ctx.check(new == g, "a copy differs from its original")
            for node in NODES:
                if node in g.states:
                    for var in list(g.states[node]):
                        v = g.states[node][var]
                        if isinstance(v, np.ndarray) and v.dtype.kind == "f":
                            v[:] = -777.0
            g.fixed_vars.setdefault("A", set()).add("x")
            for s in g.fixed_vars.values():
                s.add("y")
            g.states["Z"] = {"q": 1}
            st.g = new
            ctx.outcome("copy")

    # -- everything observable
    def observe(self, ctx, st):
        g, n = st.g, st.n
        ctx.eq(g.num_samples, n, "num_samples")
        ctx.eq(len(g), len(st.m), "number of parameters")
        want_names = {f"{a}.{b}" for a, b in st.m}
        got_names = g.get_all_params_names()
        ctx.check(
            set(got_names) == want_names and len(got_names) == len(want_names),
            lambda: f"names {got_names}, expected {sorted(want_names)}",
        )
        nodes = {a for a, _ in st.m}

        def val(vals):
            return vals[0] if n == 1 else vals

        for a in NODES + ["C"]:
            for b in VARS + ["z"]:
                full = f"{a}.{b}"
                present = (a, b) in st.m
                ctx.eq(bool(full in g), present, f"'{full}' in state")
                if present:
                    got = g[full]
                    want = val(st.m[(a, b)])
                    if n > 1:
                        ctx.check(isinstance(got, np.ndarray) and got.shape == (n,), lambda: f"{full} is stored as {got!r}")
                        got = list(got)
                    ctx.check(_same_vals(got, want), lambda: f"{full} is {got!r}, expected {want!r}")
                else:
                    ctx.raises(KeyError, lambda: g[full], f"lookup of missing {full}")
            if a in nodes:
                ctx.check(a in g, f"node {a} missing")
                ctx.eq(set(g[a].keys()), {v for (m, v) in st.m if m == a}, f"parameters of {a}")
                for i in range(n):
                    row = g.get_node_state(a, i)
                    want = {v: st.m[(m, v)][i] for (m, v) in st.m if m == a}
                    ctx.check(_same_row(row, want), lambda: f"node {a} sample {i}: {row}, expected {want}")
                for i in (-1, n):
                    ctx.raises(ValueError, lambda: g.get_node_state(a, i), f"get_node_state({a},{i})")
            elif a not in [k for k in g.states]:
                ctx.raises(KeyError, lambda: g.get_node_state(a, 0), f"get_node_state({a}) of a missing node")
        # Short names are allowed when there is one node; a missing name is always an error.
        if len(nodes) == 1 and len(g.states) == 1:
            (a,) = nodes
            for b in VARS:
                if (a, b) in st.m:
                    ctx.check(b in g, f"short name {b} not found")
                    got = g[b]
                    ctx.check(_same_vals(list(got) if n > 1 else got, val(st.m[(a, b)])), lambda: f"short {b}: {got}")
        ctx.raises(KeyError, lambda: g["nope"], "lookup of an unknown name")
        ctx.eq(bool("nope" in g), False, "'nope' in state")

        # Slices are the columns of the table, in order, and independent of the store.
        rows = list(g)
        ctx.eq(len(rows), n, "number of slices")
        for i, row in enumerate(rows):
            want = {f"{a}.{b}": v[i] for (a, b), v in st.m.items()}
            ctx.check(
                row.num_samples == 1 and _same_row(row.to_dict(), want),
                lambda: f"slice {i} is {row.to_dict()}, expected {want}",
            )
            ctx.check(_same_row(g.extract_single_sample(i).to_dict(), want), f"extract_single_sample({i})")
            row.set("A", "x", -5.0)
            row.set("New", "w", 1)
            row.set("B", "y", -6.0, fixed=True)
            row.set("A", "y", -6.0, fixed=True)
        for i in (-1, n):
            ctx.raises(ValueError, lambda: g.extract_single_sample(i), f"extract_single_sample({i})")

        # Copies are equal, unequal after any change, and isolated.
        c = g.copy()
        ctx.check(c == g and g == c, "copy is not equal to the original")
        for node in NODES:
            for var in VARS:
                c2 = g.copy()
                fx = (node, var) in st.fixed
                c2.set(node, var, -12345.0)
                ctx.check((c2 == g) == fx, lambda: f"equality after changing {node}.{var} (fixed={fx}) is {c2 == g}")
        for node in list(c.states):
            for var in list(c.states[node]):
                v = c.states[node][var]
                if isinstance(v, np.ndarray) and v.dtype.kind == "f":
                    v += 31.0
        for (a, b), w in st.m.items():
            got = g[f"{a}.{b}"]
            ctx.check(_same_vals(list(got) if n > 1 else got, val(w)), lambda: f"{a}.{b} changed through a copy: {got}")
        # Writing to slices and copies (and fixing their values) fixed nothing in the store.
        for node in NODES:
            for var in VARS:
                if (node, var) in st.m:
                    i = st.g.extract_single_sample(0)
                    i.set(node, var, -31.0)
                    kept = _same_vals(i[f"{node}.{var}"], st.m[(node, var)][0])
                    ctx.check(((node, var) in st.fixed) == kept, lambda: f"{node}.{var} in a new slice: fixed is {kept}")


def _same_vals(got, want):
    if isinstance(want, list):
        return len(got) == len(want) and all(_same_vals(x, y) for x, y in zip(got, want))
    if want is None or isinstance(want, str):
        return got is None if want is None else str(got) == want
    try:
        return np.ndim(got) == 0 and bool(got == want)
    except Exception:  # noqa: BLE001
        return False


def _same_row(row, want):
    return set(row) == set(want) and all(_same_vals(row[k], want[k]) for k in want)


def sec_histories(ctx):
    for n in (1, 2, 3):
        bfs(ctx, f"n{n}", Store(n, ctx.tier == "thorough"), ctx.pick(3, 4 if n == 2 else 3))


def sec_vectors(ctx):
    """Single-sample states may hold vector values; copies and force_copy must isolate them too."""
    from lightcurvelynx.graph_state import GraphState

    for path in ("set", "update_dict", "update_state", "copy", "from_dict"):
        for who in ("source", "copy"):

            def go(path=path, who=who):
                vec = np.array([1.0, 2.0, 3.0])
                if path == "set":
                    g = GraphState(1)
                    g.set("A", "x", vec, force_copy=True)
                elif path == "update_dict":
                    g = GraphState(1)
                    g.update({"A": {"x": vec}}, force_copy=True)
                elif path == "update_state":
                    o = GraphState(1)
                    o.set("A", "x", vec)
                    g = GraphState(1)
                    g.update(o, force_copy=True)
                elif path == "from_dict":
                    g = GraphState.from_dict({"A.x": vec})
                else:
                    o = GraphState(1)
                    o.set("A", "x", vec)
                    g = o.copy()
                if who == "source":
                    vec += 10.0
                else:
                    c = g.copy()
                    c["A.x"][0] = 99.0
                ctx.step(2)
                ctx.eq(g["A.x"], np.array([1.0, 2.0, 3.0]), f"{path}/{who}: stored vector changed through an alias")
                ctx.outcome(f"{path}-{who}")
                ctx.state((path, who))

            ctx.case({"path": path, "mutate": who}, go)


def sec_construct(ctx):
    """Construction: any non-positive number of samples is rejected, any positive accepted."""
    from lightcurvelynx.graph_state import GraphState

    for n in range(-3, 6):

        def go(n=n):
            if n < 1:
                ctx.raises(ValueError, lambda: GraphState(n), f"GraphState({n})")
                ctx.outcome("rejected")
            else:
                g = GraphState(n)
                ctx.eq((g.num_samples, len(g), list(g.get_all_params_names())), (n, 0, []), "empty state")
                ctx.outcome("ok")
            ctx.state(n)

        ctx.case({"n": n}, go)


def sec_equality(ctx):
    """Two states are equal exactly if they hold the same samples, nodes, parameters, values and fixed flags."""
    from lightcurvelynx.graph_state import GraphState

    pool = {
        1: [1.0, 2.5, "a", None, [1.0, 2.0], [1.0, 3.0], [1.0, 2.0, 3.0], [1.0, 1.0], [1.0], True],
        2: [1.0, [1.0, 2.5], [1.0, 1.0], [2.5, 1.0], ["a", "b"], ["a", "c"], [None, 1.0], "a"],
        3: [1.0, [1.0, 1.0, 2.5], [1.0, 2.5, 1.0], ["a", "b", "c"], None],
    }
    where = [("A", "x"), ("A", "y"), ("B", "x")]

    def build(n, content):
        g = GraphState(n)
        for (node, var), value, fixed in content:
            value = np.array(value, dtype=object if None in value else None) if isinstance(value, list) else value
            g.set(node, var, value, fixed=fixed)
        return g

    def model(n, content):
        out = {}
        for key, value, fixed in content:
            if n > 1 and not isinstance(value, list):
                value = [value] * n
            out[key] = (value, fixed)
        return n, out

    contents = {}
    for n in (1, 2, 3):
        one = [((w, v, f),) for w in where for v in pool[n] for f in (False, True)]
        few = pool[n][:3]
        two = [((a, v, False), (b, u, f)) for a, b in itertools.permutations(where, 2) for v in few for u in few for f in (False, True)]
        three = [tuple((w, few[k], False) for w, k in zip(where, ks)) for ks in itertools.product(range(2), repeat=3)]
        contents[n] = [(), *one, *two, *three]

    def go(n, m, a, b):
        ctx.step()
        ga, gb = build(n, a), build(m, b)
        want = model(n, a) == model(m, b)
        for x, y in ((ga, gb), (gb, ga)):
            ctx.check(bool(x == y) == want, lambda: f"states {a} and {b} ({n} and {m} samples) compare as {not want}")
            ctx.check(bool(x != y) == (not want), lambda: f"inequality of {a} and {b} ({n} and {m} samples)")
        if a == b and n == m:
            ctx.check(ga.copy() == gb, "a copy differs")
        ctx.outcome("equal" if want else "different")

    for n in (1, 2, 3):
        for i, a in enumerate(contents[n]):
            ctx.state((n, i))
            near = [b for b in contents[n] if len(b) == len(a) <= 1 or {w[0] for w in b} == {w[0] for w in a} or (len(a) == 2 and len(b) == 1 and b[0] in a)]
            for j, b in enumerate(near + [()]):
                ctx.case([n, i, j], go, n, n, a, b)
            for m in (1, 2, 3):
                if m != n and all(not isinstance(w[1], list) for w in a):
                    ctx.case([n, i, "samples", m], go, n, m, a, a)
            ctx.case([n, i, "renamed"], go, n, n, a, tuple(((w[0][0] + "2", w[0][1]), *w[1:]) for w in a))
            ctx.case([n, i, "other parameter"], go, n, n, a, tuple(((w[0][0], w[0][1] + "2"), *w[1:]) for w in a))


SECTIONS = [("equality", sec_equality, (4, 4)), ("histories", sec_histories, (8, 8)), ("vectors", sec_vectors), ("construct", sec_construct)]
