"""N01: expression nodes accept arithmetic only, and every back end gives the ordinary value for every sample."""

import itertools
import math

import numpy as np

ID = "N01"
RULE = (
    "every expression tree of the grammar up to the depth bound, on every back end, for single samples and batches, "
    "against an independent evaluator; every construct of the Python grammar that is not arithmetic, in every "
    "position; a state is (expression, back end, samples)"
)
ASSUMPTIONS = [
    "values outside a function's real domain are not compared, nor negative powers of integers",
    "the jax back end is checked in double precision",
]

F1 = {
    "abs": abs, "acos": math.acos, "acosh": math.acosh, "asin": math.asin, "asinh": math.asinh, "atan": math.atan,
    "cos": math.cos, "cosh": math.cosh, "ceil": math.ceil, "degrees": math.degrees, "deg2rad": math.radians,
    "exp": math.exp, "fabs": math.fabs, "floor": math.floor, "log": math.log, "log10": math.log10, "log2": math.log2,
    "radians": math.radians, "rad2deg": math.degrees, "sin": math.sin, "sinh": math.sinh, "sqrt": math.sqrt,
    "tan": math.tan, "tanh": math.tanh, "trunc": math.trunc,
}  # fmt: skip
F2 = {"atan2": math.atan2, "pow": math.pow, "power": math.pow, "max": max, "min": min}
OPS = {
    "+": lambda a, b: a + b,
    "-": lambda a, b: a - b,
    "*": lambda a, b: a * b,
    "/": lambda a, b: a / b,
    "//": lambda a, b: a // b,
    "%": lambda a, b: a % b,
    "**": lambda a, b: a**b,
}
LEAVES = ["a", "b", "2", "0.5", "pi", "e"]
AVALS = [1.25, -0.5, 3.0]
BVALS = [2.0, 0.75, -1.5]


def ev(t, env):
    if isinstance(t, str):
        if t in env:
            return env[t]
        if t == "pi":
            return math.pi
        if t == "e":
            return math.e
        return float(t)
    if t[0] == "neg":
        return -ev(t[1], env)
    if t[0] == "pos":
        return +ev(t[1], env)
    if t[0] in OPS:
        v = OPS[t[0]](ev(t[1], env), ev(t[2], env))
    elif t[0] in F1:
        v = F1[t[0]](ev(t[1], env))
    else:
        args = [ev(x, env) for x in t[1:]]
        if t[0] == "atan2" and args[0] == 0 and args[1] <= 0:
            raise ValueError("on the branch cut, where the sign of zero decides")
        v = F2[t[0]](*args)
    if isinstance(v, complex) or not math.isfinite(v) or abs(v) > 1e100:
        raise ValueError("outside of the real domain")
    return v


def text(t):
    if isinstance(t, str):
        return t
    if t[0] == "neg":
        return f"(-{text(t[1])})"
    if t[0] == "pos":
        return f"(+{text(t[1])})"
    if t[0] in OPS:
        return f"({text(t[1])} {t[0]} {text(t[2])})"
    return f"{t[0]}({', '.join(text(x) for x in t[1:])})"


def level(prev, leaves, f1=None, f2=None, ops=None):
    f1 = F1 if f1 is None else f1
    f2 = F2 if f2 is None else f2
    ops = OPS if ops is None else ops
    for t in prev:
        yield ("neg", t)
        yield ("pos", t)
        for f in f1:
            yield (f, t)
        for u in leaves:
            for o in ops:
                yield (o, t, u)
                if u != t:
                    yield (o, u, t)
            for f in f2:
                yield (f, t, u)
                if u != t:
                    yield (f, u, t)


def jax64():
    import jax

    jax.config.update("jax_enable_x64", True)




def check_expr(ctx, t, backends, tol=1e-9):
    from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    s = t if isinstance(t, str) and not t.isidentifier() and t[0] not in "0123456789" else text(t)
    want = []
    for a, b in zip(AVALS, BVALS):
        try:
            want.append(ev(t, {"a": a, "b": b}))
        except (ValueError, ZeroDivisionError, OverflowError):
            want.append(None)
    for be in backends:
        for n in (1, 3):
            if n == 3 and be == "math":
                continue  # the math library takes single values
            for first in ([0, 1, 2] if n == 1 else [0]):
                env = {"a": AVALS[first : first + n], "b": BVALS[first : first + n]}
                w = want[first : first + n]
                node = BasicMathNode(s, backend=be, node_label="m", a=GivenValueList(env["a"]), b=GivenValueList(env["b"]))
                ctx.step()
                how, st = ctx.attempt(lambda: node.sample_parameters(num_samples=n))
                if all(x is None for x in w):
                    ctx.state((s, be, n, "outside"))
                    continue
                if not ctx.check(how == "ok", lambda: f"{s} on {be} with {env} raised {st!r}, expected {w}"):
                    continue
                got = np.asarray(st["m.function_node_result"], dtype=float)
                if not ctx.check(got.shape == (() if n == 1 else (n,)), lambda: f"{s} on {be}: shape {got.shape} for {n} samples"):
                    continue
                for k, v in enumerate(np.atleast_1d(got)):
                    if w[k] is None:
                        continue
                    ctx.check(
                        abs(v - w[k]) <= tol * max(1.0, abs(w[k])),
                        lambda: f"{s} on {be}: sample {k} of {env} is {v}, expected {w[k]}",
                    )
                # the same expression evaluated directly, without a graph
                give = {k: np.array(v) if n > 1 else v[0] for k, v in env.items()}
                how, direct = ctx.attempt(lambda: node.eval(**give))
                if ctx.check(how == "ok", lambda: f"eval of {s} on {be} with {give} raised {direct!r}"):
                    direct = np.asarray(direct, dtype=float)
                    ctx.check(
                        direct.shape in ((), got.shape) and np.array_equal(np.broadcast_to(direct, got.shape), got, equal_nan=True),
                        lambda: f"eval of {s} on {be} with {give} is {direct}, in a graph {got}",
                    )
                ctx.state((s, be, n))
    ctx.outcome("value")


def sec_depth1(ctx):
    jax64()
    for t in itertools.chain(LEAVES, level(LEAVES, LEAVES)):
        ctx.case({"e": t}, check_expr, ctx, t, ("math", "numpy", "jax"))


def sec_depth2(ctx):
    jax64()
    if ctx.tier == "quick":
        f1 = ["sin", "abs", "sqrt", "floor", "exp"]
        leaves, inner_leaves = ["a", "b"], ["a", "b"]
        backends = ("math", "numpy")
    else:
        f1 = list(F1)
        leaves, inner_leaves = ["a", "b", "2.0"], ["a", "b", "2.0"]
        backends = ("math", "numpy", "jax")
    inner = list(level(inner_leaves, inner_leaves, f1, F2, OPS))
    for t in level(inner, leaves, f1, F2, OPS):
        if not safe_steps(t):
            continue
        ctx.case({"e": t}, check_expr, ctx, t, backends, 1e-7)


STEPS = ("floor", "ceil", "trunc", "//", "%")


def safe_steps(t):
    """Step functions of inexact arguments are left out: rounding may put them on either side."""
    if isinstance(t, str):
        return True
    if t[0] in STEPS:
        return all(exact(x) for x in t[1:])
    return all(safe_steps(x) for x in t[1:])


def exact(t):
    if isinstance(t, str):
        return t not in ("pi", "e")
    return t[0] in ("neg", "pos", "abs", "+", "-", "*", "max", "min") and all(exact(x) for x in t[1:])


def sec_precedence(ctx):
    """Flat operator sequences without parentheses follow Python's precedence, on every back end."""
    from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode

    jax64()
    for ops in itertools.product(OPS, repeat=3):
        for sign in ("", "-"):
            s = f"{sign}a {ops[0]} b {ops[1]} c {ops[2]} 2"

            def go(s=s):
                env = {"a": 7.0, "b": 2.0, "c": 3.0}
                try:
                    want = eval(s, {}, dict(env))  # noqa: S307  our own fixed strings
                except OverflowError:
                    return
                if isinstance(want, complex):
                    return
                for be in ("math", "numpy", "jax"):
                    node = BasicMathNode(s, backend=be, node_label="m", **env)
                    got = float(node.sample_parameters()["m.function_node_result"])
                    ctx.check(abs(got - want) <= 1e-9 * max(1, abs(want)), lambda: f"{s} on {be} is {got}, expected {want}")
                    ctx.step()
                ctx.state(s)
                ctx.outcome("flat")

            ctx.case({"e": s}, go)


def sec_names(ctx):
    """A declared variable wins over a constant of the same name; more than two arguments; integer values; one
    expression feeding another."""
    from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
    from lightcurvelynx.math_nodes.given_sampler import GivenValueList

    jax64()

    def run(s, be, n, want, **kw):
        kw = {k: (GivenValueList(v) if isinstance(v, list) and n > 1 else (v[0] if isinstance(v, list) else v)) for k, v in kw.items()}
        node = BasicMathNode(s, backend=be, node_label="m", **kw)
        got = np.atleast_1d(np.asarray(node.sample_parameters(num_samples=n)["m.function_node_result"], dtype=float))
        ctx.eq(got, np.array(want[:n], dtype=float), f"{s} on {be} with {n} samples")
        ctx.state((s, be, n))
        ctx.outcome("names")

    table = [
        ("e + pi", {"e": [10.0, 20.0, 30.0], "pi": 5.0}, [15.0, 25.0, 35.0]),
        ("2 * e", {"e": [1, 2, 3]}, [2, 4, 6]),
        ("max(a, b, 2)", {"a": [1.0, 5.0, -1.0], "b": [3.0, 4.0, -2.0]}, [3, 5, 2]),
        ("min(a, b, 2)", {"a": [1.0, 5.0, -1.0], "b": [3.0, 4.0, -2.0]}, [1, 2, -2]),
        ("max(a, b, 2, 7)", {"a": [1.0, 5.0, 9.0], "b": [3.0, 4.0, 8.0]}, [7, 7, 9]),
        ("min(4, 3, a, b, -a)", {"a": [1.0, 5.0, -9.0], "b": [3.0, -6.0, -8.0]}, [-1, -6, -9]),
        ("max(a, 0)", {"a": [1.0, -5.0, 4.0]}, [1, 0, 4]),
        ("min(a, 0)", {"a": [1.0, -5.0, 4.0]}, [0, -5, 0]),
        ("max(a, b) - min(a, b)", {"a": [1.0, -5.0, 4.0], "b": [2, 2, 2]}, [1, 7, 2]),
        ("a // b + a % b", {"a": [7, 9, -7], "b": [2, 4, 3]}, [4, 3, -1]),
        ("a + 1", {"a": [1, 2, 3]}, [2, 3, 4]),
        ("10.0", {}, [10.0] * 3),
        ("-a", {"a": [1, 2, 3]}, [-1, -2, -3]),
        ("abs(a) / 2", {"a": [-1, 2, -3]}, [0.5, 1, 1.5]),
        ("sin + 1", {"sin": [1.0, 2.0, 3.0]}, [2.0, 3.0, 4.0]),
    ]
    for s, kw, want in table:
        for be in ("math", "numpy", "jax"):
            for n in (1, 3):
                if be == "math" and n > 1:
                    continue
                ctx.case(
                    {"e": s, "be": be, "n": n}, lambda s=s, be=be, n=n, want=want, kw=kw: run(s, be, n, want, **kw)
                )

    def chained():
        for be1, be2 in itertools.product(("numpy", "jax"), repeat=2):
            a = BasicMathNode("2 * x + 1", backend=be1, x=GivenValueList([1.0, 2.0, 3.0, 4.0]))
            b = BasicMathNode("y * y - x", backend=be2, x=a, y=a, node_label="m")
            st = b.sample_parameters(num_samples=3)
            ctx.eq(np.asarray(st["m.function_node_result"], float), np.array([6.0, 20.0, 42.0]), f"{be1} into {be2}")

    ctx.case({"what": "chained"}, chained)
    for name in ("numpy", "math", "jax"):
        ctx.case({"backend": name}, lambda name=name: BasicMathNode("a", backend=name, a=1.0))
    for bad in ("np", "", "torch", "Numpy", None):
        ctx.case({"bad backend": bad}, lambda bad=bad: ctx.raises(ValueError, lambda: BasicMathNode("a", backend=bad, a=1.0), f"backend {bad}"))


BAD_EXPR = [
    "a if b else a", "lambda: 1", "lambda x: x", "[1, 2]", "[a]", "(1, 2)", "()", "{1: 2}", "{1}", "[i for i in a]",
    "{i for i in a}", "{i: i for i in a}", "(i for i in a)", "f'{a}'", "a.real", "a.__class__", "a.__class__.__mro__",
    "a[0]", "a[0:1]", "a < b", "a == b", "a in b", "a is b", "a and b", "a or b", "not a", "(z := 1)", "a @ b", "a | b",
    "a & b", "a ^ b", "a << 1", "a >> 1", "open('f')", "exec('1')", "eval('1')", "compile('1', '', 'eval')",
    "__import__('os')", "__import__('os').system('true')", "getattr(a, 'b')", "print(1)", "sum(a, b)", "round(a)",
    "np.sin(a)", "math.sin(a)", "jnp.sin(a)", "np", "math", "os.system('true')", "globals()", "vars()", "sin(x=a)",
    "sin(*a)", "sin(**a)", "a()", "a(b)", "(lambda: 1)()", "[].append(1)", "c", "undeclared + 1", "sin(c)", "int(a)",
    "self", "self.expression", "kwargs", "params", "__builtins__", "sin.__globals__", "sin(a)(b)", "sin(a).real",
    "type(a)", "''.join(a)", "abs.__self__", "mean(a)", "median(a, b)", "std(a)", "np.load('f')", "breakpoint()",
    "help()", "input()", "exit()", "ast.parse('1')", "BasicMathNode", "FunctionNode", "_np_max(a, b)", "eval_func",
    "await a", "yield a", "yield from a", "*a", "...x", "a.sin(b)", "sin(a, out=b)", "a if True else b",
]  # fmt: skip
BAD_STMT = [
    "import os", "from os import path", "x = 1", "a = 1", "a += 1", "a: int", "a: int = 1", "del a", "assert a", "pass",
    "raise a", "return a", "global a", "for i in a: 1", "while a: 1", "if a: 1", "def f(): 1", "class C: 1",
    "with a: 1", "try: 1\nexcept: 2", "break", "match a:\n case 1: 2", "async def f(): 1", "type X = int",
    "a\nimport os", "a; import os", "import os; a", "nonlocal a", "@a\ndef f(): 1", "a,", "a = b = 1", "print(a) ; a",
]  # fmt: skip
CONTEXTS = ["{}", "({})", "sin({})", "a + {}", "({}) * 2", "-({})", "max(a, {})", "2 ** ({})", "abs(sqrt({}) + b)"]


def sec_rejected(ctx):
    from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode

    for be in ("math", "numpy", "jax"):
        for bad in BAD_EXPR:
            for c in CONTEXTS:
                s = c.format(bad)

                def go(s=s, be=be):
                    ctx.raises((ValueError, SyntaxError), lambda: BasicMathNode(s, backend=be, a=1.0, b=2.0), f"{s!r} on {be}")
                    ctx.state((s, be))
                    ctx.outcome("rejected")

                ctx.case({"e": s, "be": be}, go)
        for s in BAD_STMT:
            ctx.case(
                {"e": s, "be": be},
                lambda s=s, be=be: ctx.raises((ValueError, SyntaxError), lambda: BasicMathNode(s, backend=be, a=1.0, b=2.0), repr(s)),
            )

    def shadow():
        # declaring a name as a variable does not make it callable
        for f in ("open", "exec", "eval", "__import__", "getattr", "c"):
            ctx.raises(ValueError, lambda: BasicMathNode(f"{f}(a)", a=1.0, **{f: 2.0}), f"call of the variable {f}")

    ctx.case({"what": "shadow"}, shadow)


SECTIONS = [
    ("depth1", sec_depth1, 4),
    ("depth2", sec_depth2, 8),
    ("precedence", sec_precedence),
    ("names", sec_names),
    ("rejected", sec_rejected),
]
