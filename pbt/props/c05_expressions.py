import ast
import math
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
from lightcurvelynx.math_nodes.given_sampler import GivenValueList
from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode

from ..core import Reject, check, describe, fail, require
from ..gen import fd, fl

describe(
    "C05",
    "Cases are expressions generated from a grammar over all supported operators, functions, constants and 1-3 "
    "named inputs, evaluated for 1-5 samples with the numpy, math and jax backends, plus expressions with one "
    "forbidden construct spliced in; non-trivial when the expression nests at least two operations and is "
    "well conditioned (estimated rounding error below 1e-6, or 1e-2 in single precision).",
    [
        "named inputs hold floats, or integers in expressions whose value has no integer overflow",
        "the math backend is used with one sample",
        "samples outside the real domain of the expression are not compared",
    ],
)

VARS = ["x", "y", "host_z", "e", "pi", "t0"]
UNARY = {
    "abs": abs, "acos": math.acos, "acosh": math.acosh, "asin": math.asin, "asinh": math.asinh, "atan": math.atan,
    "cos": math.cos, "cosh": math.cosh, "ceil": lambda v: float(math.ceil(v)), "degrees": math.degrees,
    "deg2rad": math.radians, "exp": math.exp, "fabs": math.fabs, "floor": lambda v: float(math.floor(v)),
    "log": math.log, "log10": math.log10, "log2": math.log2, "radians": math.radians, "rad2deg": math.degrees,
    "sin": math.sin, "sinh": math.sinh, "sqrt": math.sqrt, "tan": math.tan, "tanh": math.tanh,
    "trunc": lambda v: float(math.trunc(v)),
}
BINF = {"atan2": math.atan2, "max": max, "min": min, "pow": math.pow, "power": math.pow}
OPS = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
    "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a**b,
}

leaf = st.one_of(
    st.integers(0, 2).map(lambda i: ["var", i]),
    st.integers(0, 2).map(lambda i: ["var", i]),
    st.sampled_from([0.5, 1.5, 2.0, 3.0, 10.0, 0.1, 1e-3, 100.0]).map(lambda v: ["num", v]),
    st.sampled_from(["pi", "e"]).map(lambda v: ["const", v]),
)
tree = st.recursive(
    leaf,
    lambda ch: st.one_of(
        st.tuples(st.just("op"), st.sampled_from(sorted(OPS)), ch, ch).map(list),
        st.tuples(st.just("op"), st.sampled_from(["+", "-", "*", "/"]), ch, ch).map(list),
        st.tuples(st.just("f1"), st.sampled_from(sorted(UNARY)), ch).map(list),
        st.tuples(st.just("f1"), st.sampled_from(["sin", "cos", "exp", "abs", "atan", "tanh"]), ch).map(list),
        st.tuples(st.just("f2"), st.sampled_from(sorted(BINF)), ch, ch).map(list),
        st.tuples(st.just("fn"), st.sampled_from(["max", "min"]), st.lists(ch, min_size=3, max_size=3)).map(list),
        st.tuples(st.just("un"), st.sampled_from("+-"), ch).map(list),
    ),
    max_leaves=8,
)


def render(t, names):
    k = t[0]
    if k == "var":
        return names[t[1] % len(names)]
    if k == "num":
        return repr(t[1])
    if k == "const":
        return t[1]
    if k == "op":
        return f"({render(t[2], names)} {t[1]} {render(t[3], names)})"
    if k == "un":
        return f"({t[1]}{render(t[2], names)})"
    if k == "f1":
        return f"{t[1]}({render(t[2], names)})"
    if k == "f2":
        return f"{t[1]}({render(t[2], names)}, {render(t[3], names)})"
    return f"{t[1]}({', '.join(render(c, names) for c in t[2])})"


class OutOfDomain(Exception):
    pass


def spread(fn, args, eps):
    """Value of fn at args and a bound of its error given the errors of the arguments."""
    vals = [a[0] for a in args]
    try:
        v = fn(*vals)
        err = 0.0
        for i, (a, e) in enumerate(args):
            e = max(e, eps * abs(a))
            for d in (-e, e):
                w = list(vals)
                w[i] = a + d
                r = fn(*w)
                if isinstance(r, complex):
                    raise OutOfDomain
                err = max(err, abs(r - v))
    except (ValueError, OverflowError, ZeroDivisionError) as ex:
        raise OutOfDomain from ex
    if isinstance(v, complex) or not math.isfinite(v) or not math.isfinite(err):
        raise OutOfDomain
    if abs(v) > 1e30 or 0 < abs(v) < 1e-30:
        raise OutOfDomain
    return v, 2.0 * err + 4.0 * eps * abs(v)


def ref(t, env, eps):
    k = t[0]
    if k == "var":
        v = env[1][env[0][t[1] % len(env[0])]]
        return v, eps * abs(v)
    if k == "num":
        return t[1], eps * abs(t[1])
    if k == "const":
        # a named input of this name takes precedence over the constant
        if t[1] in env[1]:
            return env[1][t[1]], eps * abs(env[1][t[1]])
        return (math.pi if t[1] == "pi" else math.e), eps * 3
    if k == "op":
        return spread(OPS[t[1]], [ref(t[2], env, eps), ref(t[3], env, eps)], eps)
    if k == "un":
        return spread((lambda a: -a) if t[1] == "-" else (lambda a: a), [ref(t[2], env, eps)], eps)
    if k == "f1":
        return spread(UNARY[t[1]], [ref(t[2], env, eps)], eps)
    if k == "f2":
        return spread(BINF[t[1]], [ref(t[2], env, eps), ref(t[3], env, eps)], eps)
    return spread(max if t[1] == "max" else min, [ref(c, env, eps) for c in t[2]], eps)


def depth(t):
    subs = [c for c in t[1:] if isinstance(c, list)]
    if t[0] == "fn":
        subs = t[2]
    return (1 if subs else 0) + max([depth(c) for c in subs], default=0)


def has_var(t):
    if t[0] == "var":
        return True
    subs = t[2] if t[0] == "fn" else [c for c in t[1:] if isinstance(c, list)]
    return any(has_var(c) for c in subs)


CASE = fd(
    {
        "tree": tree,
        "names": st.lists(st.sampled_from(VARS), min_size=1, max_size=3, unique=True),
        "vals": st.lists(fl(-4, 4), min_size=15, max_size=15),
        "n": st.integers(1, 5),
        "backend": st.sampled_from(["numpy", "numpy", "jax", "math"]),
        "minimal": st.booleans(),
        "link": st.booleans(),
    }
)


def text_of(case):
    text = render(case["tree"], case["names"])
    if case["minimal"]:
        text = ast.unparse(ast.parse(text, mode="eval"))
    return text


@check("C05", CASE, quick=2000)
def value_equals_the_expression(case, rec):
    names = case["names"]
    backend = case["backend"]
    n = 1 if backend == "math" else case["n"]
    text = text_of(case)
    cols = {nm: case["vals"][5 * j : 5 * j + n] for j, nm in enumerate(names)}
    if backend == "jax":
        cols = {k: [float(np.float32(v)) for v in vs] for k, vs in cols.items()}
    inputs = {}
    for j, nm in enumerate(names):
        if case["link"]:
            inputs[nm] = SingleVariableNode("value", cols[nm][0], node_label=f"in_{nm}").value
        else:
            inputs[nm] = cols[nm][0]
    node = BasicMathNode(text, backend=backend, node_label="expr", **inputs)
    given = None
    if n > 1:
        key = {nm: (f"in_{nm}", "value") if case["link"] else ("expr", nm) for nm in names}
        given = {}
        for nm in names:
            given.setdefault(key[nm][0], {})[key[nm][1]] = np.array(cols[nm])
    eps = 2e-16 if backend != "jax" else 4e-7
    tol = 1e-6 if backend != "jax" else 1e-2
    expected = []
    for i in range(n):
        env = (names, {nm: cols[nm][i] for nm in names})
        try:
            v, err = ref(case["tree"], env, eps)
            expected.append((v, err) if err <= tol * max(abs(v), 1e-3) else None)
        except OutOfDomain:
            expected.append(None)
    if backend == "math" and expected[0] is None:
        raise Reject
    if backend != "math" and all(x is None for x in expected):
        raise Reject
    with np.errstate(all="ignore"):
        state = node.sample_parameters(given_args=given, num_samples=n)
    got = np.asarray(state["expr"]["function_node_result"], dtype=float)
    rec.label(backend, f"depth={min(depth(case['tree']), 4)}", f"n={min(n, 2)}")
    rec.nontrivial(depth(case["tree"]) >= 2)
    if n > 1 and has_var(case["tree"]):
        require(got.shape == (n,), f"{text}: result has shape {got.shape} for {n} samples")
    got = np.broadcast_to(got, (n,))
    for i in range(n):
        if expected[i] is not None:
            v, err = expected[i]
            require(
                abs(got[i] - v) <= 10 * err + 1e-300,
                f"{text} with {({k: c[i] for k, c in cols.items()})} is {got[i]!r} ({backend}), expected {v!r}",
            )
    for k, vs in cols.items():
        if n > 1:
            a, b = ("in_" + k, "value") if case["link"] else ("expr", k)
            require(list(np.asarray(state[a][b])) == vs, "inputs are unchanged")
    # The direct evaluation method
    i = [k for k in range(n) if expected[k] is not None][0]
    with np.errstate(all="ignore"):
        d = float(node.eval(**{nm: cols[nm][i] for nm in names}))
    require(abs(d - expected[i][0]) <= 10 * expected[i][1] + 1e-300, f"eval of {text} is {d!r}")


@check("C05", CASE, quick=250)
def gradients_carry_the_same_value(case, rec):
    import jax

    names = case["names"]
    t = case["tree"]
    if not has_var(t):
        raise Reject
    text = text_of(case)
    vals = {nm: float(np.float32(case["vals"][j])) for j, nm in enumerate(names)}
    try:
        v, err = ref(t, (names, vals), 4e-7)
        if err > 1e-3 * max(abs(v), 1e-3):
            raise Reject
        slopes = {}
        for nm in names:
            h = 1e-6 * max(1.0, abs(vals[nm]))
            up, _ = ref(t, (names, {**vals, nm: vals[nm] + h}), 2e-16)
            dn, _ = ref(t, (names, {**vals, nm: vals[nm] - h}), 2e-16)
            up2, _ = ref(t, (names, {**vals, nm: vals[nm] + 2 * h}), 2e-16)
            slopes[nm] = ((up - dn) / (2 * h), abs((up2 - up) / h - (up - dn) / (2 * h)))
    except OutOfDomain:
        raise Reject from None
    nodes = {nm: SingleVariableNode("value", vals[nm], node_label=f"in_{nm}") for nm in names}
    node = BasicMathNode(text, backend="jax", node_label="expr", **{nm: nodes[nm].value for nm in names})
    state = node.sample_parameters()
    pytree = node.build_pytree(state)
    value, grads = jax.value_and_grad(lambda p: node.generate(given_args=p) * 1.0)(pytree)
    require(abs(float(value) - v) <= 10 * err + 1e-30, f"{text} is {value!r} when differentiated, expected {v!r}")
    rec.nontrivial(depth(t) >= 2)
    for nm in names:
        g = float(grads[f"in_{nm}"]["value"])
        s, unc = slopes[nm]
        if np.isfinite(g) and unc < 1e-2 * abs(s) and abs(s) > 1e-2 and "%" not in text and "//" not in text:
            require(abs(g - s) <= 0.05 * abs(s) + 1e-2 + 3 * unc, f"d({text})/d{nm} is {g!r}, expected {s!r}")
            rec.label("slope compared")


DOMAIN = {
    "acos": (-1, 1), "acosh": (1, 9), "asin": (-1, 1), "cosh": (-5, 5), "sinh": (-5, 5), "exp": (-9, 9), "log": (0.01, 60),
    "log10": (0.01, 900), "log2": (0.01, 900), "sqrt": (0, 90), "tan": (-1.4, 1.4),
}


@check(
    "C05",
    fd({"seed": st.integers(0, 10**6), "n": st.integers(1, 6), "backend": st.sampled_from(["numpy", "jax", "math"])}),
    quick=24,
)
def every_function_and_operator(case, rec):
    """All functions, operators and constants in every case, over their domains, with 1-6 samples."""
    rng = np.random.default_rng([case["seed"], 77])
    backend = case["backend"]
    n = 1 if backend == "math" else case["n"]
    eps = 2e-16 if backend != "jax" else 4e-7

    def draw(lo, hi, k):
        v = rng.uniform(lo, hi, size=k)
        return v.astype(np.float32).astype(float) if backend == "jax" else v

    jobs = []
    for name, fn in UNARY.items():
        lo, hi = DOMAIN.get(name, (-7, 7))
        jobs.append((f"{name}(x)", ["f1", name, ["var", 0]], {"x": draw(lo, hi, n)}))
    for name, fn in BINF.items():
        lo = 0.05 if name in ("pow", "power") else -6
        jobs.append((f"{name}(x, y)", ["f2", name, ["var", 0], ["var", 1]], {"x": draw(lo, 5, n), "y": draw(-4, 6, n)}))
    for name in ("max", "min"):
        jobs.append((f"{name}(x, y, z)", ["fn", name, [["var", 0], ["var", 1], ["var", 2]]],
                     {k: draw(-6, 6, n) for k in "xyz"}))
        jobs.append((f"{name}(z, 0.5, x, y)", ["fn", name, [["var", 2], ["num", 0.5], ["var", 0], ["var", 1]]],
                     {k: draw(-6, 6, n) for k in "xyz"}))
    for name in OPS:
        lo = 0.05 if name == "**" else -6
        jobs.append((f"x {name} y", ["op", name, ["var", 0], ["var", 1]], {"x": draw(lo, 6, n), "y": draw(-6, 6, n)}))
    for name in "+-":
        jobs.append((f"{name}x", ["un", name, ["var", 0]], {"x": draw(-6, 6, n)}))
    for name in ("pi", "e"):
        jobs.append((f"x * {name}", ["op", "*", ["var", 0], ["const", name]], {"x": draw(-6, 6, n)}))
    for text, t, cols in jobs:
        node = BasicMathNode(text, backend=backend, node_label="expr", **{k: float(v[0]) for k, v in cols.items()})
        given = {"expr": {k: v for k, v in cols.items()}} if n > 1 else None
        got = np.broadcast_to(np.asarray(node.generate(given_args=given, num_samples=n), dtype=float), (n,))
        names = sorted(cols)
        for i in range(n):
            try:
                v, err = ref(t, (names, {k: float(c[i]) for k, c in cols.items()}), eps)
            except OutOfDomain:
                continue
            if err > 1e-2 * max(abs(v), 1e-3):
                continue
            require(abs(got[i] - v) <= 10 * err + 1e-300,
                    f"{text} with {({k: float(c[i]) for k, c in cols.items()})} is {got[i]!r} ({backend}), expected {v!r}")
    rec.nontrivial()
    rec.label(backend)


INT_TEXTS = ["x", "x + 0.5", "x * 1.0 - y", "x / 4", "(x + y) / 2", "max(x, y)", "min(x, y, 0.5)", "x // 3", "x % 7", "-x",
             "sqrt(abs(x)) * 0.5", "x - y", "x * 0.125 + y", "abs(x)", "floor(x / 3)", "degrees(x * 0.001)", "+x"]


@check(
    "C05",
    fd({"seed": st.integers(0, 10**6), "n": st.integers(1, 6), "big": st.booleans(), "jax": st.booleans(),
        "dtype": st.sampled_from(["int32", "int64", "python"]), "text": st.sampled_from(INT_TEXTS)}),
    quick=250,
)
def integer_inputs(case, rec):
    rng = np.random.default_rng([case["seed"], 77])
    n = case["n"]
    lim = {"int32": 2**29, "int64": 2**50, "python": 2**50}[case["dtype"]]
    if not case["big"] or case["jax"]:
        lim = min(lim, 2000)
    text = case["text"]
    x, y = rng.integers(-lim, lim, size=n), rng.integers(-lim, lim, size=n)
    src = {}
    for k, v in (("x", x), ("y", y)):
        a = v.astype(case["dtype"]) if case["dtype"] != "python" else [int(q) for q in v]
        src[k] = GivenValueList(a, node_label=f"in_{k}")
    names = [k for k in "xy" if k in text.replace("max", "").replace("min", "")]
    backend = "jax" if case["jax"] else "numpy"
    node = BasicMathNode(text, backend=backend, node_label="expr", **{k: src[k] for k in names})
    got = np.atleast_1d(np.asarray(node.generate(num_samples=n), dtype=float))
    require(got.shape == (n,), f"{text}: shape {got.shape}")
    for i in range(n):
        env = {"x": int(x[i]), "y": int(y[i]), "sqrt": math.sqrt, "floor": math.floor, "degrees": math.degrees,
               "abs": abs, "max": max, "min": min}
        v = float(eval(text, {"__builtins__": {}}, env))  # the reference: Python's own arithmetic
        tol = 1e-15 if not case["jax"] else 1e-6
        require(abs(got[i] - v) <= 4 * tol * (abs(v) + abs(float(x[i])) + abs(float(y[i]))),
                f"{text} with x={x[i]}, y={y[i]} ({case['dtype']}) is {got[i]!r} ({backend}), expected {v!r}")
    rec.nontrivial(n > 1)
    rec.label(case["dtype"], backend)


BAD = [
    "__import__('os').system('touch {flag}')", "open('{flag}', 'w')", "open('{flag}', 'w').write('x')",
    "(lambda: open('{flag}', 'w'))()", "[open('{flag}', 'w') for q in (1,)]", "{{open('{flag}', 'w')}}",
    "eval('open(\"{flag}\", \"w\")')", "exec('open(\"{flag}\", \"w\")')", "np.save('{flag}', 1)",
    "np.sin({v})", "math.sin({v})", "jnp.exp({v})", "{v}.__class__", "{v}.real", "{v}[0]", "({v}, 1.0)", "[{v}]",
    "({v} if {v} else 1.0)", "({v} and 1.0)", "({v} < 1.0)", "(not {v})", "unknown_var", "getattr({v}, 'real')",
    "f'{{{v}}}'", "(q := {v})", "globals()", "print({v})", "median({v})", "({v} @ {v})", "self", "kwargs", "params",
    "np", "math", "jnp", "ast", "FunctionNode", "sin.__call__({v})", "math", "expression", "__builtins__",
    "sin(*[{v}])", "max(**{{'a': {v}}})", "breakpoint()", "type({v})", "str({v})", "reduce(max, [{v}])", "sum({v})",
    "round({v})", "int({v})", "float({v})", "{v}[{v}]", "{{'a': {v}}}", "(yield {v})", "({v} | {v})", "({v} << 2)",
    "({v} is {v})", "({v} in {v})", "(lambda q: q)({v})", "sin({v})(1.0)", "{v}(1.0).x()",
]
STATEMENTS = [
    "import os", "q = {e}", "{e}; {e}", "open('{flag}', 'w')\n{e}", "del {v}", "{e}\nq = 1", "def f(): return {v}",
    "class Q: pass", "for q in [1]: pass", "while 0: pass", "assert {v}", "raise ValueError", "from os import path",
    "global q", "pass", "with {v}: pass", "return {v}",
]


@check(
    "C05",
    fd(
        {
            "tree": tree,
            "names": st.lists(st.sampled_from(VARS), min_size=1, max_size=3, unique=True),
            "bad": st.integers(0, len(BAD) - 1),
            "stmt": st.integers(-60, len(STATEMENTS) - 1),
            "op": st.sampled_from(sorted(OPS) + ["call", "alone", "left"]),
            "backend": st.sampled_from(["numpy", "jax", "math"]),
        }
    ),
    quick=1200,
)
def anything_else_is_refused(case, rec):
    names = case["names"]
    e = render(case["tree"], names)
    v = names[0]
    with tempfile.TemporaryDirectory() as tmp:
        flag = os.path.join(tmp, "flag")
        if case["stmt"] >= 0:
            text = STATEMENTS[case["stmt"]].format(flag=flag, v=v, e=e)
        else:
            b = BAD[case["bad"]].format(flag=flag, v=v)
            text = {
                "call": f"sin({b}) + {e}",
                "alone": b,
                "left": f"{b} * {e}",
            }.get(case["op"], f"{e} {case['op']} {b}")
        rec.nontrivial(depth(case["tree"]) >= 1)
        try:
            node = BasicMathNode(text, backend=case["backend"], **{nm: 1.5 for nm in names})
        except (ValueError, SyntaxError) as ex:
            if isinstance(ex, SyntaxError):
                try:
                    ast.parse(text)
                except SyntaxError:
                    node = None
                else:
                    fail(f"{text!r}: SyntaxError for valid python")
            node = None
        require(not os.path.exists(flag), f"{text!r} was executed")
        require(node is None, f"{text!r} was accepted")


@check(
    "C05",
    fd({"names": st.lists(st.sampled_from(["x", "y", "z"]), min_size=1, max_size=3, unique=True), "tree": tree,
        "backend": st.sampled_from(["numpy", "jax", "math"])}),
    quick=300,
)
def missing_inputs_and_backends(case, rec):
    names = case["names"]
    t = case["tree"]
    text = render(t, names)
    used = [nm for nm in names if has_var(t) and nm in {n.id for n in ast.walk(ast.parse(text)) if isinstance(n, ast.Name)}]
    for nm in used:
        rest = {k: 1.0 for k in names if k != nm}
        try:
            BasicMathNode(text, backend=case["backend"], **rest)
        except ValueError:
            continue
        fail(f"{text!r} was accepted without {nm}")
    rec.nontrivial(len(used) > 1)
    for b in ("torch", "", "np"):
        try:
            BasicMathNode(text, backend=b, **{k: 1.0 for k in names})
        except ValueError:
            continue
        fail(f"backend {b!r} was accepted")
    require(isinstance(BasicMathNode(text, backend=case["backend"], **{k: 1.0 for k in names}), FunctionNode), "node")
    missing = (set(UNARY) | set(BINF) | {"pi", "e"}) - set(BasicMathNode.list_functions())
    require(not missing, f"documented functions {missing} are not listed")
