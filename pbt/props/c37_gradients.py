import jax
import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.base_models import FunctionNode, ParameterizedNode
from lightcurvelynx.math_nodes.basic_math_node import BasicMathNode
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc

from .. import zoo
from ..core import check, describe, require
from ..gen import fd, seeds

describe(
    "C37",
    "Cases are graphs of parameter holders, functions, expressions and random nodes whose parameters are constants, links or "
    "function results, declared differentiable or not, with one or several samples, and physical models (also sums and "
    "selections); the extracted tree is compared with one derived from the description of the graph, resampled from, "
    "changed in one place, and differentiated by JAX against finite differences of a plain evaluation; non-trivial when the "
    "tree holds values of at least two nodes.",
    ["JAX computes in single precision: gradients are compared to 2e-3 of their scale"],
)


class Holder(ParameterizedNode):
    def __init__(self, a, b, flags, **kwargs):
        super().__init__(**kwargs)
        for name, value in (("a", a), ("b", b)):
            self.add_parameter(name, value, **({} if flags[name] is None else {"allow_gradient": flags[name]}))


OPS = {
    "sum": lambda a, b: a + 2.0 * b,
    "product": lambda a, b: a * b + b,
    "ratio": lambda a, b: a / (b * b + 2.0),
    "square": lambda a, b: a * a - 0.5 * b,
}
SOURCE = fd({"what": st.sampled_from(["const", "link", "const", "func"]), "value": st.sampled_from([0.5, -1.25, 2.0, 0.1, 1.0]), "to": st.integers(0, 20), "p": st.sampled_from(["a", "b"]), "flag": st.sampled_from([None, None, True, False]), "late": st.booleans()})
NODE = fd({"kind": st.sampled_from(["holder", "function", "expression", "random"]), "op": st.sampled_from(sorted(OPS)), "a": SOURCE, "b": SOURCE})
TEXT = {"sum": "a + 2.0 * b", "product": "a * b + b", "ratio": "a / (b * b + 2.0)", "square": "a * a - 0.5 * b"}


class Graph:
    """The described graph, built with the library, and a plain evaluation of it."""

    def __init__(self, nodes):
        self.spec, self.nodes = [], []
        for i, n in enumerate([*nodes, {"kind": "function", "op": "sum", "a": {"what": "func", "value": 1.0, "to": 0, "p": "a", "flag": None}, "b": {"what": "link", "value": 1.0, "to": 1, "p": "b", "flag": None}}]):
            self.spec.append(self.plan(i, n))
            self.nodes.append(self.make(i))

    def plan(self, i, n):
        """Chooses the nodes referred to among the earlier ones (later ones first, so that graphs are deep)."""
        out = {"kind": n["kind"], "op": n["op"]}
        for p in ("a", "b"):
            s = dict(n[p])
            if n["kind"] == "random":
                s["what"], s["flag"] = "const", False  # distributions cannot be differentiated
                s["value"] = {"a": -1.0, "b": 1.5}[p]
            kinds = {"link": ("holder", "function", "expression"), "func": ("function", "expression", "random"), "const": ()}[s["what"]]
            options = [k for k in reversed(range(i)) if self.spec[k]["kind"] in kinds]
            if options:
                s["to"] = options[s["to"] % min(len(options), 3)]
            else:
                s["what"] = "const"
            out[p] = s
        return out

    def make(self, i):
        spec = self.spec[i]
        given, flags = {}, {}
        for p in ("a", "b"):
            s = spec[p]
            flags[p] = s["flag"]
            given[p] = s["value"] if s["what"] == "const" else self.nodes[s["to"]] if s["what"] == "func" else getattr(self.nodes[s["to"]], s["p"])
        label = f"n{i}"
        late = {p: given[p] for p in given if spec[p].get("late") and spec["kind"] in ("holder", "function")}
        for p in late:  # another source at first: a constant for a link, a link for a constant
            readable = [k for k in range(i) if self.spec[k]["kind"] == "holder"]
            given[p] = 9.0 if spec[p]["what"] != "const" or not readable else self.nodes[readable[-1]].a
        if spec["kind"] == "holder":
            node = Holder(given["a"], given["b"], {p: None if p in late else flags[p] for p in flags}, node_label=label)
        elif spec["kind"] == "function":
            node = FunctionNode(OPS[spec["op"]], node_label=label, **given)
        elif spec["kind"] == "expression":
            node = BasicMathNode(TEXT[spec["op"]], backend="jax", node_label=label, **given)
        else:
            node = NumpyRandomFunc("uniform", low=given["a"], high=given["b"], node_label=label)
        for p, value in late.items():
            node.set_parameter(p, value)
        names = {"a": "low", "b": "high"} if spec["kind"] == "random" else {"a": "a", "b": "b"}
        for p, flag in flags.items():
            if flag is not None:
                node.set_allow_gradient(names[p], flag)
        return node

    def tree(self, state):
        """Every differentiable value that the last node depends on, without another one in between."""
        out = {}

        def visit(i):
            if f"n{i}" in out:
                return
            out[f"n{i}"] = {}
            for p in ("a", "b"):
                s = self.spec[i][p]
                if s["flag"] or (s["flag"] is None and s["what"] == "const"):
                    out[f"n{i}"][p] = state[f"n{i}"][p]
                elif s["what"] != "const":
                    visit(s["to"])

        visit(len(self.spec) - 1)
        return {k: v for k, v in out.items() if v}

    def value(self, state, given):
        """The result of the last node with the given values in place, the random draws being those of the state."""
        memo = {}

        def param(i, p):
            if p in given.get(f"n{i}", {}):
                return np.asarray(given[f"n{i}"][p], dtype=float)
            s = self.spec[i][p]
            if s["what"] == "const":
                return np.float64(s["value"])
            return result(s["to"]) if s["what"] == "func" else param(s["to"], s["p"])

        def result(i):
            if i not in memo:
                if self.spec[i]["kind"] == "random":
                    memo[i] = np.asarray(state[f"n{i}"]["function_node_result"], dtype=float)
                else:
                    memo[i] = OPS[self.spec[i]["op"]](param(i, "a"), param(i, "b"))
            return memo[i]

        return result(len(self.spec) - 1)


def near(a, b, tol, msg):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape or a.size == b.size == 1, f"{msg}: shape {a.shape}, expected {b.shape}")
    require(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))), f"{msg}: {a}, expected {b}")


@check("C37", fd({"nodes": st.lists(NODE, min_size=2, max_size=6), "n": st.sampled_from([1, 3, 2]), "seed": seeds()}), quick=700)
def graphs(case, rec):
    g = Graph(case["nodes"])
    top, n = g.nodes[-1], case["n"]
    rng = lambda: np.random.default_rng([case["seed"], 37])  # noqa: E731
    state = top.sample_parameters(num_samples=n, rng_info=rng())
    base = np.asarray(top.get_param(state, "function_node_result"), dtype=float)
    near(base, np.broadcast_to(g.value(state, {}), base.shape), 1e-5, "value")
    before = state.to_dict()
    tree = top.build_pytree(state)
    want = g.tree(state)
    got = {k: dict(v) for k, v in tree.items() if len(v)}
    require({k: set(v) for k, v in got.items()} == {k: set(v) for k, v in want.items()}, f"tree of {({k: sorted(v) for k, v in got.items()})}, expected {({k: sorted(v) for k, v in want.items()})}")
    for k, v in want.items():
        for p in v:
            require(np.array_equal(np.asarray(got[k][p]), np.asarray(v[p])), f"{k}.{p}: {got[k][p]}, sampled {v[p]}")
    after = state.to_dict()
    require(set(before) == set(after) and all(np.array_equal(before[k], after[k]) for k in before), "sampled parameters")
    again = top.generate(given_args=tree, num_samples=n, rng_info=rng())
    near(again, base, 1e-6, "resampled from its own tree")
    if n > 1:
        i = case["seed"] % n
        one = top.build_pytree(state.extract_single_sample(i))
        for k, v in want.items():
            for p in v:
                near(one[k][p], np.asarray(v[p])[i], 0, f"{k}.{p} of sample {i}")
    # one value changed
    entries = [(k, p) for k in sorted(want) for p in sorted(want[k])]
    gen = np.random.default_rng([case["seed"], 38])
    if entries:
        k, p = entries[int(gen.integers(len(entries)))]
        other = {x: dict(v) for x, v in tree.items()}
        other[k][p] = other[k][p] + 0.75
        out = top.generate(given_args=other, num_samples=n, rng_info=rng())
        near(out, np.broadcast_to(g.value(state, other), base.shape), 1e-5, f"{k}.{p} changed")
    # slopes
    def total(t):  # JAX cannot follow several samples
        return jax.numpy.sum(top.generate(given_args=t, num_samples=n, rng_info=rng()))

    if entries and n == 1:
        value, slopes = jax.value_and_grad(total)(tree)
        near(value, base.sum(), 1e-5 * n, "value with slopes")
        scale = 1.0
        pairs = []
        for k, p in entries:
            h = 1e-5
            ends = []
            for d in (h, -h):
                other = {x: dict(v) for x, v in want.items()}
                other[k][p] = np.asarray(other[k][p], dtype=float) + d
                ends.append(np.broadcast_to(g.value(state, other), base.shape))
            s = (ends[0] - ends[1]) / (2 * h)
            pairs.append((k, p, slopes[k][p], s))
            scale = max(scale, np.abs(s).max())
        for k, p, a, s in pairs:
            a = np.asarray(a, dtype=float)
            s = np.asarray(s) if a.shape == np.shape(s) else np.asarray(s.sum())
            require(a.shape == s.shape and np.all(np.abs(a - s) <= 2e-3 * scale), f"slope along {k}.{p}: {a}, expected {s}")
    rec.nontrivial(len(want) > 1)
    rec.label(f"{min(len(entries), 4)} values", f"n={n}")


KINDS = [k for k in zoo.SED_KINDS if k != "salt2"]


@check("C37", fd({"spec": zoo.model_strategy(kinds=KINDS, effects=("dim", "ml", "ext_rest", "dim_obs"), max_effects=2), "n": st.sampled_from([1, 3]), "seed": seeds()}), quick=400)
def models(case, rec):
    """The tree of a model holds its differentiable values (also those of its parts), and they are the ones used."""
    m = zoo.build(case["spec"])
    n = case["n"]
    rng = lambda: np.random.default_rng([case["seed"], 37])  # noqa: E731
    state = m.sample_parameters(num_samples=n, rng_info=rng())
    tree = m.build_pytree(state)
    count = 0
    for k, v in tree.items():
        for p, x in v.items():
            require(k in state.states and p in state[k], f"{k}.{p} is not a parameter")
            require(x is state[k][p] or np.array_equal(np.asarray(x), np.asarray(state[k][p])), f"{k}.{p}: {x}, sampled {state[k][p]}")
            count += 1
    for part in getattr(m, "objects", []):
        own = part.build_pytree(state)
        for k, v in own.items():
            require(not v or (k in tree and set(v) <= set(tree[k])), f"parameters {sorted(v)} of the part {k} are missing")
    for k in ("ra", "dec", "redshift"):
        require(k not in tree.get(str(m), {}), f"{k} is not differentiable")
    once = state if n == 1 else state.extract_single_sample(0)
    t, w = np.array([-3.0, 0.5, 11.0]), np.array([3300.0, 5100.0, 7400.0])
    if n == 1:
        again = m.sample_parameters(given_args=tree, num_samples=1, rng_info=rng())
        for k in again.states:
            for p in again.states[k]:
                require(again[k][p] is state[k][p] or np.array_equal(np.asarray(again[k][p]), np.asarray(state[k][p])), f"{k}.{p} resampled: {again[k][p]}, was {state[k][p]}")
        want = m.evaluate_sed(t, w, once, rng_info=rng())
        got = m.evaluate_sed(t, w, given_args=tree, rng_info=rng())
        require(np.array_equal(want, got), "flux of the tree")
        # one value changed
        numbers = [(k, p) for k in sorted(tree) for p in sorted(tree[k]) if isinstance(tree[k][p], float | np.floating) and p not in ("period", "t0")]
        if numbers:
            g = np.random.default_rng([case["seed"], 39])
            k, p = numbers[int(g.integers(len(numbers)))]
            other = {x: dict(v) for x, v in tree.items()}
            other[k][p] = other[k][p] * 1.0001
            s2 = m.sample_parameters(given_args=other, num_samples=1, rng_info=rng())
            require(s2[k][p] == other[k][p], f"{k}.{p}: {s2[k][p]}, given {other[k][p]}")
            a, b = m.evaluate_sed(t, w, s2, rng_info=rng()), m.evaluate_sed(t, w, given_args=other, rng_info=rng())
            require(np.array_equal(a, b), f"flux after a change of {k}.{p}")
    rec.nontrivial(count > 1 and len(tree) > 1)
    rec.label(case["spec"]["kind"])
