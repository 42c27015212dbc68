"""Random parameter graphs: generation from a JSON spec, construction, and a reference model."""
import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.base_models import FunctionNode, ParameterizedNode
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode
from lightcurvelynx.models.basic_models import ConstantSEDModel

from .gen import fd, gr

FUNCS = {
    "add": (2, lambda x0, x1: x0 + x1),
    "affine": (2, lambda x0, x1: 2.0 * x0 - 3.0 * x1 + 1.0),
    "neg": (1, lambda x0: -x0),
    "cube": (1, lambda x0: x0 * x0 * x0),
    "pick": (3, lambda x0, x1, x2: x0 + 10.0 * x1 + 100.0 * x2),
    "six": (6, lambda x0, x1, x2, x3, x4, x5: x0 + 2.0 * x1 + 3.0 * x2 + 5.0 * x3 + 7.0 * x4 + 11.0 * x5),
}
MULTI = {
    "sumdiff": (2, ["first", "second"], lambda x0, x1: (x0 + x1, x0 - x1)),
    "three": (1, ["a", "b", "c"], lambda x0: (x0 + 1.0, 2.0 * x0, -x0)),
    "table": (2, ["u", "v"], lambda x0, x1: np.array([x0 + 3.0 * x1, x0 * 0.5])),
    "listed": (5, ["w0", "w1", "w2", "w3", "w4"], lambda x0, x1, x2, x3, x4: [x4, x3 + 1.0, x2 - x0, x1, x0 + 2.0 * x4]),
}
MULTI_OUTPUTS = {o for _, outs, _ in MULTI.values() for o in outs}
KINDS = ["params", "func", "multi", "token", "rand", "normal", "single", "model"]


def ref_strategy(how=("auto", "getter", "node")):
    return st.one_of(
        fd({"c": gr(-5, 5)}),
        fd({"n": st.integers(0, 50), "o": st.integers(0, 5), "how": st.sampled_from(list(how))}),
        fd({"n": st.integers(0, 50), "o": st.integers(0, 5), "how": st.sampled_from(list(how))}),
    )


def node_strategy():
    return fd(
        {
            "kind": st.sampled_from(KINDS),
            "fn": st.integers(0, 20),
            "refs": st.lists(ref_strategy(), min_size=6, max_size=6),
            "np": st.integers(1, 3),
            "lab": st.booleans(),
        }
    )


def graph_strategy(lo=2, hi=8):
    """Node lists whose last node (the root) takes links."""
    root = fd(
        {
            "kind": st.sampled_from(["params", "func", "multi", "model", "model"]),
            "fn": st.integers(0, 20),
            "refs": st.lists(ref_strategy(), min_size=6, max_size=6),
            "np": st.integers(2, 3),
            "lab": st.booleans(),
        }
    )
    return st.builds(
        lambda a, r: a + [r], st.lists(node_strategy(), min_size=lo - 1, max_size=hi - 1), root
    )


def spec_from_seed(seed, size):
    """A graph spec with many nodes, as a function of a seed."""
    rng = np.random.default_rng([int(seed), 77])
    chain = rng.random() < 0.4
    spec = []
    for i in range(size):
        refs = []
        for j in range(6):
            if (j > 0 or not chain) and rng.random() < 0.4:
                refs.append({"c": float(rng.integers(-40, 40)) / 8.0})
            else:
                back = 1 if (chain and j == 0) else int(rng.integers(1, 12))
                refs.append({"n": max(i - back, 0), "o": int(rng.integers(0, 6)),
                             "how": ["auto", "getter", "node"][rng.integers(3)]})
        kind = KINDS[rng.integers(len(KINDS))]
        if chain or i == size - 1:
            kind = ["params", "func", "multi", "model"][rng.integers(4)]
        spec.append({"kind": kind, "fn": int(rng.integers(0, 21)), "refs": refs, "np": int(rng.integers(2, 4)),
                     "lab": bool(rng.random() < 0.3)})
    return spec


class PNode(ParameterizedNode):
    """A plain container of parameters."""

    def __init__(self, params, label):
        super().__init__(node_label=label)
        for k, v in params:
            self.add_parameter(k, v)


class PNode2(PNode):
    pass


class Info:
    """What the reference model knows about one node."""

    def __init__(self, node, kind):
        self.node, self.kind = node, kind
        self.inputs = {}  # param -> ("c", value) | ("p", Info, param)
        self.outputs = []  # computed outputs
        self.fn = None
        self.calls = [0]
        self.order = []  # params in definition order

    def readable(self):
        """Parameters with a value (a model's redshift and distance default to None)."""
        return [k for k, v in self.inputs.items() if v != ("c", None)] + list(self.outputs)

    def everything(self):
        return list(self.inputs) + list(self.outputs)


def build(spec, force_label=False):
    """Build the nodes of a spec. Returns the list of Info (last one is the root)."""
    infos = []
    for i, ns in enumerate(spec):
        kind = ns["kind"]
        label = f"node{i}" if (ns["lab"] or force_label) else None

        def resolve(ref, pname, infos=infos):
            if "c" in ref or not infos:
                v = ref.get("c", 1.25)
                return v, ("c", v)
            dep = infos[ref["n"] % len(infos)]
            names = dep.readable()
            if ref["how"] == "node":
                # Passing the node itself links to the output or to the parameter of the same name.
                if dep.outputs == ["function_node_result"]:
                    return dep.node, ("p", dep, "function_node_result")
                if pname in (dep.outputs or dep.readable()):
                    return dep.node, ("p", dep, pname)
            target = names[ref["o"] % len(names)]
            return getattr(dep.node, target), ("p", dep, target)

        refs = ns["refs"]
        if kind == "params":
            names = ["p0", "p1", "p2"][: ns["np"]]
            vals = [resolve(refs[j], nm) for j, nm in enumerate(names)]
            cls = PNode if ns["fn"] % 2 == 0 else PNode2
            node = cls([(nm, v[0]) for nm, v in zip(names, vals)], label)
            info = Info(node, kind)
            info.inputs = {nm: v[1] for nm, v in zip(names, vals)}
        elif kind == "single":
            v = resolve(refs[0], "p0")
            node = SingleVariableNode("p0", v[0], node_label=label)
            info = Info(node, kind)
            info.inputs = {"p0": v[1]}
        elif kind == "func":
            name = sorted(FUNCS)[ns["fn"] % len(FUNCS)]
            nargs, fn = FUNCS[name]
            vals = {f"x{j}": resolve(refs[j], f"x{j}") for j in range(nargs)}
            calls = [0]

            def counted(_fn=fn, _calls=calls, **kw):
                _calls[0] += 1
                return _fn(**kw)

            counted.__name__ = name
            node = FunctionNode(counted, node_label=label, **{k: v[0] for k, v in vals.items()})
            info = Info(node, kind)
            info.inputs = {k: v[1] for k, v in vals.items()}
            info.outputs = ["function_node_result"]
            info.fn = lambda _fn=fn, **kw: (_fn(**kw),)
            info.calls = calls
        elif kind == "multi":
            name = sorted(MULTI)[ns["fn"] % len(MULTI)]
            nargs, outs, fn = MULTI[name]
            vals = {f"x{j}": resolve(refs[j], f"x{j}") for j in range(nargs)}
            calls = [0]

            def counted_m(_fn=fn, _calls=calls, **kw):
                _calls[0] += 1
                return _fn(**kw)

            counted_m.__name__ = name
            node = FunctionNode(
                counted_m, node_label=label, outputs=list(outs), **{k: v[0] for k, v in vals.items()}
            )
            info = Info(node, kind)
            info.inputs = {k: v[1] for k, v in vals.items()}
            info.outputs = list(outs)
            info.fn = fn
            info.calls = calls
        elif kind == "token":
            # Returns new unique numbers each time it is called: reveals double draws.
            v = resolve(refs[0], "x0")
            calls = [0]

            def token(x0, _calls=calls, _i=i):
                _calls[0] += 1
                return np.asarray(x0) * 0.0 + (1000.0 * (_i + 1) + _calls[0] * 1.0e6) + (
                    np.arange(np.size(x0)) if np.ndim(x0) else 0.0
                )

            node = FunctionNode(token, node_label=label, x0=v[0])
            info = Info(node, kind)
            info.inputs = {"x0": v[1]}
            info.outputs = ["function_node_result"]
            info.calls = calls
        elif kind == "rand":
            node = NumpyRandomFunc("uniform", node_label=label, seed=ns["fn"], low=-1.0, high=1.0)
            info = Info(node, kind)
            info.inputs = {"low": ("c", -1.0), "high": ("c", 1.0)}
            info.outputs = ["function_node_result"]
        elif kind == "normal":
            v = resolve(refs[0], "loc")
            node = NumpyRandomFunc("normal", node_label=label, seed=ns["fn"], loc=v[0], scale=0.5)
            info = Info(node, kind)
            info.inputs = {"loc": v[1], "scale": ("c", 0.5)}
            info.outputs = ["function_node_result"]
        elif kind == "model":
            vals = {k: resolve(refs[j], k) for j, k in enumerate(["ra", "dec", "t0", "brightness"])}
            node = ConstantSEDModel(node_label=label, **{k: v[0] for k, v in vals.items()})
            info = Info(node, kind)
            info.inputs = {k: v[1] for k, v in vals.items()}
            info.inputs["redshift"] = ("c", None)
            info.inputs["distance"] = ("c", None)
        else:
            raise KeyError(kind)
        infos.append(info)
    return infos


def reachable(root):
    seen, todo = [], [root]
    while todo:
        cur = todo.pop()
        if any(cur is s for s in seen):
            continue
        seen.append(cur)
        for src in cur.inputs.values():
            if src[0] == "p":
                todo.append(src[1])
    return seen
