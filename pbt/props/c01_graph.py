import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.graph_state import GraphState
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel

from ..core import check, close, describe, fail, require, same
from ..dag import MULTI_OUTPUTS, PNode, build, graph_strategy, reachable, spec_from_seed
from ..gen import fd, gr

describe(
    "C01",
    "Cases are random acyclic graphs of 1-8 parameter, function, multi-output, random and model nodes with "
    "shared inputs, sampled for 1-6 samples with random caller-fixed values; non-trivial when at least one "
    "link exists and some parameter is used by two consumers, or a fixed value overrides a computed one.",
    ["user functions are deterministic and vectorise over numpy arrays"],
)


def val(state, info, name):
    return state[f"{info.node.node_string}.{name}"]


def expect_const(v, n):
    return v if n == 1 else np.array([v] * n)


def verify(state, root, n, fixed, rec, calls_before):
    users = {}
    links = 0
    for info in reachable(root):
        nm = info.node.node_string
        args = {}
        for p, src in info.inputs.items():
            got = val(state, info, p)
            if n > 1:
                require(np.shape(got)[:1] == (n,), f"{nm}.{p} has shape {np.shape(got)} for {n} samples")
            else:
                require(np.ndim(got) == 0, f"{nm}.{p} is not a scalar for one sample: {got!r}")
            if (nm, p) in fixed:
                same(got, expect_const(fixed[(nm, p)], n) if np.ndim(fixed[(nm, p)]) == 0 else fixed[(nm, p)],
                     f"fixed parameter {nm}.{p}")
            elif src[0] == "c":
                if src[1] is None:
                    require(all(x is None for x in np.atleast_1d(got)), f"{nm}.{p} should be None")
                else:
                    same(got, expect_const(src[1], n), f"constant parameter {nm}.{p}")
            else:
                links += 1
                users[(id(src[1]), src[2])] = users.get((id(src[1]), src[2]), 0) + 1
                same(got, val(state, src[1], src[2]), f"{nm}.{p} linked to {src[1].node.node_string}.{src[2]}")
            args[p] = got
        if info.fn is not None:
            outs = {o: val(state, info, o) for o in info.outputs}
            for i in range(n):
                ai = {k: (v if n == 1 else v[i]) for k, v in args.items()}
                exp = info.fn(**ai)
                for o, e in zip(info.outputs, exp):
                    if (nm, o) not in fixed:
                        close(outs[o] if n == 1 else outs[o][i], e, 1e-12, 1e-12, f"{nm}.{o} sample {i}")
        for o in info.outputs:
            if (nm, o) in fixed:
                f = fixed[(nm, o)]
                same(val(state, info, o), expect_const(f, n) if np.ndim(f) == 0 else f, f"fixed {nm}.{o}")
        if info.kind in ("func", "multi", "token"):
            made = info.calls[0] - calls_before[id(info)]
            require(made == 1, f"{nm} was evaluated {made} times in one sampling")
        if info.kind == "token" and n > 1 and (nm, "function_node_result") not in fixed:
            t = np.asarray(val(state, info, "function_node_result"))
            require(len(set(t.tolist())) == n, f"{nm}: samples are not distinct draws {t}")
        if info.kind in ("rand", "normal") and n > 1 and (nm, "function_node_result") not in fixed:
            t = np.asarray(val(state, info, "function_node_result"))
            require(len(set(t.tolist())) == n, f"{nm}: repeated draw across samples {t}")
    return links, max(users.values(), default=0)


@check(
    "C01",
    fd(
        {
            "nodes": graph_strategy(2, 9),
            "n": st.integers(1, 6),
            "fix": st.lists(
                fd({"n": st.integers(0, 20), "p": st.integers(0, 10), "v": st.lists(gr(-9, 9), min_size=6, max_size=6),
                    "arr": st.booleans()}),
                max_size=3,
            ),
            "as_state": st.booleans(),
            "n2": st.integers(1, 4),
        }
    ),
    quick=3000,
)
def linked_values_agree(case, rec):
    infos = build(case["nodes"], force_label=True)
    root = infos[-1]
    n = case["n"]
    reach = reachable(root)
    fixed, given = {}, {}
    for f in case["fix"]:
        info = reach[f["n"] % len(reach)]
        names = info.readable()
        p = names[f["p"] % len(names)]
        if p in ("low", "high", "scale"):
            continue  # would make the distribution invalid
        v = np.array(f["v"][:n]) if (f["arr"] and n > 1) else f["v"][0]
        fixed[(info.node.node_label, p)] = v
        given.setdefault(info.node.node_label, {})[p] = v
    ga = given or None
    if given and case["as_state"]:
        ga = GraphState(n)
        for k, d in given.items():
            for p, v in d.items():
                ga.set(k, p, v)
    before = {id(i): i.calls[0] for i in reach}
    state = root.node.sample_parameters(given_args=ga, num_samples=n)
    require(state.num_samples == n, "wrong number of samples recorded")
    links, share = verify(state, root, n, fixed, rec, before)
    rec.label(f"links>={min(links, 5)}", f"share={min(share, 3)}", "fixed" if fixed else "free", f"n={min(n, 2)}")
    computed_fixed = any(p == "function_node_result" or p in MULTI_OUTPUTS for _, p in fixed)
    rec.nontrivial((links > 0 and share > 1) or computed_fixed)
    # Number of recorded parameters = number of parameters over the reachable nodes
    total = sum(len(i.everything()) for i in reach)
    require(len(state) == total, f"{len(state)} parameters recorded, {total} defined")

    # Sampling again draws again (with a different number of samples), and stays consistent.
    before = {id(i): i.calls[0] for i in reach}
    n2 = case["n2"]
    state2 = root.node.sample_parameters(num_samples=n2)
    verify(state2, root, n2, {}, rec, before)

    # Look-ups through the nodes give the recorded values.
    for info in reach:
        loc = info.node.get_local_params(state)
        for p in info.readable():
            v = val(state, info, p)
            same(info.node.get_param(state, p), v, "get_param")
            same(loc[p], v, "get_local_params")
            same(getattr(info.node, p)(state), v, "attribute getter")
        require(info.node.get_param(state, "no_such_parameter", -7.5) == -7.5, "default of get_param")


@check(
    "C01",
    fd(
        {
            "nodes": graph_strategy(2, 7),
            "ops": st.lists(
                fd({"n": st.integers(0, 20), "p": st.integers(0, 5), "to": st.integers(0, 20), "o": st.integers(0, 5),
                    "c": gr(-3, 3), "mode": st.sampled_from(["const", "link", "callable"])}),
                min_size=1,
                max_size=4,
            ),
            "n": st.integers(1, 4),
        }
    ),
    quick=1500,
)
def relinking_parameters(case, rec):
    """set_parameter after earlier samplings changes exactly that link."""
    infos = build(case["nodes"], force_label=True)
    root = infos[-1]
    n = case["n"]
    root.node.sample_parameters(num_samples=n)
    done = 0
    for k, op in enumerate(case["ops"]):
        cands = [i for i in infos if i.kind in ("params", "single", "model", "func", "multi")]
        if not cands:
            return
        info = cands[op["n"] % len(cands)]
        names = list(info.inputs)
        p = names[op["p"] % len(names)]
        pos = infos.index(info)
        if op["mode"] == "link" and pos > 0:
            dep = infos[op["to"] % pos]
            t = dep.readable()[op["o"] % len(dep.readable())]
            info.node.set_parameter(p, getattr(dep.node, t))
            info.inputs[p] = ("p", dep, t)
        elif op["mode"] == "callable":
            c = op["c"]
            info.node.set_parameter(p, lambda c=c: c)
            info.inputs[p] = ("c", c)
        else:
            info.node.set_parameter(p, op["c"])
            info.inputs[p] = ("c", op["c"])
        done += 1
        if len({id(s[1]) for i in reachable(root) for s in i.inputs.values() if s[0] == "p"}) > 0:
            rec.nontrivial()
        before = {id(i): i.calls[0] for i in infos}
        state = root.node.sample_parameters(num_samples=n)
        # callables passed as setters are evaluated once per sampling and their value is shared by
        # all samples, so the reference above may treat them as constants
        verify(state, root, n, {}, rec, before)
    rec.label(f"ops={done}")


@check(
    "C01",
    fd({"n": st.integers(1, 5), "vals": st.lists(gr(-4, 4), min_size=3, max_size=3), "size": st.integers(1, 3),
        "seed": st.integers(0, 10000), "given": st.booleans()}),
    quick=800,
)
def vector_and_multi_output_links(case, rec):
    """Array-valued parameters keep one vector per sample; multi-output generate() agrees with the state."""
    n, size = case["n"], case["size"]
    rng = np.random.default_rng(case["seed"])
    vec = NumpyRandomFunc("normal", size=size, loc=case["vals"][0], scale=1.0, node_label="vec")
    arr = np.array(case["vals"])
    m = ConstantSEDModel(brightness=vec, ra=1.0, dec=2.0, t0=0.0, node_label="m")
    m.add_parameter("knots", arr)
    m.add_parameter("label_text", "abc")
    m.add_parameter("flag", True)
    m2 = ConstantSEDModel(brightness=m.brightness, ra=m.ra, dec=m.dec, t0=m.t0, node_label="m2")
    m2.add_parameter("knots", m.knots)
    m2.add_parameter("label_text", m.label_text)
    m2.add_parameter("flag", m.flag)
    state = m2.sample_parameters(num_samples=n, rng_info=rng)
    shape = () if size == 1 else (size,)
    full = shape if n == 1 else (n, *shape)
    for nm in ("m", "m2"):
        require(np.shape(state[nm]["brightness"]) in (full, (1, *shape)), f"shape {np.shape(state[nm]['brightness'])}")
        for i in range(n):
            s = state.extract_single_sample(i)
            same(s[nm]["knots"], arr, "array constant")
            require(s[nm]["label_text"] == "abc", "string constant")
            require(bool(s[nm]["flag"]) is True, "bool constant")
    same(state["m"]["brightness"], state["m2"]["brightness"], "linked vectors")
    rec.nontrivial(n > 1 and size > 1)

    def two(a, b):
        return a + b, a * b

    fn = FunctionNode(two, outputs=["s", "p"], a=case["vals"][1], b=NumpyRandomFunc("uniform", low=0.0, high=1.0),
                      node_label="two")
    ga = {"two": {"b": 0.5}} if case["given"] else None
    res = fn.generate(given_args=ga, num_samples=n, rng_info=np.random.default_rng(case["seed"]))
    require(len(res) == 2, "one result per output")
    s, p = res
    b = s - case["vals"][1]
    close(p, case["vals"][1] * b, 1e-9, 1e-9, "outputs of one evaluation")
    if case["given"]:
        close(s, np.full(np.shape(s), case["vals"][1] + 0.5), 1e-12, 1e-12, "fixed argument is used")


@check(
    "C01",
    fd({"seed": st.integers(0, 10**6), "size": st.integers(12, 90), "n": st.integers(1, 5)}),
    quick=40,
)
def large_graphs(case, rec):
    infos = build(spec_from_seed(case["seed"], case["size"]))
    root = infos[-1]
    reach = reachable(root)
    before = {id(i): i.calls[0] for i in reach}
    with np.errstate(all="ignore"):
        state = root.node.sample_parameters(num_samples=case["n"])
    for info in reach:
        for p, src in info.inputs.items():
            got = val(state, info, p)
            if src[0] == "p":
                same(got, val(state, src[1], src[2]), f"{info.node.node_string}.{p}")
            elif src[1] is not None:
                same(got, expect_const(src[1], case["n"]), f"constant {info.node.node_string}.{p}")
        if info.fn is not None:
            with np.errstate(all="ignore"):
                exp = info.fn(**{p: val(state, info, p) for p in info.inputs})
            for o, e in zip(info.outputs, exp):
                close(val(state, info, o), e, 1e-12, 1e-12, f"{info.node.node_string}.{o}")
        if info.kind in ("func", "multi", "token"):
            require(info.calls[0] - before[id(info)] == 1, f"{info.node.node_string} was evaluated more than once")
    rec.label(f"reached={10 * (len(reach) // 10)}")
    rec.nontrivial(len(reach) > 10)


FALSY = st.sampled_from([0.0, 0, False, 1.5, -2.0, 0.25, True, 3])


@check("C01", fd({"n": st.integers(1, 4), "scale": FALSY, "fixed": gr(-2, 2), "off": FALSY,
                  "text": st.sampled_from(["", "two", "x"])}), quick=400)
def falsy_arguments_of_functions(case, rec):
    """Zero, False and the empty text are values like any other."""
    seen = []

    def f(x, scale=5.0, off=7.0, text="default", more=11.0):
        seen.append((scale, off, text, more))
        return x * scale + off

    node = FunctionNode(f, fixed_params={"scale": case["scale"], "off": case["off"], "text": case["text"]},
                        node_label="f", x=2.0, more=0.0)
    n = case["n"]
    out = node.generate(num_samples=n)
    close(np.atleast_1d(out), np.full(n, 2.0 * case["scale"] + case["off"]), 1e-12, 1e-12, "fixed params")
    got = seen[0]
    require(got[:3] == (case["scale"], case["off"], case["text"]) and np.all(got[3] == 0.0), f"arguments {got}")
    out = node.generate(given_args={"f": {"x": 0.0}}, num_samples=n)
    close(np.atleast_1d(out), np.full(n, float(case["off"])), 1e-12, 1e-12, "given zero")
    rec.nontrivial(not case["scale"] or not case["off"] or not case["text"])


@check("C01", fd({"n": st.integers(1, 4), "scale": gr(0.5, 3), "fixed": gr(-2, 2), "off": gr(-1, 1)}), quick=500)
def fixed_arguments_of_functions(case, rec):
    """fixed_params of a function node and parameters given by the caller reach the function unchanged."""
    seen = []

    def f(x, scale, off=0.0):
        seen.append((scale, off))
        return x * scale + off

    node = FunctionNode(f, fixed_params={"scale": case["scale"], "off": case["off"]}, node_label="f", x=2.0)
    user = FunctionNode(lambda y: y * 10.0, y=node, node_label="g")
    n = case["n"]
    out = user.generate(num_samples=n)
    close(np.atleast_1d(out), np.full(n, (2.0 * case["scale"] + case["off"]) * 10.0), 1e-12, 1e-12, "fixed params")
    require(seen == [(case["scale"], case["off"])], "fixed params passed once")
    out = user.generate(given_args={"f": {"x": case["fixed"]}}, num_samples=n)
    close(np.atleast_1d(out), np.full(n, (case["fixed"] * case["scale"] + case["off"]) * 10.0), 1e-12, 1e-12, "given x")
    out = user.generate(given_args={"f": {"function_node_result": case["fixed"]}}, num_samples=n)
    close(np.atleast_1d(out), np.full(n, case["fixed"] * 10.0), 1e-12, 1e-12, "given output")
    rec.nontrivial(n > 1)
    _ = fail


CONSTS = {
    "big": lambda g: int(g.integers(2**33, 2**62)),
    "small": lambda g: int(g.integers(-300, 300)),
    "negative": lambda g: -int(g.integers(2**31, 2**62)),
    "float": lambda g: float(g.normal() * 10.0 ** g.integers(-300, 300)),
    "exact": lambda g: float(np.nextafter(g.normal(), 9)),
    "bool": lambda g: bool(g.integers(2)),
    "text": lambda g: "".join(chr(int(c)) for c in g.integers(32, 1000, int(g.integers(0, 12)))).rstrip("\0"),
    "none": lambda g: None,
    "np_int": lambda g: np.int64(g.integers(2**40)),
    "np_float32": lambda g: np.float32(g.normal()),
    "inf": lambda g: float("-inf") if g.integers(2) else float("inf"),
    "vector": lambda g: g.normal(size=int(g.integers(1, 5))),
    "list": lambda g: [int(x) for x in g.integers(0, 2**40, 3)],
    "table": lambda g: g.normal(size=(2, 3)),
    "complex": lambda g: complex(g.normal(), g.normal()),
}


@check("C01", fd({"kinds": st.lists(st.sampled_from(sorted(CONSTS)), min_size=1, max_size=6), "n": st.integers(1, 4), "seed": st.integers(0, 10**6)}), quick=500)
def constants_reach_their_users(case, rec):
    """Whatever the type of a constant, its users (linked parameters and functions) see exactly that value in every sample."""
    g = np.random.default_rng([case["seed"], 7])
    vals = {f"c{i}": CONSTS[k](g) for i, k in enumerate(case["kinds"])}
    keep = {k: (v.copy() if isinstance(v, (np.ndarray, list)) else v) for k, v in vals.items()}
    src = PNode(list(vals.items()), "src")
    users = PNode([(k, getattr(src, k)) for k in vals], "user")
    seen = {}

    def look(**kw):
        seen.update(kw)
        return 1.0

    root = PNode([("f", FunctionNode(look, node_label="look", **{k: getattr(users, k) for k in vals}))], "root")
    state = root.sample_parameters(num_samples=case["n"])
    n = case["n"]

    def equal(a, b):
        if isinstance(b, (np.ndarray, list)):
            return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
        return a is None if b is None else a is not None and bool(a == b)

    for k, v in keep.items():
        for got, where in ((state["src"][k], "source"), (state["user"][k], "link"), (state["look"][k], "function"), (seen[k], "argument")):
            rows = [got] if n == 1 else list(got)
            require(len(rows) == n, f"{where} {k}: {len(rows)} samples")
            for x in rows:
                require(equal(x, v), f"{where} {k}: {x!r} instead of {v!r}")
        one = state.extract_single_sample(n - 1)
        require(equal(one["user"][k], v), f"{k} of the last sample: {one['user'][k]!r} instead of {v!r}")
    rec.nontrivial(n > 1)
    rec.label(*case["kinds"])
