import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.graph_state import GraphState, transpose_dict_of_list

from ..core import check, describe, raises, require, same
from ..gen import fd

describe(
    "C03",
    "Cases are histories of up to 12 set/update/copy operations on a record of 1-5 samples and 1-3 nodes, "
    "with float, integer, text, boolean, missing and vector values, followed by every conversion; "
    "non-trivial when the record has several parameters and a fixed parameter, a vector or a text value.",
    ["node and parameter names are plain identifiers", "equality is tested with differences far above 1e-5 relative and above 5e-8"],
)

NODES = ["alpha2", "alpha", "n_3"]
PARAMS = ["ra_2", "y", "ra", "p_long"]
KINDS = ["float", "int", "bool", "text", "vec", "none", "const", "big"]


def make_value(kind, n, seed):
    """Returns (value passed to the library, list of n per-sample values)."""
    rng = np.random.default_rng(seed)
    if kind == "const":
        v = float(rng.integers(-50, 50)) / 4.0
        return (np.array(v) if n > 1 and seed % 2 else v), [v] * n
    if kind == "float":
        vals = list(rng.normal(size=n) * 10.0)
    elif kind == "big":
        vals = list(rng.normal(size=n) * 10.0 ** rng.integers(-12, 13, size=n))
    elif kind == "int":
        vals = [int(v) for v in rng.integers(-1000, 1000, size=n)]
        if seed % 3 == 0:
            # identifiers: no float can hold them
            vals = [2**60 + 2 * v + 1 for v in vals]
    elif kind == "bool":
        vals = [bool(v) for v in rng.integers(0, 2, size=n)]
    elif kind == "text":
        vals = [("w" + "abc xyz"[: rng.integers(1, 7)] + str(i)) for i in range(n)]
    elif kind == "none":
        vals = [None] * n
    elif kind == "list":
        if n == 1:
            v = [float(x) for x in rng.normal(size=int(rng.integers(1, 5)))]
            return v, [np.array(v)]
        vals = [float(x) for x in rng.normal(size=n)]
        return list(vals), vals
    else:
        vals = [v for v in rng.normal(size=(n, int(rng.integers(1, 4))))]
    if n == 1:
        return vals[0], [np.copy(x) if kind == "vec" else x for x in vals]
    return np.array(vals), vals


def eq_val(a, b):
    if a is None or b is None:
        return a is None and b is None
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


class Model:
    def __init__(self, n):
        self.n, self.v, self.fixed = n, {}, set()

    def set(self, key, vals, fixed=False):
        if key in self.fixed:
            return
        self.v[key] = list(vals)
        if fixed:
            self.fixed.add(key)

    def copy(self):
        m = Model(self.n)
        m.v = {k: list(v) for k, v in self.v.items()}
        m.fixed = set(self.fixed)
        return m


def agree(state, model, msg, indices=None):
    n = model.n
    require(state.num_samples == n, f"{msg}: {state.num_samples} samples instead of {n}")
    require(len(state) == len(model.v), f"{msg}: {len(state)} parameters instead of {len(model.v)}")
    require(
        sorted(state.get_all_params_names()) == sorted(f"{a}.{b}" for a, b in model.v), f"{msg}: parameter names"
    )
    for (node, p), vals in model.v.items():
        require(node in state and f"{node}.{p}" in state, f"{msg}: {node}.{p} not found")
        for got in (state[f"{node}.{p}"], state[node][p], state.extract_parameters(f"{node}.{p}")[f"{node}.{p}"]):
            per = [got] if n == 1 else got
            require(len(per) == n, f"{msg}: {node}.{p} has {len(per)} entries")
            for i in range(n):
                require(eq_val(per[i], vals[i]), f"{msg}: {node}.{p}[{i}] is {per[i]!r}, expected {vals[i]!r}")


def slices_agree(state, model):
    n = model.n
    singles = [state.extract_single_sample(i) for i in range(n)]
    its = list(iter(state))
    require(len(its) == n, "iteration yields one record per sample")
    for i in range(n):
        m = Model(1)
        m.v = {k: [v[i]] for k, v in model.v.items()}
        agree(singles[i], m, f"sample {i}")
        agree(its[i], m, f"iterated sample {i}")
        require(singles[i] == its[i], "the two forms of a sample are equal")
        for node in {k[0] for k in model.v}:
            d = state.get_node_state(node, i)
            names = {p for (a, p) in model.v if a == node}
            require(set(d) == names, "node state names")
            for p in names:
                require(eq_val(d[p], model.v[(node, p)][i]), f"node state {node}.{p} sample {i}")
    for bad in (-1, n, n + 3):
        raises(ValueError, lambda bad=bad: state.extract_single_sample(bad), "sample out of range")
    for node in {k[0] for k in model.v}:
        raises(ValueError, lambda node=node: state.get_node_state(node, n), "node sample out of range")
    raises(KeyError, lambda: state.get_node_state("no_node", 0), "unknown node")
    if n > 1:
        joined = GraphState.from_list(singles)
        agree(joined, model, "joined samples")
        k = 1 + (len(model.v) % (n - 1)) if n > 2 else 1
        # join a block of several samples with single ones
        block = GraphState.from_list(singles[:k])
        agree(GraphState.from_list([block] + singles[k:]), model, "block joined with samples")
        rest = GraphState.from_list(singles[k:])
        agree(GraphState.from_list([singles[0]] + ([GraphState.from_list(singles[1:k])] if k > 1 else []) + [rest]), model,
              "samples joined with blocks")
        agree(GraphState.from_list([block, rest]), model, "blocks joined")


OPS = fd(
    {
        "op": st.sampled_from(
            ["set", "set", "set", "fix", "upd_dict", "upd_state", "upd_one", "upd_fixed", "copy", "copy", "many", "scribble"]
        ),
        "v": st.integers(0, 5),
        "node": st.integers(0, 2),
        "param": st.integers(0, 3),
        "kind": st.sampled_from(KINDS + ["list"]),
        "seed": st.integers(0, 10**6),
        "force": st.booleans(),
    }
)


def scribble(v):
    """Change a mutable value in place."""
    if isinstance(v, np.ndarray) and v.ndim and v.dtype.kind in "fi" and v.flags.writeable:
        v[...] = -77
    elif isinstance(v, list):
        for i in range(len(v)):
            v[i] = -77.0


@check("C03", fd({"n": st.integers(1, 5), "last": st.integers(0, 5), "ops": st.lists(OPS, min_size=1, max_size=12)}), quick=1500)
def history_agrees_with_dictionary_model(case, rec):
    n = case["n"]
    versions = [(GraphState(n), Model(n))]
    kinds = set()
    for o in case["ops"]:
        node, p = NODES[o["node"]], PARAMS[o["param"]]
        kinds.add(o["kind"])
        state, model = versions[-1 - o["v"] % len(versions)]
        v, vals = make_value(o["kind"], n, o["seed"])
        if o["op"] in ("set", "fix"):
            state.set(node, p, v, force_copy=o["force"] and np.ndim(v) > 0, fixed=o["op"] == "fix")
            model.set((node, p), vals, o["op"] == "fix")
            if o["force"]:
                scribble(v)  # the caller's array changes afterwards
        elif o["op"] == "many":
            for j in range(12):
                w, wv = make_value("float", n, o["seed"] + j)
                state.set(node, f"m{j}", w)
                model.set((node, f"m{j}"), wv)
        elif o["op"] == "copy":
            cp = state.copy()
            require(cp == state and state == cp, "a copy equals its original")
            agree(cp, model, "copy")
            versions.append((cp, model.copy()))
        elif o["op"] == "scribble":
            cp = state.copy()
            for k in model.v:
                scribble(cp[k[0]][k[1]])
                cp.set(k[0], k[1], 5.5, fixed=True)
            cp.set("alpha", "only_in_the_copy", 1.0, fixed=True)
        else:
            q = PARAMS[(o["param"] + 1) % 4]
            v2, vals2 = make_value("float", n, o["seed"] + 1)
            fixed = o["op"] == "upd_fixed"
            if o["op"] == "upd_dict" or fixed:
                state.update({node: {p: v, q: v2}}, all_fixed=fixed, force_copy=o["force"] and np.ndim(v) > 0 and n > 1)
                if o["force"] and np.ndim(v) > 0 and n > 1:
                    scribble(v)
                    scribble(v2)
            elif o["op"] == "upd_state":
                other = GraphState(n)
                other.set(node, p, v)
                other.set(node, q, v2)
                state.update(other, force_copy=o["force"] and n > 1)
                if o["force"] and n > 1:
                    scribble(other[node][p])
            else:
                other = GraphState(1)
                w, wv = make_value(o["kind"], 1, o["seed"])
                other.set(node, p, w)
                other.set(node, q, 3.5)
                state.update(other)
                vals, vals2 = [wv[0]] * n, [3.5] * n
            model.set((node, p), vals, fixed)
            model.set((node, q), vals2, fixed)
        for k, (s, m) in enumerate(versions):
            agree(s, m, f"version {k} after {o['op']}")
    state, model = versions[case["last"] % len(versions)]
    slices_agree(state, model)
    rec.label(f"n={min(n, 2)}", *kinds)
    rec.nontrivial(len(model.v) > 1 and bool(model.fixed or kinds & {"vec", "text", "none"}))

    # Extraction by bare name: the value of the only node with it, or the full names.
    by_name = {}
    for (a, b) in model.v:
        by_name.setdefault(b, []).append(a)
    for b, nodes in by_name.items():
        ex = state.extract_parameters([b])
        if len(nodes) == 1:
            require(set(ex) == {b}, f"names {set(ex)}")
        else:
            require(set(ex) == {f"{a}.{b}" for a in nodes}, f"names {set(ex)} for {nodes}")
        for k, val in ex.items():
            a = k.split(".")[0] if "." in k else nodes[0]
            per = [val] if n == 1 else val
            for i in range(n):
                require(eq_val(per[i], model.v[(a, b)][i]), f"extracted {k}")
    raises(KeyError, lambda: state.extract_parameters(["nothing"]), "unknown name")
    raises(KeyError, lambda: state.extract_parameters(["alpha.nothing"]), "unknown full name")
    raises(KeyError, lambda: state["nothing"], "unknown node")
    require(not ("nothing" in state), "unknown name is not contained")
    raises(ValueError, lambda: state.set("a.b", "c", 1.0), "dotted node name")
    raises(ValueError, lambda: state.set("a", "b.c", 1.0), "dotted parameter name")
    if n > 1:
        raises(ValueError, lambda: state.set("alpha", "zz_bad", np.zeros(n + 1)), "wrong number of samples")
        raises(ValueError, lambda: state.set("alpha", "zz_bad", [7.0]), "one value in an array for several samples")
        for k in {n + 1, n + 2, 2 * n, 2, n - 1}:
            if k in (1, n) or k < 1:
                continue
            raises(ValueError, lambda k=k: state.update(GraphState(k)), "wrong number of samples in update")
            other = GraphState(k)
            other.set("alpha", "ra", np.arange(float(k)))
            other.set("alpha2", "new_one", 2.5)
            raises(ValueError, lambda other=other: state.update(other), "wrong number of samples in update")
        raises(ValueError, lambda: state.update(GraphState(n + 1)), "wrong number of samples in update")
    else:
        other = GraphState(3)
        other.set("alpha", "ra", np.arange(3.0))
        raises(ValueError, lambda: state.update(other), "three samples into one")
    raises(ValueError, lambda: GraphState(0), "no samples")


RECORD = st.lists(
    st.tuples(st.integers(0, 2), st.integers(0, 3), st.sampled_from(KINDS[:5] + ["const", "big"]), st.integers(0, 10**6)).map(
        list
    ),
    min_size=1,
    max_size=8,
)


def build(n, entries):
    state, model = GraphState(n), Model(n)
    for a, b, kind, seed in entries:
        v, vals = make_value(kind, n, seed)
        state.set(NODES[a], PARAMS[b], v)
        model.set((NODES[a], PARAMS[b]), vals)
    return state, model


@check("C03", fd({"n": st.integers(1, 5), "rec": RECORD, "file": st.booleans(), "perturb": st.integers(0, 100),
                  "tiny": st.sampled_from([0, 1e-7, 1e-6, 4e-8])}), quick=1200)
def conversions_round_trip(case, rec):
    n = case["n"]
    state, model = build(n, case["rec"])
    kinds = {e[2] for e in case["rec"]}
    rec.label(f"n={min(n, 2)}", *kinds)
    rec.nontrivial(len(model.v) > 1 and bool(kinds & {"vec", "text", "bool"}))
    table = state.to_table()
    require(len(table) == n, f"table has {len(table)} rows for {n} samples")
    back = GraphState.from_table(table)
    agree(back, model, "table round trip")
    require(back == state and state == back, "table round trip is equal")
    d = state.to_dict()
    back = GraphState.from_dict(d, num_samples=n) if not any(k == "vec" for k in kinds) or n == 1 else None
    if back is not None:
        agree(back, model, "dict round trip")
        require(back == state, "dict round trip is equal")
    nested = {}
    for (a, b) in model.v:
        nested.setdefault(a, {})[b] = state[a][b]
    back = GraphState.from_dict(nested, num_samples=n)
    agree(back, model, "nested dict round trip")
    require(back == state, "nested dict round trip is equal")
    if case["file"]:
        with tempfile.TemporaryDirectory() as tmp:
            fn = os.path.join(tmp, "state.ecsv")
            state.save_to_file(fn)
            back = GraphState.from_file(fn)
            agree(back, model, "file round trip")
            require(back == state, "file round trip is equal")
            raises(OSError, lambda: state.save_to_file(fn), "existing file")
            state.save_to_file(fn, overwrite=True)
            rec.label("file")
    # Equality is sensitive to every single value, name and sample.
    other, _ = build(n, case["rec"])
    require(other == state and not (other != state), "equal records")
    keys = sorted(model.v)
    a, b = keys[case["perturb"] % len(keys)]
    i = case["perturb"] % n
    vals = list(model.v[(a, b)])
    v = vals[i]
    if isinstance(v, bool):
        vals[i] = not v
    elif isinstance(v, str):
        vals[i] = v + "q"
    elif case["tiny"] and isinstance(v, float):
        # small quantities, still far from each other
        vals[i] = v = case["tiny"]
        state.set(a, b, vals[0] if n == 1 else np.array(vals))
        other.set(a, b, vals[0] if n == 1 else np.array(vals))
        require(other == state and state == other, "equal records")
        model.v[(a, b)] = list(vals)
        vals[i] = 3.0 * v if case["perturb"] % 2 else -v
    else:
        vals[i] = v + 0.01 + 0.01 * abs(v)
    other.set(a, b, vals[0] if n == 1 else np.array(vals))
    require(other != state and state != other, f"changing {a}.{b}[{i}] makes the records unequal")
    other, _ = build(n, case["rec"])
    other.set("alpha", "extra_param", 1.0)
    require(other != state and state != other, "an extra parameter makes the records unequal")
    require(state != GraphState(n) and state != 5 and state != "x", "unequal to other things")
    if n > 1:
        require(state.extract_single_sample(0) != state, "unequal to one of its samples")
    # Restoring one value in a one-sample slice
    one = state.extract_single_sample(i)
    one.set("alpha", "extra_param", 2.0)
    one.set(a, b, 0.125)
    require(one[a][b] == 0.125 and one["alpha.extra_param"] == 2.0, "a sample can be updated")
    agree(state, model, "record after its sample was changed")


@check(
    "C03",
    fd({"n": st.integers(1, 5), "keys": st.lists(st.sampled_from(PARAMS), min_size=1, max_size=4, unique=True),
        "seed": st.integers(0, 999)}),
    quick=150,
)
def transposed_lists(case, rec):
    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    d = {k: list(rng.normal(size=n)) for k in case["keys"]}
    out = transpose_dict_of_list(d, n)
    require(len(out) == n, "one dictionary per entry")
    for i in range(n):
        require(out[i] == {k: v[i] for k, v in d.items()}, f"entry {i}")
    bad = dict(d)
    bad[case["keys"][0]] = bad[case["keys"][0]] + [1.0]
    raises(ValueError, lambda: transpose_dict_of_list(bad, n), "wrong length")
    raises(ValueError, lambda: transpose_dict_of_list(d, 0), "no entries")
    rec.nontrivial(n > 1 and len(d) > 1)
    same(np.array([o[case["keys"][0]] for o in out]), np.array(d[case["keys"][0]]), "values")
