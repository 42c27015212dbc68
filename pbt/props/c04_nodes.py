import numpy as np
from hypothesis import strategies as st

from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.math_nodes.np_random import NumpyRandomFunc
from lightcurvelynx.models.basic_models import ConstantSEDModel
from lightcurvelynx.models.multi_object_model import AdditiveMultiObjectModel, RandomMultiObjectModel

from ..core import check, describe, raises, require
from ..dag import PNode, build, graph_strategy, reachable, spec_from_seed
from ..gen import fd, gr
from .c01_graph import verify

describe(
    "C04",
    "Cases are random graphs with labelled and unlabelled nodes (many of the same class), composites, histories "
    "of samplings through different roots with links added in between, and graphs with a reused label; "
    "non-trivial when at least two nodes of one class are unlabelled or several roots share a node.",
    ["every parameter is declared through the public constructors"],
)


def nm(info):
    return info.node.node_string


def names_ok(infos, state=None, what=""):
    names = [nm(i) for i in infos]
    require(len(set(names)) == len(names), f"{what}: two nodes share a name in {sorted(names)}")
    for i in infos:
        if i.node.node_label is not None:
            require(nm(i) == i.node.node_label, f"{what}: label {i.node.node_label} became {nm(i)}")
    if state is not None:
        total = sum(len(i.everything()) for i in infos)
        require(len(state) == total, f"{what}: {len(state)} parameters recorded, {total} defined")
        require(set(state.states.keys()) == set(names), f"{what}: recorded nodes differ from the graph's nodes")


def graph_ok(graph, infos):
    expected_params = set()
    expected_in = {}
    nconst = 0
    for info in infos:
        for p in info.everything():
            full = f"{nm(info)}.{p}"
            expected_params.add(full)
            if p in info.outputs:
                expected_in[full] = sorted(f"{nm(info)}.{q}" for q in info.inputs)
            else:
                src = info.inputs[p]
                if src[0] == "p":
                    expected_in[full] = [f"{nm(src[1])}.{src[2]}"]
                else:
                    expected_in[full] = None
                    nconst += 1
    real = {p for p in graph.all_params if not p.startswith("const_")}
    require(real == expected_params, f"parameters {sorted(real ^ expected_params)} differ")
    consts = [p for p in graph.all_params if p.startswith("const_")]
    require(len(consts) == nconst, f"{len(consts)} constants instead of {nconst}")
    require(len(graph) == len(real) + len(consts), "size of the dependency graph")
    require(set(graph.all_nodes) == {nm(i) for i in infos}, "nodes of the dependency graph")
    out = {p: [] for p in graph.all_params}
    for full, exp in expected_in.items():
        got = sorted(graph.incoming[full])
        require(full in graph, "parameter is contained")
        if exp is None:
            require(len(got) == 1 and got[0].startswith("const_"), f"{full} should depend on one constant: {got}")
            node, p = full.split(".")
            value = [i.inputs[p][1] for i in infos if nm(i) == node][0]
            require(got[0].endswith(f"={value}"), f"{full} depends on {got[0]} instead of the constant {value}")
        else:
            require(got == exp, f"{full} depends on {got}, expected {exp}")
        for g in got:
            out[g].append(full)
    for p, exp in out.items():
        require(sorted(graph.outgoing[p]) == sorted(exp), f"users of {p}: {graph.outgoing[p]}, expected {exp}")
        if p in consts:
            require(graph.incoming[p] == [], "constants depend on nothing")


@check("C04", fd({"nodes": graph_strategy(2, 9), "sample_first": st.booleans(), "n": st.integers(1, 3)}), quick=1500)
def dependency_graph_is_the_link_structure(case, rec):
    infos = build(case["nodes"])
    root = infos[-1]
    reach = reachable(root)
    if case["sample_first"]:
        names_ok(reach, root.node.sample_parameters(num_samples=case["n"]), "first sampling")
    graph = root.node.build_dependency_graph()
    names_ok(reach, None, "dependency graph")
    graph_ok(graph, reach)
    state = root.node.sample_parameters(num_samples=case["n"])
    names_ok(reach, state, "sampling")
    unl = [type(i.node).__name__ for i in reach if i.node.node_label is None]
    rec.label(f"nodes={min(len(reach), 6)}")
    rec.nontrivial(len(unl) > len(set(unl)))


@check("C04", fd({"seed": st.integers(0, 10**6), "size": st.integers(12, 80), "n": st.integers(1, 2)}), quick=30)
def large_graphs(case, rec):
    infos = build(spec_from_seed(case["seed"], case["size"]))
    root = infos[-1]
    reach = reachable(root)
    with np.errstate(all="ignore"):
        state = root.node.sample_parameters(num_samples=case["n"])
    names_ok(reach, state, "sampling")
    graph = root.node.build_dependency_graph()
    graph_ok(graph, reach)
    rec.label(f"reached={10 * (len(reach) // 10)}")
    rec.nontrivial(len(reach) > 10)


@check(
    "C04",
    fd(
        {
            "nodes": graph_strategy(3, 9),
            "ops": st.lists(
                fd({"op": st.sampled_from(["sample", "fresh", "sample", "graph", "link", "const", "wrap", "callable", "fresh"]),
                    "n": st.integers(0, 30), "to": st.integers(0, 30), "o": st.integers(0, 5), "p": st.integers(0, 5),
                    "k": st.integers(1, 3)}),
                min_size=2,
                max_size=8,
            ),
        }
    ),
    quick=1500,
)
def names_stay_unique_over_histories(case, rec):
    """Samplings through different roots, with nodes added in between."""
    infos = build(case["nodes"])
    roots = set()
    for op in case["ops"]:
        info = infos[op["n"] % len(infos)]
        if op["op"] in ("sample", "graph"):
            reach = reachable(info)
            roots.add(id(info))
            if op["op"] == "graph":
                graph = info.node.build_dependency_graph()
                names_ok(reach, None, "dependency graph")
                graph_ok(graph, reach)
            before = {id(i): i.calls[0] for i in reach}
            state = info.node.sample_parameters(num_samples=op["k"])
            names_ok(reach, state, "sampling")
            verify(state, info, op["k"], {}, rec, before)
        elif op["op"] == "wrap":
            # a new unlabelled node that reads an existing one
            names = info.readable()
            t = names[op["o"] % len(names)]
            from ..dag import Info

            node = PNode([("p0", getattr(info.node, t))], None)
            new = Info(node, "params")
            new.inputs = {"p0": ("p", info, t)}
            infos.append(new)
        elif op["op"] == "fresh" and info.kind in ("params", "single", "model", "func", "multi"):
            # the node gets a new unlabelled input of its own and is sampled alone, then as a part
            from ..dag import Info

            p = list(info.inputs)[op["p"] % len(info.inputs)]
            new = Info(PNode([("p0", float(op["to"]))], None), "params")
            new.inputs = {"p0": ("c", float(op["to"]))}
            infos.insert(0, new)
            info.node.set_parameter(p, new.node.p0)
            info.inputs[p] = ("p", new, "p0")
            for r in (info, infos[-1]):
                reach = reachable(r)
                before = {id(i): i.calls[0] for i in reach}
                state = r.node.sample_parameters(num_samples=op["k"])
                names_ok(reach, state, "sampling after a new input")
                verify(state, r, op["k"], {}, rec, before)
                roots.add(id(r))
            rec.label("new input")
        elif info.kind in ("params", "single", "model", "func", "multi"):
            names = list(info.inputs)
            p = names[op["p"] % len(names)]
            pos = infos.index(info)
            if op["op"] == "callable":
                from ..dag import Info

                info.node.set_parameter(p, lambda: 0.75)
                # an anonymous function node is created by the library
                info.inputs[p] = ("c", 0.75)
                rec.label("callable")
                continue_names = info.node.setters[p].dependency
                f = Info(continue_names, "anon")
                f.outputs = ["function_node_result"]
                f.fn = lambda: (0.75,)
                info.inputs[p] = ("p", f, "function_node_result")
            elif op["op"] == "const":
                # the link is replaced by a constant: the old dependency is no longer part of the graph through it
                value = float(op["to"]) / 4.0
                info.node.set_parameter(p, value)
                info.inputs[p] = ("c", value)
                rec.label("link replaced by a constant")
            elif pos > 0:
                dep = infos[op["to"] % pos]
                t = dep.readable()[op["o"] % len(dep.readable())]
                info.node.set_parameter(p, getattr(dep.node, t))
                info.inputs[p] = ("p", dep, t)
    rec.label(f"roots={min(len(roots), 4)}")
    rec.nontrivial(len(roots) > 1)


@check("C04", fd({"nodes": graph_strategy(3, 8), "a": st.integers(0, 20), "b": st.integers(0, 20)}), quick=500)
def reused_labels_are_refused(case, rec):
    spec = [dict(s) for s in case["nodes"]]
    infos = build(spec)
    root = infos[-1]
    reach = reachable(root)
    i, j = case["a"] % len(reach), case["b"] % len(reach)
    if i == j:
        i, j = 0, len(reach) - 1
    if i == j:
        return
    for k in (i, j):
        reach[k].node.node_label = "the_label"
        reach[k].node.set_graph_positions()
    raises(ValueError, lambda: root.node.sample_parameters(num_samples=2), "two nodes with one label")
    raises(ValueError, lambda: root.node.sample_parameters(num_samples=1), "two nodes with one label")
    rec.nontrivial(len(reach) > 2)


@check(
    "C04",
    fd({"kind": st.sampled_from(["add", "rand"]), "parts": st.integers(1, 4), "nested": st.integers(0, 2),
        "lab": st.lists(st.booleans(), min_size=8, max_size=8), "n": st.integers(1, 3), "v": gr(0.1, 5),
        "ra_linked": st.booleans()}),
    quick=300,
)
def composites_contain_all_parts(case, rec):
    host = NumpyRandomFunc("uniform", low=10.0, high=20.0)
    parts = []
    count = 0
    for k in range(case["parts"]):
        bright = FunctionNode(lambda x: x * 2.0, x=host) if k % 2 == 0 else host
        m = ConstantSEDModel(
            brightness=bright, ra=1.0 * k, dec=0.5, redshift=0.1, t0=0.0,
            node_label=f"part{k}" if case["lab"][k] else None,
        )
        parts.append(m)
        count += 6 + (2 if k % 2 == 0 else 0)
    count += 3  # the shared random node
    cls = AdditiveMultiObjectModel if case["kind"] == "add" else RandomMultiObjectModel
    extra = [5] if case["kind"] == "add" else [6 + 1]
    kw = {"ra": parts[0].ra} if case["ra_linked"] else {}
    top = cls(parts, node_label="top" if case["lab"][7] else None, **kw)
    count += extra[0]
    for lev in range(case["nested"]):
        p = ConstantSEDModel(brightness=case["v"], node_label=f"lev{lev}" if case["lab"][4 + lev] else None)
        top = AdditiveMultiObjectModel([top, p], node_label=None)
        count += 6 + 5
    state = top.sample_parameters(num_samples=case["n"])
    graph = top.build_dependency_graph()
    names = set(state.states.keys())
    # every part is recorded under its own name
    for m in parts:
        require(m.node_string in names, f"part {m.node_string} is missing from {names}")
    strings = [m.node_string for m in parts] + [top.node_string]
    require(len(set(strings)) == len(strings), f"names are shared: {strings}")
    real = {p for p in graph.all_params if not p.startswith("const_")}
    require(
        real == set(state.get_all_params_names()),
        f"dependency graph and record differ: {sorted(real ^ set(state.get_all_params_names()))}",
    )
    for k, m in enumerate(parts):
        src = graph.incoming[f"{m.node_string}.brightness"]
        require(len(src) == 1 and not src[0].startswith("const_"), f"brightness of part {k} depends on {src}")
        if k % 2 == 0:
            src = graph.incoming[src[0]]
            require(len(src) == 1, "function output depends on its argument")
            src = graph.incoming[src[0]]
        require(src == [f"{host.node_string}.function_node_result"], f"{src} is not the shared random node")
    if case["kind"] == "add":
        require(len(state) == count, f"{len(state)} recorded, {count} defined")
    rec.nontrivial(case["nested"] > 0 or case["parts"] > 1)
    v = [np.asarray(state[parts[k].node_string]["brightness"]) * (0.5 if k % 2 == 0 else 1.0) for k in range(len(parts))]
    for x in v[1:]:
        require(bool(np.all(np.isclose(x, v[0], rtol=1e-14))), "parts share one draw of the random node")
