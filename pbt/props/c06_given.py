import numpy as np
import pandas as pd
from astropy.table import Table
from hypothesis import strategies as st
from scipy import stats

from lightcurvelynx.base_models import FunctionNode
from lightcurvelynx.math_nodes.given_sampler import (
    BinarySampler,
    GivenValueList,
    GivenValueSampler,
    GivenValueSelector,
    TableSampler,
)
from lightcurvelynx.math_nodes.single_value_node import SingleVariableNode

from ..core import check, close, describe, raises, require, same
from ..gen import fd, gr, seeds

describe(
    "C06",
    "Cases are lists, tables and weights of several types with random sequences of draws (batch sizes 1-5, resets, "
    "draws past the end, direct use and use through other nodes); non-trivial when draws of different batch sizes "
    "follow each other, or weights differ or contain a zero.",
    ["statistical comparisons use 3000-6000 draws with a rejection probability below 1e-9 per case"],
)


def entries(kind, n, seed):
    rng = np.random.default_rng(seed)
    if kind == "float":
        return [float(v) for v in rng.normal(size=n).round(3) + np.arange(n) * 10]
    if kind == "int":
        return [int(v) for v in rng.permutation(5 * n)[:n]]
    if kind == "text":
        return [f"item{v}" for v in rng.permutation(5 * n)[:n]]
    if kind == "object":
        # mixed values, as read from a table with gaps
        pool = [None, 1.5, "text", 7, True, None, -0.25]
        return [pool[int(v)] for v in rng.integers(0, len(pool), size=n - 1)] + [None]
    if kind == "bool":
        return [bool(v) for v in rng.integers(0, 2, size=n)]
    return [list(v) for v in rng.normal(size=(n, 2)).round(4)]


def wrap(vals, form):
    if any(v is None for v in vals):
        arr = np.empty(len(vals), dtype=object)
        arr[:] = vals
        return arr
    if form == "array":
        return np.array(vals)
    if form == "tuple":
        return tuple(vals)
    if form == "series" and np.ndim(vals) == 1:
        return pd.Series(vals, index=np.arange(len(vals))[::-1] + 7)
    return list(vals)


DRAWS = st.lists(st.one_of(st.integers(1, 5), st.integers(1, 5), st.just("reset")), min_size=1, max_size=10)


def per_sample(v, n):
    return [v] if n == 1 else list(v)


@check(
    "C06",
    fd({"kind": st.sampled_from(["float", "object", "int", "text", "bool", "vec"]), "n": st.integers(1, 12), "seed": seeds(),
        "form": st.sampled_from(["list", "array", "tuple", "series"]), "draws": DRAWS, "via": st.booleans()}),
    quick=700,
)
def lists_are_returned_in_order(case, rec):
    vals = entries(case["kind"], case["n"], case["seed"])
    src = wrap(vals, case["form"])
    keep = np.array(src)
    node = GivenValueList(src, node_label="list")
    top = FunctionNode(lambda v: v, v=node, node_label="top") if case["via"] else node
    pos = 0
    sizes = set()
    for d in case["draws"]:
        if d == "reset":
            node.reset()
            pos = 0
            continue
        if pos + d > len(vals):
            raises(IndexError, lambda d=d: top.sample_parameters(num_samples=d), "the list is exhausted")
            rec.label("exhausted")
            continue
        state = top.sample_parameters(num_samples=d)
        for nm in ("list", "top") if case["via"] else ("list",):
            got = per_sample(state[nm]["function_node_result"], d)
            require(len(got) == d, f"{len(got)} entries for {d} samples")
            for i in range(d):
                same(got[i], vals[pos + i], f"{nm}: entry {pos + i}")
                require(
                    (got[i] is None) == (vals[pos + i] is None) and isinstance(got[i], str) == isinstance(vals[pos + i], str),
                    f"{nm}: entry {pos + i} is {got[i]!r} instead of {vals[pos + i]!r}",
                )
        pos += d
        sizes.add(d)
    same(np.array(src), keep, "the caller's list")
    rec.nontrivial(len(sizes) > 1)


@check(
    "C06",
    fd({"cols": st.integers(1, 4), "n": st.integers(1, 12), "seed": seeds(), "draws": DRAWS,
        "form": st.sampled_from(["table", "dict", "arrays", "pandas", "pandas_index"]), "in_order": st.booleans(),
        "change": st.booleans()}),
    quick=700,
)
def table_rows_stay_together(case, rec):
    n = case["n"]
    kinds = ["int", "float", "text", "int"][: case["cols"]]
    names = ["ra", "col_b", "name", "z"][: case["cols"]]
    data = {nm: entries(k, n, case["seed"] + j) for j, (nm, k) in enumerate(zip(names, kinds))}
    if case["form"] == "dict":
        src = {k: list(v) for k, v in data.items()}
    elif case["form"] == "arrays":
        src = {k: np.array(v) for k, v in data.items()}
    elif case["form"] == "table":
        src = Table(data)
    else:
        src = pd.DataFrame(data)
        if case["form"] == "pandas_index":
            src.index = np.arange(n)[::-1] * 3 + 5
    # rows are drawn at random unless asked for in order
    order = {"in_order": case["in_order"]} if case["in_order"] or case["seed"] % 2 else {}
    node = TableSampler(src, node_label="tab", **order)
    user = FunctionNode(lambda v: v, v=getattr(node, names[-1]), node_label="user")
    if case["change"]:
        # the caller goes on working with their own table
        for k in names:
            if case["form"] == "dict":
                src[k].reverse()
                src[k].append(src[k][0])
            elif case["form"] in ("table", "arrays"):
                src[k][:] = src[k][0]
            else:
                src.loc[:, k] = src[k].iloc[0]
        rec.label("changed by the caller")
    rows = list(zip(*[data[k] for k in names]))
    pos = 0
    sizes = set()
    for d in case["draws"]:
        if d == "reset":
            node.reset()
            pos = 0
            continue
        if case["in_order"] and pos + d > n:
            raises(IndexError, lambda d=d: user.sample_parameters(num_samples=d), "the table is exhausted")
            continue
        state = user.sample_parameters(num_samples=d, rng_info=np.random.default_rng(case["seed"] + d))
        cols = [per_sample(state["tab"][k], d) for k in names]
        got = list(zip(*cols))
        require(len(got) == d, "one row per sample")
        require(set(state["tab"]) == set(names), "all columns are returned")
        for i, r in enumerate(got):
            if case["in_order"]:
                require(tuple(r) == rows[pos + i], f"row {pos + i} is {r}, expected {rows[pos + i]}")
            else:
                require(any(tuple(r) == q for q in rows), f"{r} is not a row of the table")
        require(per_sample(state["user"]["v"], d) == cols[-1], "linked column")
        pos += d
        sizes.add(d)
    for k in names:
        require(case["change"] or list(src[k]) == data[k], "the caller's table is unchanged")
    if not case["in_order"] and n >= 5:
        # rows are drawn with replacement: P(no repeat in a batch of n) = n!/n^n < 0.04
        index = {q: i for i, q in enumerate(rows)}
        rng = np.random.default_rng([case["seed"], 5])
        trials, repeats, first = 40, 0, np.zeros(n)
        for _ in range(trials):
            state = node.sample_parameters(num_samples=n, rng_info=rng)
            got = [index[tuple(r)] for r in zip(*[list(state["tab"][k]) for k in names])]
            repeats += len(set(got)) < n
            np.add.at(first, got, 1)
        require(repeats > 5 or len(set(rows)) < n, f"{trials - repeats} of {trials} batches of {n} rows have no repeated row")
        if len(set(rows)) == n:
            chi2_ok(first, np.full(n, 1 / n), trials * n, "random rows")
    rec.label("in order" if case["in_order"] else "random", case["form"])
    rec.nontrivial(len(sizes) > 1 and n > 1)


def chi2_ok(counts, probs, total, what):
    counts, probs = np.asarray(counts, float), np.asarray(probs, float)
    require(bool(np.all(counts[probs == 0] == 0)), f"{what}: an entry of zero weight was selected: {counts} {probs}")
    ok = probs > 0
    require(int(counts.sum()) == total, f"{what}: {counts.sum()} selections of {total}")
    if ok.sum() < 2:
        return
    # merge rare entries so that the chi-square approximation holds
    order = np.argsort(probs[ok])
    p, c = probs[ok][order], counts[ok][order]
    e = p * total
    k = int(np.searchsorted(np.cumsum(e), 25.0)) + 1
    p = np.concatenate([[p[:k].sum()], p[k:]])
    c = np.concatenate([[c[:k].sum()], c[k:]])
    if len(p) < 2 or (p * total).min() < 25:
        return
    x = float((((c - p * total) ** 2) / (p * total)).sum())
    pv = stats.chi2.sf(x, len(p) - 1)
    require(pv > 1e-10, f"{what}: counts {c} for probabilities {p} (p-value {pv:.2g})")


@check(
    "C06",
    fd(
        {
            "kind": st.sampled_from(["float", "int", "text", "range"]),
            "n": st.one_of(st.integers(1, 8), st.integers(9, 40)),
            "w": st.one_of(st.none(), st.just([2] * 8), st.lists(st.integers(0, 9), min_size=8, max_size=8)),
            "wform": st.sampled_from(["ints", "floats", "array", "intarray", "float32", "probs"]),
            "seed": seeds(),
            "rng": st.booleans(),
            "single": st.booleans(),
        }
    ),
    quick=250,
)
def choices_follow_the_weights(case, rec):
    n = case["n"]
    vals = list(range(n)) if case["kind"] == "range" else entries(case["kind"], n, case["seed"])
    w = None
    probs = np.full(n, 1.0 / n)
    src_w = keep = None
    if case["w"] is not None:
        w = np.resize(np.array(case["w"], dtype=float), n)
        if w.sum() == 0:
            w[0] = 1.0
        probs = w / w.sum()
        src_w = {
            "ints": [int(v) for v in w], "floats": [float(v) for v in w], "array": w.copy(), "intarray": w.astype(int),
            "float32": w.astype(np.float32), "probs": probs.copy(),
        }[case["wform"]]
        keep = np.array(src_w)
    src = (n, np.int64(n))[case["seed"] % 2] if case["kind"] == "range" else vals
    node = GivenValueSampler(src, weights=src_w, seed=case["seed"] % 10000, node_label="choice")
    if keep is not None:
        same(np.array(src_w), keep, "the caller's weights")
        # A second sampler from the same weights behaves the same.
        GivenValueSampler(src, weights=src_w, seed=1)
        same(np.array(src_w), keep, "the caller's weights")
    rng = np.random.default_rng(case["seed"]) if case["rng"] else None
    total = 4000
    got = node.generate(num_samples=total, rng_info=rng)
    require(len(got) == total, "one value per sample")
    index = {v: i for i, v in enumerate(vals)}
    counts = np.zeros(n)
    for v, c in zip(*np.unique(got, return_counts=True)):
        v = v.item()
        require(v in index, f"{v!r} is not one of the given values")
        counts[index[v]] += c
    chi2_ok(counts, probs, total, "batch draws")
    if n > 4 and case["w"] is None:
        # Draws are independent of each other: batches as long as the list repeat values.
        repeats = 0
        trials = 40
        for _ in range(trials):
            b = node.generate(num_samples=n, rng_info=rng)
            repeats += len(set(np.asarray(b).tolist())) < n
        # P(no repeat) = n!/n^n < 0.04 for n >= 5
        require(repeats > 5, f"{trials - repeats} of {trials} batches of {n} draws have no repeated value")
    if n > 1:
        # neighbouring samples are independent
        g = np.array([index[v.item()] for v in np.asarray(got)])
        sel = probs > 0
        top = int(np.argmax(probs))
        pairs = np.sum((g[1:] == top) & (g[:-1] == top))
        p2 = probs[top] ** 2
        if 0 < p2 < 0.99:
            sd = np.sqrt((total - 1) * (p2 * (1 - p2) + 2 * probs[top] ** 3 * (1 - probs[top]))) + 1e-9
            require(abs(pairs - (total - 1) * p2) < 7.5 * sd, f"successive draws are correlated: {pairs} pairs")
        rec.nontrivial(case["w"] is not None and (len(set(probs)) > 1 or not sel.all()))
    if case["single"]:
        c1 = np.zeros(n)
        for _ in range(600):
            c1[index[np.asarray(node.generate(num_samples=1, rng_info=rng)).item()]] += 1
        chi2_ok(c1, probs, 600, "single draws")
        rec.label("single draws")
    raises(ValueError, lambda: GivenValueSampler(vals, weights=[1.0] * (n + 1)), "wrong number of weights")
    raises(ValueError, lambda: GivenValueSampler([]), "no values")
    raises(ValueError, lambda: GivenValueList([]), "no values")
    if n > 1:
        def negative():
            mixed = [3.0] * n
            mixed[case["seed"] % n] = -1.0
            GivenValueSampler(vals, weights=mixed).generate(num_samples=3)

        raises(ValueError, negative, "a negative weight among positive ones")
        # every position of a batch has the same distribution
        m = 9
        firsts, lasts = np.zeros(n), np.zeros(n)
        for _ in range(250):
            b = np.asarray(node.generate(num_samples=m, rng_info=rng))
            firsts[index[b[0].item()]] += 1
            lasts[index[b[-1].item()]] += 1
        chi2_ok(firsts, probs, 250, "first draw of a batch")
        chi2_ok(lasts, probs, 250, "last draw of a batch")


@check(
    "C06",
    fd({"p": st.one_of(st.sampled_from([0.0, 0.004, 0.965, 1.0, 0.5, 0.0125, 0.997, 0.125, 0.335, 0.04]), gr(0, 1)), "seed": seeds(),
        "rng": st.booleans()}),
    quick=120,
)
def binary_choices(case, rec):
    p = case["p"]
    node = BinarySampler(p, seed=case["seed"] % 1000, node_label="b")
    rng = np.random.default_rng(case["seed"]) if case["rng"] else None
    total = 40000
    got = np.asarray(node.generate(num_samples=total, rng_info=rng))
    require(got.dtype == bool and got.shape == (total,), "boolean per sample")
    chi2_ok([got.sum(), total - got.sum()], [p, 1 - p], total, "binary sampler")
    k = 400 if 0.1 < p < 0.9 else 2500
    ones = [bool(node.generate(num_samples=1, rng_info=rng)) for _ in range(k)]
    chi2_ok([sum(ones), k - sum(ones)], [p, 1 - p], k, "single binary draws")
    rec.nontrivial(0 < p < 1)
    for bad in (-0.01, 1.01, 5):
        raises(ValueError, lambda bad=bad: BinarySampler(bad), "probability out of range")


@check("C06", fd({"n": st.sampled_from([1200, 30, 5000, 260]), "seed": seeds(), "weights": st.booleans(), "in_order": st.booleans()}), quick=12)
def long_tables_and_lists(case, rec):
    """Every entry of a long table or list can be drawn, rows stay together."""
    n = case["n"]
    rng = np.random.default_rng([case["seed"] % 2**31, 77])
    a = np.arange(n) * 1.5
    b = rng.permutation(n)
    tab = TableSampler({"a": a, "b": b}, in_order=case["in_order"], node_label="t")
    k = n if case["in_order"] else 30 * n
    st8 = tab.sample_parameters(num_samples=k, rng_info=rng)
    ga, gb = np.asarray(st8["t"]["a"]), np.asarray(st8["t"]["b"])
    idx = (ga / 1.5).round().astype(int)
    same(gb, b[idx], "rows stay together")
    if case["in_order"]:
        same(idx, np.arange(n), "in order")
    counts = np.bincount(idx, minlength=n)
    if not case["in_order"]:
        # every draw is random on its own: no trend along the batch, and as many neighbours go up as go down
        first = idx[: k // 2]
        chi2_ok([(first < n // 2).sum(), (first >= n // 2).sum()], [(n // 2) / n, 1 - (n // 2) / n], len(first), "halves of the table in the first half of the draws")
        pairs = idx[: k // 2 * 2].reshape(-1, 2)
        up, down = int((pairs[:, 0] < pairs[:, 1]).sum()), int((pairs[:, 0] > pairs[:, 1]).sum())
        chi2_ok([up, down], [0.5, 0.5], up + down, "second row of a pair above and below the first")
        chi2_ok([counts[: n // 2].sum(), counts[n // 2 :].sum()], [(n // 2) / n, 1 - (n // 2) / n], k, "halves of the table")
        # P(a given row is missing) = exp(-30)
        require(counts.min() > 0, f"row {int(np.argmin(counts))} of {n} was never drawn in {k} draws")
    w = rng.integers(0, 5, size=n) if case["weights"] else None
    if w is not None:
        w[0] = 5
    node = GivenValueSampler(list(a), weights=w, node_label="g")
    got = (np.asarray(node.generate(num_samples=60 * n, rng_info=rng)) / 1.5).round().astype(int)
    counts = np.bincount(got, minlength=n)
    p = np.full(n, 1 / n) if w is None else w / w.sum()
    blocks = np.arange(n) * 8 // n
    pairs = got.reshape(-1, 2)
    up, down = int((pairs[:, 0] < pairs[:, 1]).sum()), int((pairs[:, 0] > pairs[:, 1]).sum())
    chi2_ok([up, down], [0.5, 0.5], up + down, "second entry of a pair above and below the first")
    chi2_ok(np.bincount(blocks, weights=counts, minlength=8), np.bincount(blocks, weights=p, minlength=8), 60 * n, "eighths of the list")
    require(bool(np.all(counts[p == 0] == 0)), "zero weight")
    require(bool(np.all(counts[p >= 1 / n] > 0)), "an entry of weight >= 1/n was never drawn")
    rec.nontrivial()


@check("C06", fd({"seed": seeds(), "n": st.integers(2, 6), "tiny": st.sampled_from([2.5e-5, 4e-4, 1e-4]), "scale": st.sampled_from([1.0, 3e4, 1e-7])}), quick=12)
def small_weights_count(case, rec):
    """An entry of a very small weight is selected as rarely as its weight says, but not never."""
    n = case["n"]
    rng = np.random.default_rng([case["seed"], 78])
    w = rng.uniform(0.5, 1.5, size=n)
    j = int(rng.integers(0, n))
    w[j] = 0.0
    w[j] = case["tiny"] * w.sum() / (1 - case["tiny"])
    node = GivenValueSampler([f"v{i}" for i in range(n)], weights=list(w * case["scale"]), seed=case["seed"] % 1000)
    total = int(60 / case["tiny"])
    got = np.asarray(node.generate(num_samples=total, rng_info=rng))
    c = int(np.sum(got == f"v{j}"))
    # 60 expected
    pv = stats.poisson.cdf(c, 60.0) if c < 60 else stats.poisson.sf(c - 1, 60.0)
    require(pv > 1e-10, f"the entry of probability {case['tiny']} was drawn {c} times in {total} draws")
    rec.nontrivial()


@check(
    "C06",
    fd({"kind": st.sampled_from(["float", "int", "text", "vec"]), "n": st.integers(1, 6),
        "idx": st.lists(st.integers(0, 30), min_size=1, max_size=6), "seed": seeds(), "over": st.sampled_from([-1, 0, 3])}),
    quick=300,
)
def selected_index_is_returned(case, rec):
    n = case["n"]
    vals = entries(case["kind"], n, case["seed"])
    idx = [i % n for i in case["idx"]]
    k = len(idx)
    src = GivenValueList(idx, node_label="i")
    node = GivenValueSelector(vals, src, node_label="sel")
    state = node.sample_parameters(num_samples=k)
    got = per_sample(state["sel"]["function_node_result"], k)
    for i in range(k):
        same(got[i], vals[idx[i]], f"selected value {i}")
    src.reset()
    for i in range(k):
        same(node.generate(), vals[idx[i]], f"single selection {i}")
    rec.nontrivial(k > 1 and n > 1)
    bad = n + case["over"] if case["over"] >= 0 else -1
    node = GivenValueSelector(vals, SingleVariableNode("index", bad).index)
    raises(IndexError, lambda: node.generate(), "index out of range")
    raises(IndexError, lambda: node.generate(num_samples=3), "index out of range")
    close(len(vals), n, msg="unchanged")
    raises(TypeError, lambda: TableSampler([1, 2, 3]), "unsupported table")
    raises(ValueError, lambda: TableSampler({"a": []}), "empty table")
