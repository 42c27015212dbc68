"""Common machinery: case generation (Hypothesis), shrinking, replay files, evidence.

A *check* is a function  f(case, rec)  registered for one property together with a Hypothesis
strategy that generates JSON-able cases.  The function builds real objects of the library from the
case, runs them and compares with an oracle; any exception (assertion or otherwise) raised while
handling a case is a violation of the property.  The smallest failing case is written to a replay
file, which `run.py --replay FILE` executes without Hypothesis.
"""

import collections
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
_HYP_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_ENV = {
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "JAX_PLATFORMS": "cpu",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONNOUSERSITE": "1",
    "TQDM_DISABLE": "1",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/tmp/.verif_hypothesis",
}


class _OnlyHypothesis:
    """Import hook: takes hypothesis (and what it needs) from the tools venv, and nothing else."""

    names = {"hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_globals"}

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        import importlib.machinery

        if name.split(".")[0] in cls.names and "." not in name:
            return importlib.machinery.PathFinder.find_spec(name, [_HYP_SITE])
        return None


def bootstrap():
    """Pin the environment (re-executing when needed) and the import path."""
    if any(os.environ.get(k) != v for k, v in _ENV.items()):
        env = dict(os.environ)
        env.update(_ENV)
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.meta_path.append(_OnlyHypothesis)
    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)


CHECKS = collections.OrderedDict()  # property -> list of Check
RULES = {}
ASSUMPTIONS = {}


class Check:
    def __init__(self, prop, name, strategy, fn, quick, thorough, examples):
        self.prop, self.name, self.strategy, self.fn = prop, name, strategy, fn
        self.quick, self.thorough, self.examples = quick, thorough, examples


def check(prop, strategy, quick=100, thorough=None, examples=(), name=None):
    def deco(fn):
        c = Check(
            prop, name or fn.__name__, strategy, fn, quick, thorough or quick * 12, list(examples)
        )
        CHECKS.setdefault(prop, []).append(c)
        return fn

    return deco


def describe(prop, rule, assumptions=()):
    RULES[prop] = rule
    ASSUMPTIONS[prop] = list(assumptions)


class Rec:
    """Per-check recorder of what the generated cases exercised."""

    def __init__(self):
        self.evaluations = 0
        self.labels = collections.Counter()
        self.distinct = set()
        self.samples = []
        self._nt = False
        self.known = collections.OrderedDict()

    def start(self):
        self.evaluations += 1
        self._nt = False

    def label(self, *names):
        for n in names:
            self.labels[str(n)] += 1

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True
        return bool(cond)

    def finish(self, case):
        if self._nt:
            text = dumps(case)
            h = hashlib.sha1(text.encode()).digest()
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 2 or (len(self.samples) < 4 and len(self.distinct) % 37 == 0):
                    self.samples.append(case if len(text) < 4000 else text[:4000] + "...")


class Violation(AssertionError):
    pass


class Reject(Exception):
    """The generated case is outside the property's domain (counted, not checked)."""


def fail(msg):
    raise Violation(msg)


def require(cond, msg="", *args):
    if not cond:
        raise Violation(msg if not args else msg % args)


def dumps(x):
    return json.dumps(x, sort_keys=True, default=_jd)


def _jd(x):
    try:
        import numpy as np

        if isinstance(x, np.ndarray):
            return x.tolist()
        if isinstance(x, np.generic):
            return x.item()
    except ImportError:
        pass
    return repr(x)


# --------------------------------------------------------------------------------------
# comparison helpers
# --------------------------------------------------------------------------------------
def close(a, b, rtol=1e-9, atol=0.0, msg=""):
    import numpy as np

    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shape {a.shape} != expected {b.shape}")
    ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(ok):
        i = np.argwhere(~ok)[0]
        i = tuple(int(v) for v in i)
        raise Violation(
            f"{msg}: value {a[i] if i else float(a)!r} != expected {b[i] if i else float(b)!r} at {i}"
        )


def same(a, b, msg=""):
    """Exact equality of array-likes (nan equal to nan)."""
    import numpy as np

    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{msg}: shape {a.shape} != expected {b.shape}")
    if a.dtype.kind == "f" and b.dtype.kind == "f":
        ok = bool(np.array_equal(a, b, equal_nan=True))
    else:
        ok = bool(np.all(a == b))
    if not ok:
        raise Violation(f"{msg}: {_short(a)} != expected {_short(b)}")


def _short(a):
    s = repr(a)
    return s if len(s) < 300 else s[:300] + "..."


def raises(exc, fn, msg):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{msg}: expected {exc}, got {type(e).__name__}: {e}") from e
    raise Violation(f"{msg}: expected {exc}, but returned {_short(r)}")


# --------------------------------------------------------------------------------------
# running
# --------------------------------------------------------------------------------------
class _Stop(KeyboardInterrupt):
    pass


class Outcome:
    def __init__(self):
        self.failure = None  # (case, message, trace)
        self.truncated = False


SHRINK_S = 40.0


def run_check(c, tier, seed, rec, budget_s, scale=1.0):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    out = Outcome()
    t_end = time.time() + budget_s
    state = {"t_fail": None, "best": None}

    def one(case):
        rec.start()
        try:
            c.fn(case, rec)
        except Reject:
            rec.label("rejected")
            return
        rec.finish(case)

    def note_failure(case, e):
        msg = f"{type(e).__name__}: {e}"
        tr = traceback.format_exc()
        size = len(dumps(case))
        if state["best"] is None or size <= state["best"][0]:
            state["best"] = (size, case, msg, tr)
        if state["t_fail"] is None:
            state["t_fail"] = time.time()

    for ex in c.examples:
        try:
            one(ex)
        except Exception as e:  # noqa: BLE001
            note_failure(ex, e)
            out.failure = state["best"][1:]
            return out

    n = c.quick if tier == "quick" else c.thorough
    n = max(1, int(n * scale))

    def body(case):
        now = time.time()
        if state["t_fail"] is not None:
            if now - state["t_fail"] > SHRINK_S:
                raise _Stop()
        elif now > t_end:
            out.truncated = True
            raise _Stop()
        try:
            one(case)
        except (hypothesis.errors.HypothesisException, hypothesis.errors.StopTest):
            raise
        except Exception as e:  # noqa: BLE001
            note_failure(case, e)
            raise Violation("failing case") from None

    sd = (seed * 1000003 + zlib.crc32(f"{c.prop}/{c.name}".encode())) % (2**32)
    test = settings(
        max_examples=n,
        deadline=None,
        database=None,
        derandomize=False,
        print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        backend="hypothesis",
    )(hypothesis.seed(sd)(given(c.strategy)(body)))
    with open(os.devnull, "w") as dn:
        so, se = sys.stdout, sys.stderr
        try:
            sys.stdout = dn
            test()
        except _Stop:
            pass
        except Violation:
            pass
        except Exception as e:  # noqa: BLE001
            if state["best"] is None:
                sys.stdout, sys.stderr = so, se
                raise
            del e
        finally:
            sys.stdout, sys.stderr = so, se
    if state["best"] is not None:
        out.failure = state["best"][1:]
    return out


def load_property(prop):
    for fn in sorted(os.listdir(os.path.join(VERIF, "pbt", "props"))):
        if fn.endswith(".py") and fn != "__init__.py":
            # modules name the properties they serve in their file name: c01_c04_graph.py
            ids = [p.upper() for p in fn[:-3].split("_") if p[:1] == "c" and p[1:].isdigit()]
            if prop in ids:
                importlib.import_module(f"pbt.props.{fn[:-3]}")


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    res = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    res[d["key"]] = d["what"]
    return res


_KNOWN = {}


def known_finding(rec, key, what=""):
    """Called by a check at a place where a listed finding manifests.

    Returns normally (the case is then skipped there) only when the committed file lists the key.
    """
    if key in _KNOWN:
        rec.known[key] = _KNOWN[key]
        rec.label("known:" + key)
        return
    raise Violation(f"unlisted defect {key}: {what}")


def run_property(prop, tier, seed, only=None, scale=1.0):
    t0 = time.time()
    load_property(prop)
    checks = [c for c in CHECKS.get(prop, []) if only is None or c.name == only]
    if not checks:
        print(f"ERROR: no checks for {prop}")
        return 2
    _KNOWN.clear()
    _KNOWN.update(known_findings(prop))
    total = float(os.environ.get("VERIF_BUDGET_S", 420 if tier == "quick" else 3000))
    cov = {}
    violation = None
    evaluations = 0
    nontrivial = 0
    samples = []
    known = collections.OrderedDict()
    t_run = time.time()
    for i, c in enumerate(checks):
        left = total - (time.time() - t_run)
        rec = Rec()
        tc = time.time()
        out = run_check(c, tier, seed, rec, max(5.0, left / (len(checks) - i) * 1.5), scale)
        evaluations += rec.evaluations
        nontrivial += len(rec.distinct)
        samples += [{"check": c.name, "case": s} for s in rec.samples]
        known.update(rec.known)
        cov[c.name] = {
            "evaluations": rec.evaluations,
            "distinct_nontrivial": len(rec.distinct),
            "classes": dict(rec.labels.most_common(30)),
            "seconds": round(time.time() - tc, 2),
            "stopped_by_time_budget": out.truncated,
        }
        if os.environ.get("VERIF_VERBOSE"):
            print(c.name, json.dumps(cov[c.name]))
        if out.failure is not None:
            violation = (c, out.failure)
            break
    rc = 0
    if violation is not None:
        c, (case, msg, tr) = violation
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        text = dumps(case)
        path = os.path.join(
            rdir, f"{prop}_{c.name}_{hashlib.sha1(text.encode()).hexdigest()[:10]}.json"
        )
        with open(path, "w") as f:
            f.write(dumps({"property": prop, "check": c.name, "case": case, "message": msg, "trace": tr}))
        print(f"check {c.name}: {msg}")
        print("\n".join(tr.strip().splitlines()[-12:]))
        print(f"replay with: /opt/venv/bin/python {VERIF}/run.py --replay {path}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    if rc == 0:
        for key, what in known.items():
            print(f"KNOWN-FINDING: property={prop} {key}: {what}")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": RULES.get(prop, ""),
            "samples": samples[:12],
            "per_check": cov,
        },
        "assumptions": ASSUMPTIONS.get(prop, []),
        "violations": 1 if rc else 0,
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=_jd)
    print(
        f"{prop} tier={tier} seed={seed}: {len(cov)} checks, {evaluations} cases, "
        f"{nontrivial} distinct non-trivial, {ev['wall_s']} s, "
        + ("VIOLATED" if rc else "held on everything explored")
    )
    return rc


def replay(path):
    d = json.load(open(path))
    load_property(d["property"])
    _KNOWN.clear()
    _KNOWN.update(known_findings(d["property"]))
    for c in CHECKS[d["property"]]:
        if c.name == d["check"]:
            try:
                c.fn(d["case"], Rec())
            except Reject:
                print("case rejected")
                return 0
            except Exception:  # noqa: BLE001
                traceback.print_exc()
                print(f"VIOLATION property={d['property']} replay={path}")
                return 1
            print("case passes")
            return 0
    print("no such check")
    return 2
