"""Runs a list of jobs (JSON on stdin) in a fresh process and prints what they gave (used by C02)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import core  # noqa: E402

core._ENV.pop("PYTHONHASHSEED")
core.bootstrap()

import numpy as np  # noqa: E402
from astropy.table import Table  # noqa: E402

from lightcurvelynx.models.lightcurve_template_model import LightcurveData, MultiLightcurveTemplateModel  # noqa: E402
from lightcurvelynx.simulate import simulate_lightcurves  # noqa: E402
from pbt import zoo  # noqa: E402


def text(x):
    return [repr(v.item() if isinstance(v, np.generic) else v) for v in np.ravel(np.asarray(x, dtype=object))]


def run(job):
    out = {}
    if job["kind"] == "lclib":
        g = np.random.default_rng(job["rng"])
        tabs = [Table({"time": np.arange(5.0), **{f: g.uniform(15, 20, 5) for f in "irgzu"}}, meta={"RECUR_CLASS": "NON-RECUR"}) for _ in range(2)]
        m = MultiLightcurveTemplateModel([LightcurveData.from_lclib_table(t, filters=["g", "r", "i"]) for t in tabs], zoo.shared_passbands(), t0=0.0)
        out["filters"] = [list(lc.filters) for lc in m.lightcurves] + [list(m.filters)]
        spec = {"kind": "template_multi"}
    else:
        spec = job["spec"]
        m = zoo.build(spec)
    rng = np.random.default_rng(job["rng"])
    state = m.sample_parameters(num_samples=job["n"], rng_info=rng)
    d = state.to_dict()
    out["params"] = [[k, text(v)] for k, v in d.items()]
    t = np.array(job["times"])
    filt = np.array(zoo.FILTERS)[np.arange(len(t)) % 3]
    out["bands"] = text(m.evaluate_bandfluxes(zoo.shared_passbands(), t, filt, state, rng_info=rng))
    if not zoo.is_band(spec):
        out["sed"] = text(m.evaluate_sed(t, np.array(job["waves"]), state, rng_info=rng))
    if job["kind"] == "simulate":
        obs = zoo.opsim(30, job["rng"], spread=4.0, radius=6.0)
        r = simulate_lightcurves(m, job["n"], obs, zoo.shared_passbands(), rng=rng)
        out["nobs"] = r["nobs"].tolist()
        out["lc"] = [None if x is None else [text(x[c]) for c in x.columns] for x in r["lightcurve"]]
        out["lcols"] = [list(r.columns), [list(x.columns) for x in r["lightcurve"] if x is not None]]
    return out


if __name__ == "__main__":
    print("RESULT " + json.dumps([run(j) for j in json.load(sys.stdin)]))
    sys.stdout.flush()
    zoo.cleanup()
    os._exit(0)
