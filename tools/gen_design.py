"""Development helper: writes DESIGN.md from the prose below, the registered checks and known_findings.jsonl."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INTRO = """# Property-based testing of lightcurvelynx (lincc-frameworks/tdastro)

The package simulates time-domain astronomy: a graph of (random) parameter nodes is sampled, physical models turn the
samples into spectra or band fluxes, effects and redshift modify them, surveys (`ObsTable`s) say when an object was
observed and with which noise, and `simulate_lightcurves` joins everything in a nested table. What users rely on - the
same sample everywhere, exact survey matching, physical laws, reproducibility - is quantified over all graphs, surveys,
models, seeds and call histories, while the repository's 362 tests sample a few hand-written instances.

## How a property is decided

* `run.py PROP` runs the checks of one property (`pbt/props/cNN_*.py`). A *check* is a function `f(case, rec)` with a
  Hypothesis strategy that generates JSON-able *cases* (descriptions: graphs, surveys, operation histories, seeds).
  The function builds real objects of the package from the case through the public interface only, runs them and
  compares with an explicit oracle. Any exception while a case is handled - an assertion or an unexpected error of the
  package - is a violation.
* Large arrays inside a case come from `numpy.random.default_rng([case seed, tag])`, so cases stay small, shrink well,
  and are replayed exactly.
* Hypothesis shrinks a failing case; the smallest one is written to `replays/PROP-<hash>.json` together with the message, and
  the line `VIOLATION property=PROP replay=...` is printed (exit 1). `run.py --replay FILE` executes it without
  Hypothesis. Fixed example cases (found bugs, corner cases) run before the generated ones.
* Generation is derandomised from `VERIF_SEED`; PYTHONHASHSEED and threading are pinned; no network, no clock.
* `quick` runs the numbers of cases listed below (10-60 s per property on this machine, C02 up to 80 s); `thorough` runs
  12 times as many cases.
* `evidence/PROP.json` reports evaluations, distinct non-trivial cases (by the rule stated per property below), labels
  and samples. Discarded (rejected) cases are counted separately and never count as evaluations of the oracle.
* The oracle code (`pbt/`) shares no code with the package. It trusts numpy, scipy, pandas, astropy, regions/mocpy
  (sky geometry cross-checks), and `dust_extinction`/`sncosmo` for the curves the package merely delegates to.
* Statistical comparisons use a per-test false-alarm probability of 1e-9 to 1e-10; exact relations use equality where
  the code path is deterministic, and otherwise a tolerance justified by conditioning (stated in the check).
* The package and hypothesis live in two virtual environments: `pbt/core.py` runs under the package's interpreter and
  imports only `hypothesis` (and its two dependencies) from the tools environment through an import hook.
* No hooks are needed in /repo: everything is observed through the public interface, so the checks judge behaviour, not
  the way it is written. Nothing reads private attributes or source text.

Shared machinery: `pbt/dag.py` (graphs with a reference evaluation), `pbt/zoo.py` (catalogue of all model classes with
independent closed forms, random parameters, effects, redshift, composites), `pbt/bands.py` (transmission tables),
`pbt/surveys.py` + `pbt/sky.py` (surveys of every class, footprints, spherical geometry), `pbt/gen.py` (strategies).

Why generated search rather than proofs: the deciding quantities are float arrays flowing through numpy/pandas/astropy;
the interesting failures come from combinations (sample counts, dtypes, row indices, call histories, nested composites,
filter names that are prefixes of each other), which is exactly what structured generation covers. No property had to be
declared not applicable.

## Properties

For each: what is generated against which oracle, why the existing tests cannot reach it, the checks with their quick
case counts, the non-triviality rule, and the assumptions (limits of the claim).
"""

P = {
"C01": ("Random acyclic graphs of parameter, function, multi-output, random and model nodes are built from a description; after sampling, every "
  "recorded parameter is recomputed from the recorded inputs with the harness's own copy of the functions, links must hold the very same value, user functions "
  "count their calls (one vectorised call per sampling), caller-fixed values must survive and flow downstream. Histories re-link parameters between samplings.",
  "the tests use graphs of 2-4 nodes; sharing, re-linking, falsy arguments, vector values and fixed values interact only in larger random graphs."),
"C02": ("The same description is run twice with the same generator state; between the runs node seeds, numpy's global state, earlier draws, evaluation order, "
  "hash seeds and even the process differ. Outputs must be bit-identical. Different generators must give different continuous draws.",
  "reproducibility quantifies over everything that happened before; tests compare two adjacent runs of single nodes."),
"C03": ("Histories of set/update/copy/extract operations on a `GraphState` run beside a dictionary-of-lists model; all conversions (table, dict, list, file) are round-tripped; "
  "equality is tested against minimally perturbed copies.",
  "value kinds (text, None, vectors, big ints, one sample) multiply with operations and conversions."),
"C04": ("The edge list a random graph was built from is compared with `build_dependency_graph`, names with uniqueness and labels, over histories of samplings through several roots.",
  "name clashes need several unlabelled nodes of one class, several roots and later additions."),
"C05": ("Expressions generated from the full grammar are evaluated by the node and by an independent evaluator over Python's `ast` (scalar float arithmetic), element by element, with numpy, math and jax "
  "backends; rounding error is estimated so that ill-conditioned cases are not compared. Rejection: one forbidden construct is spliced into a valid expression; a canary file shows it was not executed.",
  "precedence, unary minus/power, integer inputs, name shadowing and every forbidden AST node cannot be enumerated by examples."),
"C06": ("Samplers over lists, tables and weights are driven by histories of draws with different batch sizes beside a list model; weighted choices face exact binomial/chi-square tests.",
  "order across calls, exhaustion, mutation of the caller's table, and proportions need histories and thousands of draws."),
"C07": ("numpy-backed nodes: differential against `Generator` with the same state and arguments; other samplers: Kolmogorov-Smirnov / chi-square against closed-form distribution functions with per-sample arguments (probability integral transform).",
  "per-sample arguments and output shapes form a large product space; the law of the draws is invisible to single-value tests."),
"C08": ("Random surveys are drawn with many seeds and tested for uniformity, repetition and use. Every drawn position is checked against brute-force spherical distance to the fields (or the MOC), rows against times, and large samples against uniformity in area.",
  "poles, RA = 0, tiny fields and repeated pointings are reached by generated footprints only."),
"C09": ("Surveys with any index and footprints; queries placed on, just inside and just outside rows, radii and time limits are compared with a brute-force haversine/tangent-plane search; batch equals singles.",
  "the answer must be right for every geometry; tests use a handful of fields."),
"C10": ("Histories of filters (mask, index, where), added/overwritten columns and setting changes are mirrored by a plain dict of columns; after every step all accessors, searches and noise queries equal those of a freshly built survey.",
  "stale caches (search tree, noise, filters) appear only after particular histories."),
"C11": ("Write/read round trips of all survey classes (database, parquet, repeated), overwriting policies, column aliases and setting precedence, with settings of built-in and numpy types, compared value by value.",
  "dtypes, extra columns, mapped names and repeated trips multiply."),
"C12": ("An independent implementation of the noise budget in electrons is compared for arrays/scalars over many decades and for OpSim, ZTF, Roman and user-configured surveys (settings as Python or numpy numbers); monotonicity and 1/sqrt(n) scaling as metamorphic relations; zero points by their stated definition (one electron per second, SNR 5).",
  "tests check a few numbers; units, per-exposure values and row alignment after filtering are only visible on varied tables."),
"C13": ("Outlines (rectangle, circle, ellipse, asymmetric polygons; degrees or pixels) against own tangent-plane geometry with astropy's WCS as cross-check; metamorphic: moving and rotating pointing and positions together, RA branches, batching.",
  "the whole sphere times rotations times shapes."),
"C14": ("A reference cadence (exact times, band cycling, darkest-sky choice over brute-force candidates, copied columns) is compared row by row, and the result is searched like any survey.",
  "ties, row indices, settings and candidates at the edge need generated surveys."),
"C15": ("Normalisation, bounds, linearity, independence of scale and of other rows on generated tables/spectra; convergence against fine numerical photon-weighted integration.",
  "quantified over all transmission curves and spectra."),
"C16": ("Groups of passbands with disjoint/overlapping/nearly equal grids are compared with each member alone; name resolution against a small reference.",
  "grid merging errors depend on relative offsets of grids."),
"C17": ("A reference processing (unit, trimming by cumulative throughput, even stretched grid, interpolation) for generated tables, files in each format and other libraries' bandpasses; malformed tables must be refused.",
  "table sizes, steps and tails interact; tests use box filters."),
"C18": ("Metamorphic: batch versus single samples, permuted / repeated / sub-setted times, wavelengths and filters, constants instead of sampled values, repeated evaluation, newly built models, unchanged inputs, for the catalogue of all models.",
  "needs all models x shapes x orders."),
"C19": ("The redshifted object is compared with its rest-frame twin evaluated at stretched times and wavelengths; windows, band fluxes and sums accordingly; distances by own quadrature for several cosmologies.",
  "tests use one or two redshifts and one model."),
"C20": ("Sequences of built-in and non-commuting harness effects in both frames are applied by a reference loop to the bare model's spectrum; lensing by the closed point-lens formula; noise by distribution tests.",
  "order, frame and per-sample parameters only show with several non-commuting effects and samples."),
"C21": ("A harness source with sample-dependent limits returns garbage outside its range; each rule's closed form is applied from the edge flux; built-in sources likewise.",
  "edges, one-sided limits, redshifted frames, per-sample limits."),
"C22": ("Trees of sums and choices are compared with weighted sums/selections of their parts evaluated alone on extracted parameters; choice proportions by binomial tests.",
  "nesting x per-part settings x sample selection."),
"C23": ("Own straight-line interpolation with baseline/periodic wrap of the tabulated curves versus band fluxes through matching passbands, including LCLIB tables and files.",
  "filter names, spans, epochs, periods, magnitudes and error columns multiply."),
"C24": ("Closed forms written independently (step, sine, linear, galaxy profile, eclipses by circle overlap, Planck, accretion disk, random walk) at random and special points.",
  "special points (edges, contacts, phases) and per-sample parameters."),
"C25": ("Own spline (scipy BSpline basis), bicubic, SALT and BayeSN implementations on generated grids and model directories; wrapped sncosmo/redback against the wrapped source.",
  "grid shapes, degrees, edges and colour-law limits."),
"C26": ("Every observation of every model is recomputed from the model's own spectrum at that time through that filter's passband; closed form for linear spectra through any group.",
  "interleaved filters, repeated times, samples."),
"C27": ("A brute-force simulation (own matching, windows, masks) is compared row by row with `simulate_lightcurves` for one to three surveys.",
  "object/exposure bookkeeping errors need several objects, surveys, windows, empty matches."),
"C28": ("Every flux and uncertainty of simulated light curves is recomputed from saved parameters and the exposure's row; residuals face distribution and correlation tests.",
  "row misalignment and correlated noise are invisible to single-object tests."),
"C29": ("Phase grids in exact rational arithmetic, fluxes by model evaluation and by a closed form.",
  "limits/steps that are or are not representable, per-object redshifts."),
"C30": ("Result tables with any labels, undefined values and histories of row operations are post-processed and compared with a per-row reference and with each light curve processed alone.",
  "row alignment under reordering, concatenation and nested queries."),
"C31": ("Round trips and astropy's conversions for every shape/dtype/unit; zero points and efficiencies by definition and monotonicity.",
  "shapes, dtypes, units and extremes."),
"C32": ("Tripp relation, stretch laws, placement geometry and rates recomputed with own quadrature and vector geometry; distribution tests.",
  "poles/meridian, mass classes at the limit, populations."),
"C33": ("Recording maps check that each sample is looked up at its own position; laws against the dust library; attenuation composed by hand in both frames.",
  "positions x maps x laws x samples."),
"C34": ("Generated files in each format are written, read back and compared; damaged variants must be refused and never change the values.",
  "formats x shapes x damage."),
"C35": ("Histories of requests, remote changes, failures and local edits on a loopback HTTP server; all local files compared with a dictionary model after every step, requests counted; named services reached through a proxy that refuses, or that answers for them over TLS (with a certificate that only this check trusts, pbt/tls).",
  "4 files, up to 14 steps, bodies up to 70 kB, five server behaviours."),
"C36": ("The numbers held by the drawn lines, error bars, images and point clouds are read back (no rendering) and compared with the data.",
  "up to 40 points, 10 filters, all axes options."),
"C37": ("Random graphs are built with the library and, from the same description, evaluated in plain Python; the tree of differentiable values is predicted from the description, resampled from, changed in one place, and its JAX derivatives compared with finite differences of the plain evaluation. For physical models: replay, change and parts of composites.",
  "up to 7 nodes, 1-3 samples, 11 spectral sources, sums and selections."),
}

FALSE = """## False alarms corrected (property or machinery changed, nothing loosened to hide a defect)

* C17 `files`: a step coarser than the whole transmission leaves nothing to normalise; such cases are rejected.
* C18 `bands`: composites apply their own observer-frame effects to band fluxes, which extinction (loudly) cannot do; not generated.
* C28: ZTF uncertainties under negative fluxes are compared relative to the noise without a source (2e-4 of it is the precision of ZTF's background).
* C37: derivatives are only taken of single samples (states of several samples are numpy arrays, which JAX refuses loudly).
* C02 `fresh_processes`: composites with band parts refuse redshift; the harness asked for it in one process only.
* C08 `uniform_in_survey`: cases now keep enough coverage for the documented `max_iterations`.
* C13: positions within 0.02 % of an outline are undecided (pixel grids); placement near poles compared to 3e-8 rad (C32).
* C15/C26/C29: the package keeps grids that agree with the requested step to 1e-5, so integrals are compared to 3e-5.
* C18/C19/C25: SALT and BayeSN compute in single precision (jax float32): tolerances and exponents limited accordingly.
* C19: redshifts with rest-frame extinction stay below 1.1 because extinction laws end at 1000 angstroms (the library refuses).
* C28: ZTF's documented conversion rounds a factor; compared to 2e-4.
* C34: library template times are rounded by the format to a fixed number of digits; the harness writes representable ones.
* C12: a readout noise given as a function is the noise of the whole footprint (fixed by an existing test).

## Assumptions and behaviour deliberately not judged

* `EclipsingBinaryStar` documents AU / solar radii but code and tests use centimetres; the checks use centimetres.
* `eddington_ratio_dist_fun`: only the sign-agnostic power-law relations are checked (the normalisation looks inverted).
* AGN light curves before their epoch t0 are NaN; composites with band-flux parts refuse redshift and spectra.
* `filter` columns overwritten on OpSim/ZTF/Fake surveys do not recompute stored zero points (checked on base tables only).
* Nested queries with repeated labels, concatenating nested tables of different dtypes (nested-pandas limits).
* `GivenValueList`/`GivenValueSampler` share the caller's array; only tables are promised to be independent.
* Small integer dtypes follow numpy's promotion; text formats lose the shape of single rows; H0/Omega_m must be floats.
* Passband names: a filter whose short name equals another's full name is ambiguous and not generated.
* bagle, redback and synphot are not installed: their wrappers are driven with stand-ins (redback) or not at all (bagle).
* BayeSN beyond its first/last knots and the exact drop-off of two dust laws with gain are not judged.
"""


def checks_of(path):
    tree = ast.parse(open(path).read())
    rule, assume, out = "", [], []
    for n in tree.body:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "describe":
            a = n.value.args
            rule = ast.literal_eval(a[1])
            assume = ast.literal_eval(a[2]) if len(a) > 2 else []
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "check":
                    q = [ast.literal_eval(k.value) for k in d.keywords if k.arg == "quick"]
                    out.append((n.name, q[0] if q else 100, (ast.get_docstring(n) or "").split("\n")[0]))
    return rule, assume, out


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    files = {os.path.basename(f)[:3].upper(): f for f in glob.glob(os.path.join(HERE, "pbt", "props", "c*.py"))}
    out = [INTRO]
    for p in props:
        pid = p["id"]
        rule, assume, cs = checks_of(files[pid])
        how, why = P[pid]
        out.append(f"### {pid} {p['title']}\n")
        out.append(f"{how}\n\nBeyond the tests: {why}\n")
        out.append("Checks (quick cases): " + "; ".join(f"`{n}` {q}" + (f" - {d.rstrip('.')}" if d else "") for n, q, d in cs) + ".\n")
        out.append(f"Rule: {rule}\n")
        if assume:
            out.append("Assumptions: " + "; ".join(assume) + ".\n")
    out.append(FALSE)
    out.append("## Planted bugs\n")
    res = os.path.join(HERE, "tools", "catch_table.json")
    table = json.load(open(res)) if os.path.exists(res) else {}
    out.append("`seeded/<id>` holds bugs that pass the repository's tests, with a demonstration; the table says which check reported each "
               "(quick tier, seed 1). Besides these, several hundred throw-away mutants were tried per module during development; "
               "the missed ones led to the broader generators (row counts, dtypes, tiny differences, call histories, prefix names).\n")
    out.append("| planted bug | property | needs | reported by |\n|---|---|---|---|")
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        needs = re.sub(r"\s+", " ", m["needs"]).replace("|", "/")
        out.append(f"| {i} | {m['property']} | {needs} | {table.get(i, 'missed')} |")
    out.append("")
    kf = [json.loads(x) for x in open(os.path.join(HERE, "known_findings.jsonl"))]
    out.append("## Defects found\n\nRepaired in /repo (one `fix:` commit each; `known_findings.jsonl`):\n")
    for k in kf:
        if k["status"] == "fixed":
            out.append(f"* {k['property']} `{k['commit']}` {k['what']}")
    out.append("\nRecorded, not repaired (existing tests encode the wrong behaviour, or no small safe repair):\n")
    for k in kf:
        if k["status"] != "fixed":
            out.append(f"* {k['property']} `{k.get('key', '')}` {k['what']}")
    out.append("")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


if __name__ == "__main__":
    main()
