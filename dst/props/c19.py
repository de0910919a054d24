"""C19 refused calls have no effect: misuse injected into histories of models, inference objects and data."""
import random

import numpy as np
import pandas as pd
from doubleml import concat

from .. import catalog as C, ops as O, snap as S
from ..core import InjectedError, InjectedInterrupt, InjectedOOM, V
from ..learners import REC
from . import common as K

PROP = "C19"
REAL, STUB = K.REAL + ["rdrobust"], K.STUB
RULE = ("Each run: a generated history (fits, refits, tuning, bootstraps, sensitivity analyses, new splittings, reads) into which calls with invalid or "
        "untimely arguments are injected at seeded points - wrong types, values out of range, unknown names, wrong shapes, incomplete partitions, "
        "incompatible operands, analyses of something never fitted or bootstrapped, invalid column roles. Each of them must raise before any learner "
        "is trained or random number is drawn, and leave everything the model, its parts, its inference objects, data, splitting, parameters and the "
        "arguments report bitwise as it was; the next fit and everything after it must be that of a history without the refused calls. "
        "Non-trivial: at least two refused calls; distinct by event-log digest.")
ASSUME = ["only calls that are documented (or by their type evidently) invalid are injected",
          "models that estimate several quantiles or levels may reject arguments of the parts after having dropped the results of earlier fits"]
KINDS = ["fit", "boot", "sens", "draw", "set", "params", "tune", "confint", "padj", "summary"]


def make(rng, v):
    spec = C.make_spec(rng, v)
    heavy = C.HEAVY.get(spec["cls"], 1)
    c = O.caps(spec)
    kinds = [k for k in KINDS if k in c and not (heavy > 3 and k in ("tune", "fit"))]
    ops = []
    n = rng.randint(2, 4) if heavy < 3 else rng.randint(1, 2)
    fits = 0
    if rng.random() < 0.6:
        ops.append(O.gen_fit(rng, spec))
    while len(ops) < n:
        op = O.gen_op(rng, spec, [rng.choice(kinds)])
        fits += op["op"] == "fit"
        if fits > 1 and op["op"] == "fit":
            continue
        ops.append(op)
    out = []
    for op in ops:
        for _ in range(rng.choice([0, 1, 2, 3])):
            out.append({"op": "bad", "k": rng.randrange(10 ** 6)})
        out.append(op)
    for _ in range(rng.choice([2, 3, 5])):
        out.append({"op": "bad", "k": rng.randrange(10 ** 6)})
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "ops": out, "last": O.gen_fit(rng, spec), "rng": rng.randrange(10 ** 6),
            "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.4 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 600, 16000), make, C.variants())


# ------------------------------------------------------------------------------------------------ invalid calls
def bad_splits(w, r):
    n, spec = w.model._dml_data.n_obs, w.spec
    s, c = O.make_smpls(spec, w.df, r.randrange(10 ** 6), n_rep=2)
    a = [list(x) for x in s]
    cl = c is not None
    tr, te = a[1][0]
    out = []
    out.append(("no list", "abc"))
    out.append(("a float", 3.5))
    out.append(("mixed list", [a[0], (tr, te)]))
    out.append(("triples", [[(tr, te, te)] + a[0][1:], a[1]]))
    out.append(("missing observation", [a[0], [(tr, te[:-1])] + a[1][1:]]))
    out.append(("twice tested", [a[0], [(tr, np.append(te, te[0]))] + a[1][1:]]))
    out.append(("out of bounds", [a[0], [(tr, np.append(te[:-1], n))] + a[1][1:]]))
    out.append(("train and test overlap", [a[0], [(np.append(tr, te[0]), te)] + a[1][1:]]))
    out.append(("different numbers of folds", [a[0], a[1][:-1]]))
    out.append(("float indices", [a[0], [(tr, te + 0.5)] + a[1][1:]]))
    out.append(("strings", [a[0], [("a", "b")] + a[1][1:]]))
    if cl:
        bc = [list(x) for x in c]
        sets = []
        (ctr, cte) = bc[1][0]
        sets.append(("no cluster splitting", a, None))
        sets.append(("cluster splitting with one repetition", a, bc[:1]))
        sets.append(("cluster splitting with one fold less", a, [bc[0], bc[1][:-1]]))
        sets.append(("cluster not tested", a, [bc[0], [(ctr, [cte[0][:-1]] + cte[1:])] + bc[1][1:]]))
        return [(x, s_, c) for x, s_ in out] + sets
    return [(x, s_, None) for x, s_ in out]


def model_calls(w, r):
    m, spec = w.model, w.spec
    kd, cp = C.kind(spec), O.caps(spec)
    n, R = m._dml_data.n_obs, m.n_rep
    out = []

    def add(name, fn, *given):
        out.append((name, fn, given))
    if kd == "RD":
        for b in (0, -1, "2", 1.5, None):
            add(f"fit(n_iterations={b!r})", lambda b=b: m.fit(n_iterations=b))
        for lv in (0.0, 1.0, 1.3, "0.9", 1):
            add(f"confint(level={lv!r})", lambda lv=lv: m.confint(level=lv))
        return out
    # fit
    for k_, b in (("n_jobs_cv", "2"), ("n_jobs_cv", 2.0), ("store_predictions", 1), ("store_predictions", "yes"), ("store_models", None), ("store_models", 0)):
        if kd == "base" or k_ == "none":
            add(f"fit({k_}={b!r})", lambda k_=k_, b=b: m.fit(**{k_: b}))
    if kd == "base":
        d, ln = C.d_cols(spec)[0], m.params_names[0]
        if "ext" in cp:
            good = np.linspace(0.2, 0.8, n * R).reshape(n, R)
            exts = [("a list", [1, 2]), ("unknown treatment", {"nope": {ln: good}}), ("no nested dictionary", {d: good}), ("unknown learner", {d: {"ml_nope": good}}),
                    ("a list of numbers", {d: {ln: list(good[:, 0])}}), ("a repetition less", {d: {ln: good[:, :-1]}}), ("an observation less", {d: {ln: good[:-1]}}),
                    ("a repetition more", {d: {ln: np.column_stack((good, good[:, 0]))}}), ("one-dimensional", {d: {ln: good[:, 0]}})]
            dn = C.d_cols(spec)
            if len(dn) > 1:
                exts.append(("one good, one bad treatment", {dn[0]: {ln: good}, dn[1]: {ln: good[:-1]}}))
            if len(m.params_names) > 1:
                exts.append(("one good, one bad learner", {d: {ln: good, m.params_names[1]: good[:, :-1]}}))
            for name, e in exts:
                add(f"fit with external predictions: {name}", lambda e=e: m.fit(external_predictions=e), e)
        elif spec["cls"] not in O.EXT:
            e = {d: {ln: np.full((n, R), 0.4)}}
            add("fit with unsupported external predictions", lambda: m.fit(external_predictions=e), e)
    elif kd == "APOS":
        good = np.full((n, R), 0.4)
        lv = m.treatment_levels[0]
        for name, e in (("a list", [1]), ("unknown level", {99: {"ml_m": good}}), ("no nested dictionary", {lv: good}), ("unknown learner", {lv: {"ml_nope": good}})):
            add(f"fit with external predictions: {name}", lambda e=e: m.fit(external_predictions=e), e)
    # bootstrap
    for me, nb in (("bad", 10), (None, 10), ("normal", 0), ("normal", -3), ("Bayes", 7.0), ("wild", "5")):
        add(f"bootstrap({me!r}, {nb!r})", lambda me=me, nb=nb: m.bootstrap(method=me, n_rep_boot=nb))
    if C.clustered(spec):
        add("bootstrap with clusters", lambda: m.bootstrap(n_rep_boot=5))
    # intervals and p-values
    for j, lv in (("yes", 0.9), (1, 0.9), (False, 1.0), (False, 0.0), (False, 2.5), (False, -0.1), (False, "0.9"), (True, 1.5), (None, 0.9)):
        add(f"confint(joint={j!r}, level={lv!r})", lambda j=j, lv=lv: m.confint(joint=j, level=lv))
    if hasattr(type(m), "p_adjust"):
        for b in ("nope", 5, None):
            add(f"p_adjust({b!r})", lambda b=b: m.p_adjust(b))
    if m.framework is None:
        add("confint before fit", lambda: m.confint())
        add("bootstrap before fit", lambda: m.bootstrap(n_rep_boot=3))
        if hasattr(type(m), "p_adjust"):
            add("p_adjust before fit", lambda: m.p_adjust("bonferroni"))
        if hasattr(type(m), "sensitivity_analysis"):
            add("sensitivity_analysis before fit", lambda: m.sensitivity_analysis())
    elif m.framework.boot_t_stat is None:
        add("joint interval without bootstrap", lambda: m.confint(joint=True))
        if hasattr(type(m), "p_adjust"):
            add("romano-wolf without bootstrap", lambda: m.p_adjust())
    # sensitivity
    if hasattr(type(m), "sensitivity_analysis"):
        for kw in ({"cf_y": 1.0}, {"cf_y": -0.1}, {"cf_d": 1.2}, {"cf_y": "a"}, {"cf_d": 1}, {"rho": 2.0}, {"rho": 1}, {"level": 1.0}, {"level": 0.0}, {"level": 5},
                   {"null_hypothesis": "a"}, {"null_hypothesis": np.zeros(9)}, {"null_hypothesis": 1}):
            add(f"sensitivity_analysis({kw})", lambda kw=kw: m.sensitivity_analysis(**kw))
        if "sens" in cp and m.framework is not None:
            for kw in ({"idx_treatment": 99}, {"idx_treatment": -1}, {"value": "nope"}, {"fill": 1}, {"grid_size": 2}, {"grid_size": 0.5}, {"include_scenario": "a"}, {"benchmarks": 5},
                       {"benchmarks": {"cf_y": [0.1], "cf_d": [0.2], "name": []}}, {"grid_bounds": (0.1, 1.5)}, {"null_hypothesis": "a"}):
                add(f"sensitivity_plot({kw})", lambda kw=kw: m.sensitivity_plot(**kw))
        if hasattr(type(m), "sensitivity_benchmark"):
            for b, fa in (("x1", None), ([], None), (["nope"], None), (["x1", "y"], None), (["x1"], [1]), (["x1"], "a")):
                add(f"sensitivity_benchmark({b!r}, {fa!r})", lambda b=b, fa=fa: m.sensitivity_benchmark(b, fit_args=fa))
    # sample splitting
    for name, s, c in bad_splits(w, r):
        add(f"set_sample_splitting: {name}", lambda s=s, c=c: m.set_sample_splitting(s, c) if c is not None else m.set_sample_splitting(s), s)
    # derived analyses
    df = w.df0
    for meth, bads in (("gate", [np.ones((n, 2)), pd.DataFrame({"a": np.ones(n), "b": np.ones(n)}), "a"]), ("gapo", [np.ones((n, 2)), pd.DataFrame({"a": np.ones(n), "b": np.ones(n)})]),
                       ("cate", [np.ones((n, 2)), "a"]), ("capo", [np.ones((n, 2)), df["x1"]]), ("policy_tree", [np.ones((n, 2)), df["x1"]])):
        if not hasattr(type(m), meth):
            continue
        f = getattr(m, meth)
        for b in bads:
            if not (meth == "cate" and spec["cls"] in ("PLR", "PLRC")):
                add(f"{meth} of {type(b).__name__}", lambda f=f, b=b: f(b), b)
        if meth == "policy_tree":
            add("policy_tree depth", lambda f=f: f(df[["x1"]].copy(), depth="a"))
            add("policy_tree negative depth", lambda f=f: f(df[["x1"]].copy(), depth=-1))
        ok = O.basis(df) if meth in ("cate", "capo") else O.groups(df, 2) if meth != "policy_tree" else df[["x1", "x2"]].copy()
        if m.framework is None and meth != "gate" and meth != "cate":
            pass
        if m.n_rep > 1:
            add(f"{meth} of several repetitions", lambda f=f, ok=ok: f(ok), ok)
        if spec["cls"] == "IRM" and spec["opts"]["score"] == "ATTE":
            add(f"{meth} of the ATTE", lambda f=f, ok=ok: f(ok), ok)
        if meth in ("gate", "cate") and spec["cls"].startswith("PLR") and len(C.d_cols(spec)) > 1:
            add(f"{meth} of several treatments", lambda f=f, ok=ok: f(ok), ok)
    if kd == "APOS":
        for b in (99, [99], [m.treatment_levels[0], 99], "nope"):
            add(f"causal_contrast({b!r})", lambda b=b: m.causal_contrast(b))
        if m.framework is None:
            add("causal_contrast before fit", lambda: m.causal_contrast(m.treatment_levels[0]))
    if kd == "base":
        pn, d = m.params_names, C.d_cols(spec)[0]
        add("evaluate_learners of an unknown learner", lambda: m.evaluate_learners(learners=[pn[0], "ml_nope"]))
        add("evaluate_learners with a number", lambda: m.evaluate_learners(metric=5))
        add("evaluate_learners with nan metric", lambda: m.evaluate_learners(metric=lambda y_true, y_pred: np.nan))
        add("get_params", lambda: m.get_params("ml_nope"))
        # parameters
        K_, p = m.n_folds, {"alpha": 3.0}
        add("parameters of an unknown learner", lambda: m.set_ml_nuisance_params("ml_nope", d, p))
        add("parameters for an unknown treatment", lambda: m.set_ml_nuisance_params(pn[0], "nope", p))
        add("parameters for too many repetitions", lambda: m.set_ml_nuisance_params(pn[0], d, [[p] * K_] * (R + 1)))
        add("parameters for too few folds", lambda: m.set_ml_nuisance_params(pn[-1], d, [[p] * K_] * (R - 1) + [[p] * (K_ - 1)]))
        # tuning
        g = O.grids(spec, m, r.randrange(1000))
        kws = [("grids is a list", dict(param_grids=[g])), ("no grid for a learner", dict(param_grids={k: v for k, v in list(g.items())[1:]})),
               ("unknown scoring", dict(param_grids=g, scoring_methods={"ml_nope": "r2"})), ("scoring is a string", dict(param_grids=g, scoring_methods="r2")),
               ("tune_on_folds", dict(param_grids=g, tune_on_folds="no")), ("n_folds_tune float", dict(param_grids=g, n_folds_tune=2.0)),
               ("n_folds_tune 1", dict(param_grids=g, n_folds_tune=1)), ("search_mode", dict(param_grids=g, search_mode="full")),
               ("n_iter float", dict(param_grids=g, n_iter_randomized_search=3.0)), ("n_iter 1", dict(param_grids=g, n_iter_randomized_search=1)),
               ("n_jobs_cv", dict(param_grids=g, n_jobs_cv=1.0)), ("set_as_params", dict(param_grids=g, set_as_params=1)), ("return_tune_res", dict(param_grids=g, return_tune_res="x"))]
        for name, kw in kws:
            add(f"tune: {name}", lambda kw=kw: m.tune(**kw), kw)
    # inference object
    fw = m.framework
    if fw is not None:
        for name, fn in (("fw + 1", lambda: fw + 1), ("fw - 'a'", lambda: fw - "a"), ("fw * 'a'", lambda: fw * "a"), ("fw * fw", lambda: fw * fw), ("fw * array", lambda: fw * np.ones(3)),
                         ("concat of nothing", lambda: concat([])), ("concat with a number", lambda: concat([fw, 3])),
                         ("too many treatment names", lambda: setattr(fw, "treatment_names", ["q"] * (fw.n_thetas + 1))),
                         ("treatment names are numbers", lambda: setattr(fw, "treatment_names", list(range(fw.n_thetas)))),
                         ("treatment names is a string", lambda: setattr(fw, "treatment_names", "abc")),
                         ("fw.bootstrap", lambda: fw.bootstrap(method="nope")), ("fw.confint", lambda: fw.confint(level=1.2)), ("fw.p_adjust", lambda: fw.p_adjust("nope"))):
            add(name, fn)
        if fw.n_thetas > 1:
            add("sum with another number of coefficients", lambda: fw + other(fw))
    return out


def other(fw):
    from doubleml import DoubleMLFramework
    k = fw.n_thetas - 1
    return DoubleMLFramework({"thetas": fw.thetas[:k], "ses": fw.ses[:k], "all_thetas": fw.all_thetas[:k], "all_ses": fw.all_ses[:k],
                              "var_scaling_factors": fw._var_scaling_factors[:k], "scaled_psi": fw.scaled_psi[:, :k, :]})


def data_calls(w):
    """Role changes that are refused (the data object belongs to the model, too)."""
    d, spec = w.data, w.spec
    y, dc, xc = d.y_col, list(d.d_cols), list(d.x_cols)
    out = []

    def put(name, value):
        out.append((f"data.{name} = {value!r}", lambda: setattr(d, name, value), ()))
    put("x_cols", xc + [y])
    put("x_cols", xc + [dc[0]])
    put("x_cols", xc + ["nope"])
    put("x_cols", [xc[0], xc[0]])
    put("x_cols", 5)
    put("y_col", xc[0])
    put("y_col", dc[0])
    put("y_col", "nope")
    put("y_col", [y])
    put("d_cols", [xc[0]])
    put("d_cols", dc + [y])
    put("d_cols", ["nope"])
    put("d_cols", dc + dc[:1])
    put("d_cols", 3)
    put("z_cols", [xc[0]])
    put("z_cols", y)
    put("z_cols", ["nope"])
    put("z_cols", 3)
    put("t_col", xc[0])
    put("t_col", y)
    put("t_col", "nope")
    put("t_col", 4)
    put("s_col", dc[0])
    put("s_col", "nope")
    put("s_col", ["x1"])
    put("use_other_treat_as_covariate", "yes")
    put("use_other_treat_as_covariate", 1)
    put("force_all_x_finite", "nan")
    put("force_all_x_finite", 1)
    if C.clustered(spec):
        put("cluster_cols", ["nope"])
        put("cluster_cols", [xc[0]])
        put("cluster_cols", y)
        put("cluster_cols", 4)
    out.append(("data.set_x_d('nope')", lambda: d.set_x_d("nope"), ()))
    out.append(("data.set_x_d(3)", lambda: d.set_x_d(3), ()))
    return out


def report(w):
    """The model, its parts and everything it was made from."""
    spec, m, d = w.spec, w.model, w.model._dml_data
    out = {"model": S.snap(spec, m), "inference": O.inference(spec, m) if C.kind(spec) == "RD" or m.framework is None else None}
    for i, (_, s) in enumerate(C.submodels(spec, m)):
        out[f"learner{i}"] = S.freeze(s.learner)
    at = ["x_cols", "d_cols", "y_col", "z_cols", "t_col", "s_col", "use_other_treat_as_covariate", "force_all_x_finite", "x", "y", "d", "z", "t", "s", "n_obs", "n_treat",
          "n_instr", "binary_treats", "binary_outcome", "all_variables"]
    if hasattr(type(d), "cluster_vars"):
        at += ["cluster_cols", "cluster_vars"]
    out["data"] = {a: S.attr(d, a) for a in at}
    out["text"] = str(d)
    return out


def run(scn, sim):
    spec = scn["spec"]
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    out, n = [], 0
    np.random.seed(scn["rng"])
    for op in scn["ops"]:
        if op["op"] != "bad":
            r = K.faulty(w, op, None, sim)
            sim.log(op["op"], r)
            continue
        r = random.Random(op["k"])
        pool = data_calls(w) if r.random() < 0.2 else model_calls(w, r)
        kinds = sorted({c[0].split("(")[0].split(":")[0].split(" ")[0] for c in pool})
        pick = r.choice(kinds)
        name, fn, given = r.choice([c for c in pool if c[0].split("(")[0].split(":")[0].split(" ")[0] == pick])
        before, args, calls, st = report(w), S.freeze(list(given)), REC.calls, np.random.get_state()
        try:
            fn()
            err = None
        except (InjectedError, InjectedInterrupt, InjectedOOM):
            raise
        except Exception as e:
            err = type(e).__name__
        sim.log("bad", name, err)
        sim.fault("invalid_" + pick.split("=")[0].strip())
        if err is None:
            out.append(V("accepted", f"{name} is accepted"))
            break
        n += 1
        if REC.calls != calls:
            out.append(V("work", f"{name} is refused ({err}), but only after {REC.calls - calls} learner calls"))
        now = np.random.get_state()
        if not (st[0] == now[0] and np.array_equal(st[1], now[1]) and st[2:] == now[2:]):
            out.append(V("random", f"{name} is refused ({err}), but consumed random numbers"))
        d = S.diff(before, report(w))
        if d:
            out.append(V("changed", f"{name} is refused ({err}), but changed {d[:2]}"))
        d = S.diff(args, S.freeze(list(given)))
        if d:
            out.append(V("arguments", f"{name} is refused ({err}), but changed its arguments {d[:2]}"))
        if out:
            break
    if not out:
        K.faulty(w, scn["last"], None, sim)
        f = O.refit(w, sim)
        d = S.diff(S.snap(spec, f.model), S.snap(spec, w.model), ignore=("params",))
        if d:
            out.append(V("later", f"after refused calls the next fit differs from that of a new object: {d[:3]}"))
        ch = w.changed_inputs()
        if ch:
            out.append(V("inputs", f"changed: {ch[:2]}"))
    return {"v": out[:2], "nontrivial": n > 1, "sig": f"{spec['cls']}:{[o['op'] for o in scn['ops']]}"}


def shrink(scn):
    yield from K.shrink_ops(scn)
