"""C14 cells of joint models (repetition, treatment, quantile, level) against models that cover only one cell."""
import copy
import random

import numpy as np

from .. import catalog as C, ops as O, snap as S
from ..core import V
from . import common as K

PROP = "C14"
REAL, STUB = K.REAL, K.STUB
RULE = ("Each run: a model with several repetitions, treatments, quantiles or treatment levels, with parameters that differ by repetition and fold, some "
        "supplied predictions and possibly a past (earlier fits, splittings), fitted under a seeded execution mode; then models that cover only one cell, "
        "subsets of the repetitions, and other orders of repetitions, quantiles, levels and treatments, each with the corresponding splitting, weights, "
        "parameters and data roles. Every reported number of a cell must be the same up to rounding (1e-9; other orders of the treatments 1e-6). "
        "Non-trivial: the joint model has at least two cells; distinct by event-log digest.")
ASSUME = ["regression discontinuity models draw their splittings themselves and are left out"]
PICK = [v for v in C.variants() if v[0] != "RD"]
TOL = 1e-9           # summation order may depend on the shape of the stored arrays
MULTI = [v for v in PICK if v[1].get("n_treat", 1) > 1 or C.kind({"cls": v[0]}) != "base"]


def make(rng, v):
    heavy = C.HEAVY.get(v[0], 1)
    spec = C.make_spec(rng, v, n_rep=rng.choice([2, 2, 3]) if heavy < 4 else rng.choice([1, 2]))
    if spec["cls"] == "QTE":
        spec["quantiles"] = sorted(rng.sample([0.3, 0.4, 0.5, 0.6, 0.7], rng.choice([2, 3]) if v[1]["score"] != "LPQ" else 2), key=lambda _: rng.random())
    if spec["cls"] == "APOS":
        spec["levels"] = rng.choice([[0, 1, 2], [2, 0], [1, 2], [2, 1, 0], [1, 0, 2]])
    c = O.caps(spec)
    pre = []
    if rng.random() < 0.3 and heavy < 4:
        pre = [O.gen_fit(rng, spec)] + [O.gen_op(rng, spec, ["boot", "sens", "summary", "params"]) for _ in range(rng.choice([0, 1]))]
    params = []
    if "params" in c and rng.random() < 0.6:
        params = [{**O.gen_op(rng, spec, ["params"]), "none": False, "deep": True} for _ in range(rng.choice([1, 2, 3]))]
    fit = O.gen_fit(rng, spec)
    if "ext" in c and rng.random() < 0.3:
        fit["extsel"] = rng.randrange(1000)
        if not pre:
            pre = [{"op": "fit", "sp": True, "sm": False, "cfg": dict(O.SEQ)}]
        pre[0]["sp"] = True
    perm = rng.choice(["none", "reps", "reps", "coefs", "coefs", "subset"])
    if perm == "coefs" and len(C.d_cols(spec)) > 2:
        spec["quiet"] = True
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "pre": pre, "params": params, "fit": fit,
            "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.5 else None, "cells": rng.randrange(10 ** 6),
            "perm": perm}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 420, 9000), make, PICK + MULTI)


def take(a, r, j):
    """[:, r, j] of arrays with these trailing dimensions."""
    return None if a is None else np.array(a[..., r, j])


def cell(m, r, j):
    """Everything a base model reports about repetition r of treatment j."""
    fw = m.framework
    tr = m._dml_data.d_cols[j]
    out = {"coef": float(m.all_coef[j, r]), "se": float(m.all_se[j, r]), "psi": take(m.psi, r, j), "psi_deriv": take(m.psi_deriv, r, j),
           "psi_elements": {k: take(v, r, j) for k, v in m.psi_elements.items()},
           "framework": [float(fw.all_thetas[j, r]), float(fw.all_ses[j, r]), np.array(fw.scaled_psi[:, j, r]), float(fw.var_scaling_factors[j])],
           "loss": {k: take(v, r, j) for k, v in (m.nuisance_loss or {}).items()}}
    se = m.sensitivity_elements
    if se is not None:
        out["sens"] = {k: take(v, r, j) for k, v in se.items() if v is not None and np.ndim(v) == 3}
    for name in ("predictions", "nuisance_targets"):
        P = getattr(m, name)
        out[name] = None if P is None else {k: take(v, r, j) for k, v in P.items() if v is not None}
    M = m.models
    if M is not None:
        out["models"] = {k: S.freeze(v[tr][r]) for k, v in M.items()}
    return out


def fallback(c):
    """The treatment's nu2 was re-estimated from the Riesz representer, which happens when it is not positive in any repetition."""
    s = c.get("sens")
    return s is not None and np.array_equal(s["psi_nu2"], np.power(s["riesz_rep"], 2))


def compare(lone, joint):
    if fallback(joint) and not fallback(lone):
        rr2 = np.power(lone["sens"]["riesz_rep"], 2)
        lone["sens"].update(psi_nu2=rr2, nu2=np.mean(rr2, axis=0, keepdims=True))
    if fallback(lone) and not fallback(joint):
        return ["nu2 was re-estimated although it is positive in every repetition"]
    return S.diff(lone, joint, rtol=TOL)


def single(w, sub, spec_i, r, tr, ext, fit, sim, conf_i):
    """A model that covers only repetition(s) r of treatment tr (conf_i: splitting and parameters of the joint sub-model)."""
    reps = [r] if isinstance(r, int) else list(r)
    conf = {"smpls": [conf_i["smpls"][x] for x in reps], "cl": None if conf_i["cl"] is None else [conf_i["cl"][x] for x in reps],
            "params": [[(ln, t, [p[x] for x in reps]) for ln, t, p in ps if tr is None or t == tr] for ps in conf_i["params"]]}
    sp = {**spec_i, "n_rep": len(reps)}
    kw = {}
    if sp["opts"].get("weights") == "dict":
        wt = C.make_weights({**spec_i, "n_rep": w.spec["n_rep"]})
        kw["model_kw"] = {"weights": {"weights": wt["weights"], "weights_bar": wt["weights_bar"][:, reps]}}
    if tr is not None and len(C.d_cols(spec_i)) > 1:
        x = list(C.roles(spec_i)["x_cols"])
        if C.roles(spec_i).get("use_other_treat_as_covariate", True):
            x += [c for c in C.d_cols(spec_i) if c != tr]
        sp["opts"] = {k: v for k, v in sp["opts"].items() if k not in ("n_treat", "other_cov")}
        sp["d_cols"], sp["x_cols"] = [tr], x
    f = O.World(sp, 0, own_split={"seed": 1}, df=w.df0.copy(deep=True), **kw)
    O.config_onto(f, conf)
    e = None
    if ext is not None:
        e = {t: {k: v[:, reps].copy() for k, v in d.items()} for t, d in ext.items() if tr is None or t == tr}
    O.apply(f, {"op": "fit", "sp": fit.get("sp", True), "sm": fit.get("sm", False), "cfg": dict(O.SEQ), "ext": e}, sim)
    return f


def run(scn, sim):
    spec = scn["spec"]
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    for op in scn["pre"]:
        O.apply(w, op, sim)
    if scn["pre"] and scn["own"] and scn["fit"].get("extsel") is None:
        w.set_smpls(*O.make_smpls(spec, w.df, scn["own"]["seed"] + 1))
    for op in scn["params"]:
        O.apply(w, op, sim)
    if scn["fit"].get("extsel") is not None and w.model.framework is None:
        scn = {**scn, "fit": {**scn["fit"], "extsel": None}}
    conf = O.config(spec, w.model)
    O.apply(w, scn["fit"], sim)
    m = w.model
    ext = w.last["ext"]
    k = C.kind(spec)
    out = []
    rng = random.Random(scn["cells"])
    subs = C.submodels(spec, m)
    heavy = C.HEAVY.get(spec["cls"], 1)
    cells = [(i, r, j) for i, (s, b) in enumerate(subs) for r in range(b.n_rep) for j in range(len(C.d_cols(s)))]
    sim.log(len(cells), S.digest(S.snap(spec, m, models=False)))
    limit = 6 if heavy < 4 else 3
    for i, r, j in rng.sample(cells, min(len(cells), limit)):
        s, b = subs[i]
        tr = C.d_cols(s)[j]
        e = ext
        if k == "APOS" and ext is not None:
            e = {"d": ext[m.treatment_levels[i]]} if m.treatment_levels[i] in ext else None
        conf_i = {**conf, "params": [conf["params"][i]]}
        s1 = {**s, "alpha": spec.get("alpha", 0.0)}
        f = single(w, b, s1, r, tr, e, scn["fit"], sim, conf_i)
        d = compare(cell(f.model, 0, 0), cell(b, r, j))
        out += [V("cell", f"sub-model {i}, repetition {r}, treatment {tr} differs from a model of its own: {x}") for x in d[:2]]
        if k == "APOS":
            d = S.diff([float(f.model.all_coef[0, 0]), float(f.model.all_se[0, 0])], [float(m.all_coef[i, r]), float(m.all_se[i, r])], rtol=TOL)
            out += [V("composite", f"level {m.treatment_levels[i]}, repetition {r} of the joint model differs from a model of its own: {x}") for x in d[:1]]
        if out:
            return {"v": out[:3], "nontrivial": True, "sig": None}
    out += permuted(scn, w, conf, ext, sim, rng)
    return {"v": out[:3], "nontrivial": len(cells) > 1, "sig": f"{spec['cls']}:{spec['opts']}:{len(cells)}:{scn['perm']}"}


def permuted(scn, w, conf, ext, sim, rng):
    spec, m, k = w.spec, w.model, C.kind(w.spec)
    fit = scn["fit"]
    how = scn["perm"]
    R = m.n_rep
    if how in ("reps", "subset") and R > 1 and k == "base":
        order = rng.sample(range(R), R if how == "reps" else rng.randint(1, R - 1))
        f = single(w, m, spec, order, None, ext, fit, sim, conf)
        out = []
        for j in range(len(C.d_cols(spec))):
            for a, r in enumerate(order):
                out += [V("repetitions", f"repetitions {order} of {R} on their own, repetition {r}: {x}") for x in compare(cell(f.model, a, j), cell(m, r, j))[:1]]
        if how == "reps":
            for a in ("coef", "se"):
                d = S.diff({a: np.array(getattr(m, a))}, {a: np.array(getattr(f.model, a))}, rtol=TOL)
                out += [V("aggregate", f"repetitions in the order {order}: {x}") for x in d]
        return out
    if how != "coefs":
        return []
    if k == "QTE":
        q = list(spec.get("quantiles", spec["opts"]["quantiles"]))
        keep = rng.sample(range(len(q)), rng.randint(1, len(q)))
        return composite(w, {**spec, "quantiles": [q[i] for i in keep]}, keep, conf, None, fit, sim, len(q))
    if k == "APOS":
        lv = list(spec.get("levels", spec["opts"]["levels"]))
        keep = rng.sample(range(len(lv)), rng.randint(1, len(lv)))
        e = None if ext is None else {x: v for x, v in ext.items() if x in [lv[i] for i in keep]} or None
        return composite(w, {**spec, "levels": [lv[i] for i in keep]}, keep, conf, e, fit, sim, len(lv))
    dc = C.d_cols(spec)
    if len(dc) < 2:
        return []
    order = rng.sample(range(len(dc)), len(dc))
    sp = {**spec, "d_cols": [dc[i] for i in order]}
    f = O.World(sp, 0, own_split={"seed": 1}, df=w.df0.copy(deep=True))
    O.config_onto(f, conf)
    O.apply(f, {"op": "fit", "sp": fit.get("sp", True), "sm": fit.get("sm", False), "cfg": dict(O.SEQ), "ext": copy.deepcopy(ext)}, sim)
    out = []
    for a, j in enumerate(order):
        for r in range(R):
            d = S.diff(cell(f.model, r, a), cell(m, r, j), ignore=("models",), rtol=1e-6)
            out += [V("treatment-order", f"treatments in the order {sp['d_cols']}, treatment {dc[j]}, repetition {r}: {x}") for x in d[:1]]
    return out


def composite(w, sp, keep, conf, ext, fit, sim, n):
    f = O.World(sp, 0, own_split={"seed": 1}, df=w.df0.copy(deep=True))
    f.set_smpls(conf["smpls"], None)
    O.apply(f, {"op": "fit", "sp": fit.get("sp", True), "sm": fit.get("sm", False), "cfg": dict(O.SEQ), "ext": copy.deepcopy(ext)}, sim)
    out = []
    for name in ("coef", "se", "t_stat", "pval"):
        d = S.diff({name: np.array(getattr(w.model, name))[keep]}, {name: np.array(getattr(f.model, name))}, rtol=TOL)
        out += [V("coefficients", f"positions {keep} of {n} on their own: {x}") for x in d]
    for name in ("all_coef", "all_se"):
        d = S.diff({name: np.array(getattr(w.model, name))[keep, :]}, {name: np.array(getattr(f.model, name))}, rtol=TOL)
        out += [V("coefficients", f"positions {keep} of {n} on their own: {x}") for x in d]
    d = S.diff({"ci": w.model.confint().to_numpy()[keep]}, {"ci": f.model.confint().to_numpy()}, rtol=TOL)
    out += [V("coefficients", f"confidence intervals of positions {keep} of {n} on their own: {x}") for x in d]
    fw, g = w.model.framework, f.model.framework
    d = S.diff({"scaled_psi": np.array(fw.scaled_psi[:, keep, :])}, {"scaled_psi": np.array(g.scaled_psi)}, rtol=TOL)
    out += [V("coefficients", f"scores of positions {keep} of {n} on their own: {x}") for x in d]
    return out


def shrink(scn):
    if scn["perm"] != "none":
        yield {**scn, "perm": "none"}
    if scn["pre"] and scn["fit"].get("extsel") is None:
        yield {**scn, "pre": []}
    if scn["fit"].get("extsel") is not None:
        yield {**scn, "fit": {**scn["fit"], "extsel": None}}
    for i in range(len(scn["params"])):
        yield {**scn, "params": scn["params"][:i] + scn["params"][i + 1:]}
    if scn["fit"]["cfg"]["mode"] != "seq":
        yield {**scn, "fit": {**scn["fit"], "cfg": dict(O.SEQ)}}
    if scn["spec"]["n_folds"] > 2:
        c = copy.deepcopy(scn)
        c["spec"]["n_folds"] = 2
        yield c
