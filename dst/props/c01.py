"""C01 cross-fitting honesty: provenance of each reported prediction under simulated schedules; held-out outcomes perturbed."""
import random

import numpy as np

from .. import catalog as C, honest as H, ops as O, snap as S
from ..core import V
from ..learners import REC
from . import common as K

PROP = "C01"
REAL = K.REAL + ["rdrobust"]
STUB = K.STUB
RULE = ("Each run: one model variant, a drawn or harness-made sample splitting (permuted, uneven, clustered), optionally an earlier fit, "
        "parameters or tuning on the same object, then a fit under a seeded schedule of simulated workers. Every reported prediction is traced "
        "through the recorded learner calls to the rows, target and features that trained its learner; then the outcomes of one held-out "
        "fold are permuted and the fit is repeated. Non-trivial: at least one reported prediction was traced; distinct by event-log digest.")
ASSUME = ["learners receive the row-identifying covariate column; targets and features are compared exactly",
          "PQ, LPQ, CVaR and the nonignorable SSM score may train some nuisance functions on a part of the training part"]


def make(rng, v):
    spec = C.make_spec(rng, v)
    pre = []
    if spec["cls"] in ("IRM", "DID", "APO", "APOS") and spec.get("ytype", "cont") == "cont" and rng.random() < 0.4 and not C.clustered(spec):
        spec["share"] = rng.choice([0.1, 0.15, 0.88])    # a small subgroup
    if rng.random() < 0.35 and C.kind(spec) != "RD":
        kinds = ["fit", "set", "params"] + (["tune"] if C.HEAVY.get(spec["cls"], 1) < 4 else [])
        pre = [O.gen_op(rng, spec, kinds) for _ in range(rng.randint(1, 2))]
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "ops": pre, "cfg": O.gen_cfg(rng, spec),
            "own": {"seed": rng.randrange(10 ** 6), "uneven": rng.random() < 0.3} if rng.random() < 0.5 else None,
            "sm": rng.random() < 0.3, "interf": rng.random() < 0.6, "final_set": rng.randrange(10 ** 6) if rng.random() < 0.25 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 720, 9000), make, C.variants())


def run(scn, sim):
    spec = scn["spec"]
    if C.kind(spec) == "RD":
        return run_rd(scn, sim)
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    for op in scn["ops"]:
        O.apply(w, op, sim)
    if scn["final_set"] is not None and scn["ops"]:
        O.apply(w, {"op": "set", "seed": scn["final_set"], "n_folds": spec["n_folds"], "n_rep": w.n_rep}, sim)
    REC.events.clear()
    O.apply(w, {"op": "fit", "sp": True, "sm": scn["sm"], "cfg": scn["cfg"]}, sim)
    out, traced = [], [0]
    idx = H.index_predictions(REC.events)
    all_smpls = w.model.smpls
    for sspec, m in C.submodels(spec, w.model):
        if not S.diff(S.freeze(m.smpls), S.freeze(all_smpls)):
            out += H.check_model(sspec, w.df, m, REC.events, m.smpls, idx=idx, n_total=traced)
            out += [] if out else H.check_start(sspec, w.df, m, REC.events, idx)
        else:
            out.append(V("smpls", "a sub-model uses another sample splitting than the reported one"))
    out += H.check_all_fits(REC.events, all_smpls)
    sim.log(S.digest(S.snap(spec, w.model, models=False)))
    sim.probe("predictions_traced", traced[0])
    if not out and scn["interf"]:
        out += interference(scn, sim, w)
    return {"v": out, "nontrivial": traced[0] > 0, "sig": f"{spec['cls']}{sorted(spec['opts'].items())}"}


def interference(scn, sim, w):
    """Permuting the outcomes inside one held-out fold leaves the predictions of that fold unchanged."""
    spec = scn["spec"]
    smpls = w.model.smpls
    rep = sim.choose(len(smpls))
    k = sim.choose(len(smpls[rep]))
    te = np.asarray(smpls[rep][k][1])
    df2 = w.df.copy(deep=True)
    r = np.random.RandomState(sim.choose(10 ** 6))
    y = df2["y"].to_numpy().copy()
    st = O.strata(spec, df2)
    for c in np.unique(st[te]):
        i = te[st[te] == c]
        y[i] = y[r.permutation(i)]
    if np.array_equal(y, df2["y"].to_numpy()):
        return []
    df2["y"] = y
    w2 = O.World(spec, scn["wseed"], own_split={"seed": 1}, df=df2)
    w2.set_smpls(smpls, w.model.smpls_cluster if C.clustered(spec) else None)
    for (_, m2), ps in zip(C.submodels(spec, w2.model), O.copy_params(spec, w.model)):
        for ln, tr, p in ps:
            m2.set_ml_nuisance_params(ln, tr, p)
    O.apply(w2, {"op": "fit", "sp": True, "sm": False, "cfg": scn["cfg"]}, sim)
    sim.probe("interference_tests")
    out = []
    for (sspec, a), (_, b) in zip(C.submodels(spec, w.model), C.submodels(spec, w2.model)):
        skip = C.PRELIM.get(sspec["cls"], set()) if sspec["cls"] in ("PLR", "PLRC", "PLIV", "PLIVC", "CVAR") else set()
        for nu, P in a.predictions.items():
            if nu in skip:
                continue
            if not np.array_equal(P[te, rep], b.predictions[nu][te, rep], equal_nan=True):
                out.append(V("interference", f"{nu}: permuting held-out outcomes of fold {k} (rep {rep}) changes predictions of that fold"))
    return out[:2]


def run_rd(scn, sim):
    spec = scn["spec"]
    import rdrobust as R
    w = O.World(spec, scn["wseed"])
    calls = []
    orig = R.rdrobust

    def spy(*a, **kw):
        res = orig(*a, **kw)
        calls.append({**{k: np.array(kw[k]) if kw.get(k) is not None else None for k in ("y", "fuzzy")}, "pos": len(REC.events), "h": res.bws.loc["h"].max(),
                      "res": tuple(np.asarray(v.values, float).flatten() for v in (res.coef, res.se))})
        return res
    n_iter = 1 + scn["wseed"] % 3
    REC.events.clear()
    R.rdrobust = spy
    try:
        w.fit(sim, scn["cfg"], n_iterations=n_iter)
    finally:
        R.rdrobust = orig
    sim.log(S.digest(S.snap(spec, w.model)))
    sim.probe("rd_fits")
    out = H.check_rd(spec, w.df, REC.events, calls, w.model.h_fs, n_iter if len(calls) == n_iter * w.model.n_rep else None)
    if not out and len(calls) == n_iter * w.model.n_rep:
        for r in range(w.model.n_rep):
            c = calls[(r + 1) * n_iter - 1]["res"]
            if not (np.array_equal(w.model.all_coef[:, r], c[0]) and np.array_equal(w.model.all_se[:, r], c[1])):
                out.append(V("estimate", f"the estimate of repetition {r} is not the one of its last adjustment"))
    return {"v": out, "nontrivial": True, "sig": f"RD{sorted(spec['opts'].items())}"}


shrink = K.shrink_ops
