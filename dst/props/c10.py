"""C10 tuning: which rows, target and features every candidate saw, whether the winner won, where it went, and that the next fit uses it."""
import numpy as np
from sklearn.metrics import log_loss, r2_score

from .. import catalog as C, honest as H, ops as O, snap as S
from ..core import V
from ..learners import REC, RecCls, RecReg, SingleCls, SingleReg, predicted_again
from . import common as K

PROP = "C10"
REAL, STUB = K.REAL, K.STUB
RULE = ("Each run: a generated history (fits, parameters, splittings, earlier tuning), then tuning (on folds or not, grid or randomized search, default or given scoring, "
        "assigning or not) under a seeded schedule of simulated workers, possibly with failing candidates or an interrupt, then a fit. Every search is reconstructed from the recorded "
        "learner calls: its rows, target and features must be those of one nuisance function, treatment, repetition and fold, every cell must have one, "
        "the winner must have the best recomputed cross-validated score, and parameters returned, assigned and used by the fit must be that winner's. Non-trivial: at least one "
        "search was reconstructed; distinct by event-log digest.")
ASSUME = ["the tuning target of PQ, LPQ and CVaR and the effect removed from the IV-type outcome may be based on an estimate from all observations",
          "candidates whose score cannot be computed count as failed, as in scikit-learn"]
CLASSES = ["PLR", "PLIV", "IRM", "IIVM", "DID", "DIDCS", "APO", "PQ", "LPQ", "CVAR", "SSM", "PLRC", "PLIVC"]


def make(rng, v):
    spec = C.make_spec(rng, v)
    spec["n_rep"] = rng.choice([1, 2, 2]) if C.HEAVY.get(v[0], 1) < 3 else 1
    if C.HEAVY.get(v[0], 1) > 1:
        spec["n_folds"] = min(spec["n_folds"], 3)
    if v[1].get("weights") == "dict":
        spec["n_rep"] = 1
    ops = []
    if rng.random() < 0.5:
        kinds = ["fit", "set", "params", "tune"] if C.HEAVY.get(v[0], 1) == 1 else ["fit", "set", "params"]
        ops = [O.gen_op(rng, spec, kinds) for _ in range(rng.choice([1, 1, 2]))]
    t = O.gen_tune(rng, spec)
    t["set"] = rng.random() < 0.8
    fault = None
    if rng.random() < 0.3:
        t["cfg"] = dict(O.SEQ) if rng.random() < 0.5 else t["cfg"]
        fault = {"at": "call", "n": rng.choice([1, 2, 5, 9, 20, 45, 80]), "kind": rng.choice(["learner_error", "learner_error", "interrupt", "oom"])}
        if rng.random() < 0.25:
            fault = {"at": "line", "n": int(2 ** rng.uniform(2, 8)), "kind": rng.choice(["interrupt", "oom"])}
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "ops": ops, "tune": t, "fault": fault, "fit": O.gen_fit(rng, spec),
            "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.4 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 560, 12000), make, C.variants(CLASSES))


# ----------------------------------------------------------------- reconstructing searches from learner events
def key(p):
    return tuple(sorted((k, v) for k, v in p.items() if k in ("alpha", "shift")))


def segments(events):
    """Searches, in order: candidate trainings followed by the training of the winner on all rows of the search."""
    out, fits, preds = [], [], {}
    for e in events:
        if e["ids"] is None:
            continue
        if e["ev"] == "predict":
            preds.setdefault(e["serial"], []).append(e)
            continue
        u = set()
        for f in fits:
            u |= f["idset"]
        e["idset"] = frozenset(e["ids"].tolist())
        if fits and u <= e["idset"] and len(fits) > 1 and all(f["idset"] < e["idset"] for f in fits):
            out.append({"label": e["label"], "refit": e, "fits": fits})
            fits = []
        else:
            fits.append(e)
    for s in out:
        s["tests"] = {f["serial"]: preds.get(f["serial"], []) for f in s["fits"]}
    return out, fits


def score(kind, scoring, target, tests):
    """Recomputed score of one candidate on one test part; None if it cannot be computed."""
    try:
        if kind == "cls" and scoring is not None:
            e = next(t for t in tests if t["method"] == "predict_proba")
            y = target(e["ids"])
            return -log_loss(y, np.column_stack((1 - e["out"], e["out"]))) if len(np.unique(y)) == 2 else None
        e = next(t for t in tests if t["method"] == "predict")
        y = target(e["ids"])
        if kind == "cls":
            return float(np.mean(y == e["out"]))
        return -float(np.mean(np.abs(y - e["out"]))) if scoring is not None else r2_score(y, e["out"])
    except StopIteration:
        return None


def check_search(seg, kf, kind, scoring):
    """One search: candidates trained and evaluated on complementary parts of its own rows; the winner has the best score."""
    out = []
    rows = seg["refit"]["idset"]
    ymap = dict(zip(seg["refit"]["ids"].tolist(), seg["refit"]["y"].tolist()))
    target = lambda ids: np.array([ymap[i] for i in ids.tolist()])  # noqa: E731
    cand = {}
    for f in seg["fits"]:
        if f["label"] != seg["label"] or not f["idset"] < rows:
            return [V("search-rows", f"a {f['label']} candidate was trained on other rows than those of its search for {seg['label']}")]
        if not np.array_equal(f["y"], target(f["ids"])):
            return [V("search-target", f"a {f['label']} candidate was trained on another target than the winner of its search")]
        te = frozenset()
        for t in seg["tests"][f["serial"]]:
            te = frozenset(t["ids"].tolist())
            if te & f["idset"]:
                return [V("search-leak", f"a {f['label']} candidate was evaluated on rows it was trained on")]
            if te | f["idset"] != rows:
                return [V("search-rows", f"a {f['label']} candidate was not evaluated on the remaining rows of its search")]
        c = cand.setdefault(key(f["params"]), {"parts": [], "scores": []})
        c["parts"].append(rows - f["idset"])
        if callable(scoring):
            c["scores"].append((1 if scoring is C.prefer_large else -1) * f["params"]["alpha"] if te else None)
        else:
            c["scores"].append(score(kind, scoring, target, seg["tests"][f["serial"]]) if te else None)
    best = {}
    for p, c in cand.items():
        if len(c["parts"]) > kf or len(set(c["parts"])) != len(c["parts"]):
            return [V("search-parts", f"a {seg['label']} candidate was evaluated on {len(c['parts'])} parts instead of {kf}")]
        if len(c["parts"]) == kf and frozenset().union(*c["parts"]) != rows:
            return [V("search-parts", f"the evaluation parts of a {seg['label']} candidate do not cover the rows of its search")]
        if len(c["parts"]) == kf and all(s is not None for s in c["scores"]):
            best[p] = float(np.mean(c["scores"]))
    win = key(seg["refit"]["params"])
    if best and win not in best:
        out.append(V("search-winner", f"the winner {dict(win)} of a search for {seg['label']} was not among the completely evaluated candidates"))
    elif best and best[win] < max(best.values()) - 1e-9 * (1 + abs(best[win])):
        b = max(best, key=best.get)
        out.append(V("search-winner", f"the winner {dict(win)} of a search for {seg['label']} scored {best[win]:.6g}, candidate {dict(b)} {best[b]:.6g}"))
    return out


def cells(spec, df, smpls, folds):
    """[(nuisance, treatment index, rep, fold, rule, rows)] in execution order of treatments, repetitions, folds."""
    out = []
    for j, tr in enumerate(C.d_cols(spec)):
        rules = C.rules(spec, df, tr)
        parts = [(r, k, np.asarray(t)) for r, f in enumerate(smpls) for k, (t, _) in enumerate(f)] if folds else [(0, 0, np.arange(len(df)))]
        for r, k, t in parts:
            for nu, rule in rules.items():
                if isinstance(rule, dict):
                    out.append((nu, j, r, k, rule, frozenset(t[rule["mask"][t]].tolist())))
    return out


def matches(cell, seg):
    nu, j, r, k, rule, rows = cell
    e = seg["refit"]
    if seg["label"] != rule["label"] or e["idset"] != rows:
        return False
    if H.check_target(rule, e["ids"], e["y"]) is not None:
        return False
    return rule["X"] is None or H._cols(rule["X"][e["ids"]]) == H._cols(e["X"])


def assign(spec, df, smpls, folds, segs):
    """cell -> winner of its search; violations."""
    cs = cells(spec, df, smpls, folds)
    won, out, free = {}, [], list(segs)
    for c in cs:
        s = next((s for s in free if matches(c, s)), None)
        if s is not None:
            free.remove(s)
            s["cell"] = c[:4]
            won[c[:4]] = key(s["refit"]["params"])
    for s in free:
        near = sorted({c[0] for c in cs if c[4]["label"] == s["label"]})
        out.append(V("search-cell", f"a search with learner {s['label']} on {len(s['refit']['ids'])} rows has not the rows, target and features of any nuisance function "
                     f"({', '.join(near)}) left to tune"))
    return won, out, cs


def params_of(spec, m):
    return {nu: {tr: S.freeze(m.params[nu][tr]) for tr in C.d_cols(spec)} for nu in m.params_names}


def at(p, r, k):
    """Parameters in use at repetition r, fold k (None: learner's own)."""
    return None if p is None or p[r] is None else p[r][k]


def run(scn, sim):
    spec, t = scn["spec"], scn["tune"]
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    for op in scn["ops"]:
        O.apply(w, op, sim)
    m = w.model
    smpls = m.smpls
    before = params_of(spec, m)
    REC.events.clear()
    grids = O.grids(spec, m, t["seed"])
    scoring = O.scoring(spec, m, t["scoring"])
    res = {}

    def go():
        np.random.seed(t["seed"])
        with O.running(sim, t.get("cfg")):
            res["r"] = m.tune(grids, tune_on_folds=t["folds"], scoring_methods=scoring, n_folds_tune=t["kf"], search_mode=t["mode"],
                              n_iter_randomized_search=2, n_jobs_cv=(t.get("cfg") or O.SEQ).get("jobs_cv"), set_as_params=t["set"], return_tune_res=t["ret"])
    r = K.guarded(go, scn["fault"], sim)
    segs, rest = segments(REC.events)
    sim.probe("searches", len(segs))
    sim.log(r, len(segs))
    kinds = C.learner_kinds(spec)
    out = []
    for s in segs:
        ln = s["label"]
        out += check_search(s, t["kf"], kinds[ln], (scoring or {}).get(learner_key(m, scoring, ln)))
        if len(out) > 1:
            break
    won, v, cs = assign(spec, w.df, smpls, t["folds"], segs)
    out += v
    if r == "ok":
        if rest:
            out.append(V("search-open", f"{len(rest)} trainings during tuning belong to no search"))
        for c in cs:
            if c[:4] not in won:
                out.append(V("not-tuned", f"no search for {c[0]} with the rows, target and features of treatment {c[1]}, repetition {c[2]}, fold {c[3]}"))
                break
        if t["mode"] == "grid_search" and scn["fault"] is None:
            for s in segs:
                g = next(iter([grids[k] for k in grids if k == s["label"] or k.startswith(s["label"])]))
                want = np.prod([len(x) for x in g.values()])
                if len({key(f["params"]) for f in s["fits"]}) != want and len(m.learner_names) == len(kinds):
                    out.append(V("candidates", f"a grid search for {s['label']} evaluated other candidates than the grid's {want}"))
                    break
        if not out:
            out += start_effect(spec, w.df, smpls, t["folds"], segs, sim)
    out += assigned(spec, m, smpls, t, r, before, won, cs)
    if r == "ok" and t["ret"]:
        out += returned(spec, m, smpls, t, res["r"], won, cs)
    if r == "ok" and not t["ret"] and res["r"] is not m:
        out.append(V("returned", "tune does not return the model"))
    if not out:
        out += used(scn, sim, w)
    return {"v": out[:2], "nontrivial": bool(segs), "sig": f"{spec['cls']}:{t['folds']}{t['mode']}{t['set']}"}


def again(spec, e, method="predict"):
    kind = C.learner_kinds(spec)[e["label"]]
    cls = [RecReg, RecCls] if not spec.get("f32") or spec.get("quiet") else [SingleReg, SingleCls]
    return predicted_again(cls[kind == "cls"], e, method=method if kind == "cls" else "predict")


def start_effect(spec, df, smpls, folds, segs, sim):
    """The effect removed from the outcome in the search for ml_g is the partialling-out estimate of the tuned models."""
    if spec["opts"].get("partial") == "XZ":
        for s in segs:
            cell = s.get("cell", ("",))
            if cell[0] == "ml_r":
                m = next((x for x in segs if x.get("cell") == ("ml_m",) + cell[1:]), None)
                if m is not None and not np.array_equal(again(spec, m["refit"]), s["refit"]["y"]):
                    return [V("search-target", "the search for ml_r has not the predictions of the tuned ml_m of the same rows as its target")]
    gs = [s for s in segs if s["label"] == "ml_g" and s.get("cell", ("",))[0] == "ml_g"]
    if not gs or spec["cls"] not in ("PLR", "PLRC", "PLIV", "PLIVC"):
        return []
    n = len(df)
    y = df["y"].to_numpy(float)
    names = [nu for nu in ("ml_l", "ml_m", "ml_r") if nu in C.learner_kinds(spec)]
    for g in gs:
        _, j, rep, _ = g["cell"]
        d = df[C.d_cols(spec)[j]].to_numpy(float)
        ids, yev = g["refit"]["ids"], g["refit"]["y"]
        hat = {}
        for nu in names:
            hat[nu] = np.full(n, np.nan)
            for k in range(len(smpls[rep]) if folds else 1):
                s = next((s for s in segs if s.get("cell") == (nu, j, rep, k)), None)
                if s is None:
                    return []
                hat[nu][s["refit"]["ids"]] = again(spec, s["refit"], "predict_proba")
        v = (df["z"].to_numpy(float) if "ml_r" in names else d) - hat["ml_m"]
        theta = np.nanmean(v * (y - hat["ml_l"])) / np.nanmean(v * (d - hat["ml_r"] if "ml_r" in names else v))
        if not np.allclose(yev, y[ids] - theta * d[ids], atol=1e-7 * (1 + np.abs(y).max())):
            return [V("search-target", "the effect removed from the outcome in the search for ml_g is not the partialling-out estimate of the tuned models")]
        sim.probe("start_effects")
    return []


def learner_key(m, scoring, label):
    if scoring is None:
        return None
    return next((k for k in scoring if k == label or (k not in ("ml_l", "ml_m", "ml_g", "ml_r", "ml_pi") and k.startswith(label))), None)


def assigned(spec, m, smpls, t, r, before, won, cs):
    now = params_of(spec, m)
    if not t["set"]:
        d = S.diff(before, now)
        return [V("assigned-uninvited", f"tuning without assignment changed the parameters: {d[0]}")] if d else []
    out = []
    tuned = {(c[0], c[1]) for c in cs}
    for nu in now:
        for j, tr in enumerate(C.d_cols(spec)):
            if (nu, j) not in tuned:
                continue
            for rep in range(len(smpls)):
                for k in range(len(smpls[rep])):
                    p = at(now[nu][tr], rep, k)
                    w = won.get((nu, j, rep, k) if t["folds"] else (nu, j, 0, 0))
                    if r != "ok" and not S.diff(p, at(before[nu][tr], rep, k)):
                        continue
                    if p is None or w is None or not consistent(p, w):
                        out.append(V("assigned", f"{nu} of {tr}, repetition {rep}, fold {k} has parameters {p} after tuning; its search found {dict(w) if w else None}"))
                        return out
    return out


def consistent(p, winner):
    """The parameter dict holds values of the winning candidate (and no others)."""
    wd = dict(winner)
    return bool(p) and all(k in wd and wd[k] == v for k, v in p.items()) and "alpha" in p


def returned(spec, m, smpls, t, res, won, cs):
    nt = len(C.d_cols(spec))
    if not isinstance(res, list) or len(res) != nt or (t["folds"] and any(len(x) != len(smpls) for x in res)):
        return [V("returned", "the returned results do not have one entry per treatment (and repetition)")]
    for c in cs:
        nu, j, rep, k = c[:4]
        e = res[j][rep] if t["folds"] else res[j]
        ps = e["params"].get(nu)
        n = len(smpls[rep]) if t["folds"] else 1
        if ps is None or len(ps) != n or not consistent(ps[k], won.get((nu, j, rep, k), ())):
            return [V("returned", f"the returned parameters of {nu}, treatment {j}, repetition {rep}, fold {k} are {None if ps is None else ps[k] if k < len(ps) else '-'}; "
                      f"its search found {dict(won.get((nu, j, rep, k), ()))}")]
        found = [s for s in flat(e["tune_res"]) if hasattr(s, "best_estimator_")]
        if not any(getattr(s, "best_params_", None) == ps[k] for s in found):
            return [V("returned", f"no returned search has the parameters of {nu}")]
    return []


def flat(x):
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def used(scn, sim, w):
    """The next fit trains every learner with the parameters in use."""
    spec, m = scn["spec"], w.model
    par = params_of(spec, m)
    REC.events.clear()
    O.apply(w, {**scn["fit"], "sp": True}, sim)
    fits = {e["serial"]: e for e in REC.events if e["ev"] == "fit"}
    idx = H.index_predictions(REC.events)
    base = {k: key(v.get_params()) for k, v in w.learners.items()}
    for j, tr in enumerate(C.d_cols(spec)):
        for nu, rule in C.rules(spec, w.df, tr).items():
            if not isinstance(rule, dict) or nu not in par:
                continue
            P = m.predictions[nu]
            for rep, folds in enumerate(m.smpls):
                for k, (_, te) in enumerate(folds):
                    p = at(par[nu][tr], rep, k) or {}
                    want = tuple(sorted({**dict(base[rule["label"]]), **p}.items()))
                    hits, wrong = 0, None
                    for i in np.asarray(te).tolist():
                        ser = [s for o, s in idx.get((rule["label"], i), ()) if o == P[i, rep, j]]
                        if not ser:
                            continue
                        got = [key(fits[s]["params"]) for s in ser if s in fits]
                        if want in got:
                            hits += 1
                        elif wrong is None:
                            wrong = got
                    if wrong is not None:
                        return [V("used", f"{nu} of {tr}, repetition {rep}, fold {k} was fitted with {dict(wrong[0])} instead of the parameters in use {dict(want)}")]
                    sim.probe("fits_with_parameters", hits)
    return []


shrink = K.shrink_ops
