"""C17 derived analyses: they leave everything as it was (also when they fail), and answer from exactly the latest fit, in any order, mode or copy."""
import copy
import random

import numpy as np
from scipy.linalg import sqrtm
from scipy.stats import norm
from sklearn.tree import DecisionTreeClassifier

from .. import catalog as C, ops as O, ref, restore, snap as S
from ..core import V
from . import common as K

PROP = "C17"
REAL, STUB = K.REAL + ["plotly figures"], K.STUB
RULE = ("Each run: a history ending in a fit under a seeded execution mode, then a generated sequence of benchmarks, group and conditional effects, policy "
        "trees, contrasts, learner evaluations, sensitivity analyses and plots, some hit by a failing learner, interrupt, failing allocation or dying "
        "worker. Whatever the fit supports must be "
        "answered. After each of them the model, its sub-models, stored models, data, splitting and learners must be as before; every answer is "
        "recomputed (a model fitted independently without the covariates, differences of the reported level estimates, least squares and trees on "
        "the reported scores); the same analyses in another order on an independently fitted, copied or unpickled twin must give the same answers; and "
        "the next fit must be that of a new object. Non-trivial: at least one analysis answered; distinct by event-log digest.")
ASSUME = ["group and conditional effects are requested for one repetition, as the interface demands"]
KINDS = {"bench", "eval", "sens", "gate", "cate", "gapo", "capo", "tree", "effci", "contrast", "plot"}
COMMON = {"eval", "sens", "plot", "bench"}
PICK = [v for v in C.variants() if v[0] in O.SENS or O.caps({"cls": v[0], "opts": v[1], "n_rep": 1, "n_folds": 2}) & (KINDS - {"eval", "sens"})]
EFF = [v for v in PICK if O.caps({"cls": v[0], "opts": v[1], "n_rep": 1, "n_folds": 2}) & {"gate", "gapo"}]
REST = [v for v in C.variants() if v not in PICK and v[0] not in ("RD", "QTE")]


def caps(spec):
    c = O.caps(spec)
    return sorted((c | ({"plot"} if "sens" in c else set())) & KINDS)


def make(rng, v):
    one = bool(O.caps({"cls": v[0], "opts": v[1], "n_rep": 1, "n_folds": 2}) & {"gate", "gapo"})
    kw = {"n_rep": 1} if one and rng.random() < 0.6 else {}
    spec = C.make_spec(rng, v, **kw)
    heavy = C.HEAVY.get(spec["cls"], 1)
    c = O.caps(spec)
    kinds = caps(spec)
    if not kinds:
        return None
    pre = []
    if rng.random() < 0.5 and heavy < 4:
        pre = [O.gen_fit(rng, spec)]
        pre += [O.gen_op(rng, spec, ["set", "draw"])] if rng.random() < 0.5 and spec["n_rep"] > 1 else []
        if spec["n_rep"] == 1 and rng.random() < 0.4:
            pre.append({"op": "set", "seed": rng.randrange(10 ** 6), "n_folds": rng.choice([2, 3]), "n_rep": 1})
        if rng.random() < 0.3:
            pre.append(O.gen_op(rng, spec, ["sens", "boot", "confint"]))
    if "params" in c and rng.random() < 0.4:
        pre.append({**O.gen_op(rng, spec, ["params"]), "none": False})
    fit = O.gen_fit(rng, spec)
    fit["sp"] = rng.random() < 0.9
    if "ext" in c and rng.random() < 0.2 and pre and pre[0]["op"] == "fit" and not any(p["op"] == "set" for p in pre):
        pre[0]["sp"] = True
        fit["extsel"] = rng.randrange(1000)
    ops = []
    for _ in range(rng.choice([2, 3, 4]) if heavy < 3 else 2):
        k = rng.choice(kinds if rng.random() < 0.5 else [k for k in kinds if k not in COMMON] or kinds)
        if k == "plot":
            op = {**O.gen_op(rng, spec, ["sens"]), "op": "plot", "value": rng.choice(["theta", "ci"]), "k": rng.randrange(1000),
                  "null": rng.choice([0.0, 0.3, "mid", "mid", "vec"])}
        else:
            op = O.gen_op(rng, spec, [k])
        op["fault"] = K.gen_fault(rng, op) if rng.random() < (0.5 if k == "bench" else 0.3) else None
        ops.append(op)
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "pre": pre, "fit": fit, "ops": ops, "order": rng.randrange(10 ** 6),
            "twin": rng.choice(["fresh", "fresh", "deepcopy", "pickle4"]),
            "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.4 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 480, 12000), make, PICK + PICK + EFF + EFF + REST)


def everything(w):
    """The model and what belongs to it."""
    spec = w.spec
    d = w.model._dml_data if hasattr(w.model, "_dml_data") else None
    out = {"model": S.snap(spec, w.model), "learners": S.freeze(w.model.learner) if hasattr(w.model, "learner") else None}
    for i, (_, s) in enumerate(C.submodels(spec, w.model)):
        out[f"learners{i}"] = S.freeze(s.learner)
    for name, data in (("data", w.data), ("model data", d)):
        if data is not None:
            out[name] = {a: S.freeze(getattr(data, a)) for a in ("x_cols", "d_cols", "y_col", "x", "y", "d", "data", "n_obs")}
    return out


def plot(m, op):
    m.sensitivity_analysis(cf_y=op["cf_y"], cf_d=op["cf_d"], rho=op["rho"], level=op["level"], null_hypothesis=O.null_of(m, op["null"]))
    fig = m.sensitivity_plot(idx_treatment=op["k"] % m.framework.n_thetas, value=op["value"], rho=op["rho"], level=op["level"], grid_size=10)
    z = [t for t in fig.data if getattr(t, "z", None) is not None][0]
    return [np.array(z.x, float), np.array(z.y, float), np.array(z.z, float)]


def do(w, op, sim):
    if op["op"] == "plot":
        return S.freeze(plot(w.model, op))
    return O.apply(w, op, sim)


def attempt(w, op, sim):
    """('ok', answer) | ('refused'|'failed', None)."""
    box = {}

    def fn():
        box["answer"] = do(w, op, sim)
    fault = op.get("fault")
    if fault is not None and fault["at"] == "death":
        op2, fault2 = {**op, "cfg": {**op["cfg"], "death": fault["n"]}}, None

        def fn():
            box["answer"] = do(w, op2, sim)
    else:
        fault2 = fault
    try:
        r = K.guarded(fn, fault2, sim)
    except (ValueError, NotImplementedError) as e:
        box["why"] = e
        return "refused", None
    return r, box.get("answer")


# ------------------------------------------------------------------------------------------------ independent answers
def least_squares(y, X):
    """Coefficients and heteroscedasticity-robust (HC0) covariance."""
    X = np.asarray(X, float)
    G = np.linalg.pinv(X.T @ X)
    b = G @ X.T @ y
    e = y - X @ b
    return b, G @ (X.T * e ** 2) @ X @ G


def dummies(df, k):
    g = O.groups(df, k)
    if g.shape[1] == 1:
        v = g["g"].to_numpy()
        return np.stack([v == "hi", v == "lo"], axis=1)
    return g.to_numpy()


def projection(w, op, kind):
    """Coefficients and covariance of the projection of the reported scores (None without predictions)."""
    spec, m = w.spec, w.model
    df = w.df0
    B = dummies(df, op["k"]) if kind in ("gate", "gapo") else O.basis(df).to_numpy()
    if spec["cls"] == "PLR":
        P = m.predictions
        y, d = df["y"].to_numpy(float), df[C.d_cols(spec)[0]].to_numpy(float)
        mh = P["ml_m"][:, 0, 0]
        signal = y - P["ml_l"][:, 0, 0] if spec["opts"]["score"] == "partialling out" else y - m.coef[0] * mh - P["ml_g"][:, 0, 0]
        X = B * (d - mh)[:, None]
    else:
        signal, X = np.array(m.psi_elements["psi_b"])[:, 0, 0], B
    return least_squares(signal, X)


def effect(w, op, answer):
    b, om = projection(w, op, op["op"])
    got_b, got_om = np.asarray(answer[0]["__ser__"], float), answer[1]
    if not ref.close(got_b, b, rtol=1e-6, atol=1e-8):
        return f"{op['op']} coefficients {got_b} are not the projection of the reported scores {b}"
    if not ref.close(got_om, om, rtol=1e-6, atol=1e-8):
        return f"{op['op']} covariance is not the robust covariance of the projection"
    ci = np.stack(answer[3]["v"], axis=1).astype(float)
    if not ref.close(ci[:, 1], b, rtol=1e-6, atol=1e-8):
        return f"{op['op']} interval is not around the effects"
    if op["op"] in ("gate", "gapo"):
        se = np.sqrt(np.diag(om))
        if not ref.close(ci[:, 2], b + norm.ppf(0.95) * se, rtol=1e-6, atol=1e-8) or not ref.close(ci[:, 0], b - norm.ppf(0.95) * se, rtol=1e-6, atol=1e-8):
            return f"{op['op']} interval is not the normal interval of the projection"
        return None
    return own_level(op["op"], answer[3], b, om, 0.9)


def own_level(what, ci, b, om, level):
    """Intervals of the basis coefficients."""
    ci = np.stack(ci["v"], axis=1).astype(float)
    se = np.sqrt(np.diag(om))
    want = [np.stack([b - z * se, b, b + z * se], axis=1) for z in (norm.ppf(0.5 + level / 2), norm.ppf(0.75 + level / 4))]
    if ref.close(ci, want[0], rtol=1e-6, atol=1e-8):
        return None
    if ref.close(ci, want[1], rtol=1e-6, atol=1e-8):
        return Known("coefficient-level", "the intervals of the basis coefficients of conditional effects use half of the requested error level")
    return f"{what} interval of the basis coefficients is not the normal interval of the projection at level {level}"


class Known(str):
    """A violation that does not keep the rest of the run from being checked."""
    def __new__(cls, kind, msg):
        s = super().__new__(cls, msg)
        s.kind = kind
        return s


def intervals(w, op, answer):
    """Joint and pointwise intervals of group and conditional effects."""
    b, om = projection(w, op, op["kind"])
    joint, point, got_om, own, labelled = answer
    if not labelled:
        return f"the intervals of {op['kind']} effects do not carry the labels of the rows asked for"
    if not ref.close(got_om, om, rtol=1e-6, atol=1e-8):
        return f"{op['kind']} covariance is not the robust covariance of the projection"
    rows = O.effect_rows(w.df0, op)
    X = np.eye(len(b)) if rows is None else rows.to_numpy(float)
    eff, se = X @ b, np.sqrt(np.einsum("ij,jk,ik->i", X, om, X))
    z = norm.ppf(0.5 + op["level"] / 2)
    P, J = (np.stack(a["v"], axis=1).astype(float) for a in (point, joint))
    if not ref.close(P, np.stack([eff - z * se, eff, eff + z * se], axis=1), rtol=1e-6, atol=1e-8):
        return f"the pointwise intervals of {op['kind']} effects are not the normal intervals of the projection"
    if not ref.close(J[:, 1], eff, rtol=1e-6, atol=1e-8) or not ref.close(J[:, 2] - J[:, 1], J[:, 1] - J[:, 0], rtol=1e-6, atol=1e-8):
        return f"the joint intervals of {op['kind']} effects are not around the effects"
    c = (J[:, 2] - J[:, 1]) / se
    if np.ptp(c) > 1e-6 * c[0]:
        return f"the joint intervals of {op['kind']} effects use different critical values {c}"
    msgs = [own_level(op["kind"], own, b, om, op["level"])] if op["kind"] in ("cate", "capo") else []
    # quantile of the largest absolute t-statistic, from other draws
    L = np.linalg.cholesky(om + 1e-14 * np.trace(om) * np.eye(len(om)))
    r = np.random.RandomState(op["seed"] % 1000)
    T = np.abs(X @ L @ r.normal(size=(len(b), 4000)) / se[:, None])
    lo, hi = band(T.max(axis=0), op["level"], op["n"])
    if lo <= c[0] <= hi:
        return msgs
    t = np.abs(X @ np.real(sqrtm(om)) @ np.random.RandomState(op["seed"]).normal(size=(len(b), op["n"])) / se[:, None])
    if ref.close(c[0], np.quantile(t.max(axis=1), op["level"]), rtol=1e-5):
        return msgs + [Known("joint-critical-value", "joint intervals of group and conditional effects take the maximum over the bootstrap draws and the "
                     "quantile over the effects")]
    return f"the joint intervals of {op['kind']} effects use the critical value {c[0]:.3f}, expected {lo:.3f} to {hi:.3f}"


def band(t, level, n):
    """Where the empirical quantile of n draws lies (six standard errors of its rank)."""
    d = 6 * np.sqrt(level * (1 - level) / n) + 1.0 / n
    return np.quantile(t, max(level - d, 0.0)) * 0.97 - 0.02, np.quantile(t, level + d) * 1.03 + 0.02 if level + d < 1 else t.max() + 1.0


def tree(w, op, answer):
    sig = np.array(w.model.psi_elements["psi_b"])[:, 0, 0]
    X = w.df0[["x1", "x2"]]
    t = DecisionTreeClassifier(max_depth=1 + op["k"] % 2, ccp_alpha=0.01, min_samples_leaf=8, random_state=3)
    t.fit(X, (np.sign(sig) + 1) / 2, sample_weight=np.abs(sig))
    want = S.freeze([t.tree_.feature.astype(float), t.tree_.threshold, X.assign(pred_treatment=t.predict(X).astype(int)).reset_index(drop=True)])
    d = S.diff(want, answer[:3])
    return f"the policy tree is not the one of the reported scores: {d[0]}" if d else None


def contrast(w, op, answer):
    m = w.model
    lv = list(m.treatment_levels)
    refs = O.references(lv, op["k"])
    refs = [lv.index(v) for v in (refs if isinstance(refs, list) else [refs])]
    # every level against every reference level, each pair once (against the reference that is named first)
    pairs = [(i, i0) for n, i0 in enumerate(refs) for i in range(len(lv)) if i not in refs[:n + 1]]
    if [f"{lv[i]} vs {lv[i0]}" for i, i0 in pairs] != answer["treatment_names"]:
        return f"contrasts with reference levels {[lv[i] for i in refs]} are named {answer['treatment_names']}"
    for j, (i, i0) in enumerate(pairs):
        a, b = m.modellist[i], m.modellist[i0]
        if not ref.close(answer["all_thetas"][j], m.all_coef[i] - m.all_coef[i0]):
            return f"the contrast {lv[i]} vs {lv[i0]} is not the difference of the reported estimates"
        sp = (a.psi / a.psi_deriv.mean(axis=0) - b.psi / b.psi_deriv.mean(axis=0))[:, :, 0]
        if not ref.close(answer["scaled_psi"][:, j, :], sp, atol=1e-8):
            return f"the scores of the contrast {lv[i]} vs {lv[i0]} are not the difference of the reported scores"
        if not ref.close(answer["all_ses"][j], np.sqrt(np.mean(sp ** 2, axis=0) / sp.shape[0])):
            return f"the standard errors of the contrast {lv[i]} vs {lv[i0]} are not those of the difference"
        e, f = a.sensitivity_elements, b.sensitivity_elements
        s2 = (e["sigma2"] + f["sigma2"])[0, :, 0] / 2
        n2 = (e["nu2"] + f["nu2"])[0, :, 0]
        se = answer["sensitivity_elements"]
        if not ref.close(se["max_bias"][0, j], np.sqrt(s2 * n2)) or not ref.close(se["sigma2"][0, j], s2) or not ref.close(se["nu2"][0, j], n2):
            return f"the bias bound of the contrast {lv[i]} vs {lv[i0]} does not follow from its levels"
    bad = ref.framework_messages(answer)
    return bad[0] if bad else None


def bench(w, op, answer, sim):
    """A model fitted independently on the shorter data, and the documented formulas."""
    spec = w.spec
    x = spec.get("x_cols") or C.roles(spec)["x_cols"]
    short = {**spec, "x_cols": [c for c in x if c not in op["set"]]}
    conf = O.config(spec, w.model)
    ws = O.World(short, w.seed, own_split={"seed": 1}, df=w.df0.copy(deep=True))
    O.config_onto(ws, conf)
    ws.fit(sim)
    L, Sh = w.model, ws.model
    eL, eS = L.framework.sensitivity_elements, Sh.framework.sensitivity_elements
    vy = np.var(w.df0["y"].to_numpy(float))
    s2l, s2s, n2l, n2s = eL["sigma2"][0], eS["sigma2"][0], eL["nu2"][0], eS["nu2"][0]
    r2l, r2s, rr = 1 - s2l / vy, 1 - s2s / vy, n2s / n2l
    delta = Sh.all_coef - L.all_coef
    cfy = np.clip((r2l - r2s) / (1 - r2l), 0, 1)
    cfd = np.clip((1 - rr) / rr, 0, 1)
    vg, vr = s2s - s2l, n2l - n2s
    den = np.where((vg > 0) & (vr > 0), np.sqrt(np.abs(vg * vr)), 0)
    rho = np.where(den > 0, np.clip(np.abs(delta) / np.where(den > 0, den, 1), 0, 1), 1.0) * np.sign(delta)
    want = {k: np.median(v, axis=1) for k, v in (("cf_y", cfy), ("cf_d", cfd), ("rho", rho), ("delta_theta", delta))}
    got = dict(zip(answer["__df__"], answer["v"]))
    for k, v in want.items():
        if not ref.close(np.asarray(got[k], float), v, rtol=1e-6, atol=1e-9):
            return f"benchmark {k} is {got[k]}, an independent model without {op['set']} gives {v}"
    return None


def evaluation(w, op, answer):
    m = w.model
    names = m.params_names if op["k"] % 2 else [m.params_names[(op["k"] // 2 + i) % len(m.params_names)] for i in range(1 + op["k"] // 7 % 2)]
    if sorted(answer) != sorted(set(names)):
        return f"evaluation of {names} answers for {sorted(answer)}"
    for ln in names:
        P, T = m.predictions[ln], m.nuisance_targets[ln]
        for r in range(m.n_rep):
            for j in range(P.shape[2]):
                want = O.nan_rmse(T[:, r, j].reshape(1, -1), P[:, r, j].reshape(1, -1))
                if answer[ln][r, j] != want:
                    return f"evaluation of {ln}: {answer[ln][r, j]!r} instead of {want!r}"
    return None


def plotted(w, op, answer):
    """Some cells of the contour plot against separate sensitivity analyses of a copy."""
    fw = copy.deepcopy(w.model.framework)
    i = op["k"] % fw.n_thetas
    x, y, z = answer
    null = O.null_of(w.model, op["null"])
    bound = "upper" if np.broadcast_to(null, (fw.n_thetas,))[i] > fw.thetas[i] else "lower"
    r = random.Random(op["k"])
    for _ in range(3):
        a, b = r.randrange(1, len(x)), r.randrange(1, len(y))
        fw.sensitivity_analysis(cf_y=float(y[b]), cf_d=float(x[a]), rho=op["rho"], level=op["level"], null_hypothesis=null)
        want = fw.sensitivity_params[op["value"]][bound][i]
        if not (ref.close(z[a, b], want) or ref.close(z[b, a], want)):
            return f"the plot shows {z[a, b]!r} for cf_d={x[a]!r}, cf_y={y[b]!r}; the analysis gives {want!r}"
    return None


def verify(w, op, answer, sim):
    k = op["op"]
    if k in ("gate", "gapo", "cate", "capo", "effci") and w.spec["cls"] == "PLR" and w.model.predictions is None:
        return "effects without stored predictions"
    if k == "effci":
        return intervals(w, op, answer)
    if k in ("gate", "gapo", "cate", "capo"):
        return effect(w, op, answer)
    if k == "tree":
        return tree(w, op, answer)
    if k == "contrast":
        return contrast(w, op, answer)
    if k == "bench":
        return bench(w, op, answer, sim)
    if k == "eval":
        return evaluation(w, op, answer)
    if k == "plot":
        return plotted(w, op, answer)
    return None


def run(scn, sim):
    spec = scn["spec"]
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    for op in scn["pre"]:
        K.faulty(w, op, None, sim)
    O.apply(w, scn["fit"], sim)
    sim.log(S.digest(S.snap(spec, w.model)))
    twin = twin_of(scn, w, sim)
    out, good, known = [], [], []
    for t, op in enumerate(scn["ops"]):
        before = everything(w)
        st, ans = attempt(w, op, sim)
        sim.log(op["op"], st, None if ans is None else S.digest(ans))
        ig = ("sensitivity_params",) if op["op"] in ("sens", "plot") else ()
        d = S.diff(before, everything(w), ignore=ig)
        if d:
            out.append(V("changed", f"step {t}: {op['op']} ({st}) changed the fit: {d[0]}"))
        bad = w.changed_inputs()
        if bad:
            out.append(V("changed", f"step {t}: {op['op']} ({st}) changed {bad[0]}"))
        if st == "ok" and not out:
            good.append((t, op, ans if op["op"] != "sens" else S.attr(w.model, "sensitivity_params")))
            msg = verify(w, op, ans, sim)
            for x in msg if isinstance(msg, list) else [msg]:
                if isinstance(x, Known):
                    known.append(V(x.kind, x))
                elif x:
                    out.append(V("answer", f"step {t}: {x}"))
        elif st == "refused":
            sim.probe("analysis_refused")
            good.append((t, op, "refused"))
            if scn["fit"]["sp"]:  # only without stored predictions some analyses cannot be answered
                out.append(V("refused", f"step {t}: {op['op']}, which the fit supports, was refused"))
        if out:
            return {"v": out[:3] + known[:2], "nontrivial": True, "sig": f"{spec['cls']}:{op['op']}"}
    # the same analyses elsewhere, in another order
    order = list(good)
    random.Random(scn["order"]).shuffle(order)
    for t, op, ans in order:
        try:
            a = do(twin, {**op, "fault": None, **({"cfg": dict(O.SEQ)} if "cfg" in op else {})}, sim)
            a = S.attr(twin.model, "sensitivity_params") if op["op"] == "sens" else a
        except (ValueError, NotImplementedError):
            a = "refused"
        d = S.diff(a, ans)
        if d:
            out.append(V("order", f"step {t}: {op['op']} answers differently on a {scn['twin']} twin in another order: {d[0]}"))
            return {"v": out[:3] + known[:2], "nontrivial": True, "sig": f"{spec['cls']}:{op['op']}"}
    # and the next fit is that of a new object
    nxt = {"op": "fit", "sp": True, "sm": False, "cfg": dict(O.SEQ)}
    f = O.fresh(w, O.config(spec, w.model))
    O.apply(w, nxt, sim)
    O.apply(f, nxt, sim)
    d = S.diff(S.snap(spec, f.model), S.snap(spec, w.model), ignore=("params",))
    out += [V("next-fit", f"after {[o['op'] for o in scn['ops']]} the next fit is another one: {m}") for m in d[:1]]
    kinds = {v["kind"]: v for v in known}
    return {"v": out + [kinds[k] for k in sorted(kinds)], "nontrivial": any(a != "refused" for _, _, a in good), "sig": f"{spec['cls']}:{[o['op'] for o in scn['ops']]}"}


def twin_of(scn, w, sim):
    if scn["twin"] == "fresh":
        return O.refit(w, sim)
    m = copy.deepcopy(w.model) if scn["twin"] == "deepcopy" else restore.restore(w.model, "pickle4")
    return O.World.resume(w.spec, m, w.df0.copy(deep=True))


def shrink(scn):
    yield from K.shrink_ops(scn)
    for i in range(len(scn["pre"])):
        if scn["fit"].get("extsel") is None:
            c = copy.deepcopy(scn)
            del c["pre"][i]
            yield c
    if scn["fit"]["cfg"]["mode"] != "seq":
        yield {**scn, "fit": {**scn["fit"], "cfg": dict(O.SEQ)}}
    if scn["twin"] != "fresh":
        yield {**scn, "twin": "fresh"}
