"""Provenance of reported predictions: which rows, target and features trained the learner behind each of them."""
import numpy as np

from . import catalog as C
from .core import V
from .learners import RecReg, SingleReg, predicted_again


def _cols(X):
    return sorted(np.ascontiguousarray(X[:, j]).tobytes() for j in range(X.shape[1]))


def index_predictions(events):
    """(label, row id) -> list of (value, serial)."""
    idx = {}
    for e in events:
        if e["ev"] != "predict" or e["ids"] is None or e["label"] is None:
            continue
        lab = e["label"]
        for i, o in zip(e["ids"].tolist(), e["out"].tolist()):
            idx.setdefault((lab, i), []).append((o, e["serial"]))
    return idx


def check_target(rule, ids, yev):
    """None if the training target is the one this nuisance function is defined by, else a message."""
    t = rule["target"]
    if t is None:
        return None
    if isinstance(t, np.ndarray):
        return None if np.array_equal(t[ids], yev) else "another training target than the nuisance function's"
    if t[0] == "y-theta*d":
        y, d = t[1][ids], t[2][ids]
        r = y - yev
        theta = float(np.dot(r, d) / max(np.dot(d, d), 1e-300))
        return None if np.allclose(r, theta * d, atol=1e-7 * (1 + np.abs(y).max())) else "training target is not outcome minus effect times treatment"
    if t[0] == "threshold":
        y, mask = t[1][ids], t[2][ids]
        if not np.all(np.isin(yev, (0.0, 1.0))):
            return "training target is not an indicator"
        if np.any(yev[~mask] != 0):
            return "training target is one outside the treatment group"
        one, zero = y[mask & (yev == 1)], y[mask & (yev == 0)]
        return None if not len(one) or not len(zero) or one.max() < zero.min() else "training target is not {outcome <= threshold}"
    if t[0] == "cvar":
        y, q = t[1][ids], t[2]
        # target max(t, (y - q*t)/(1 - q)) for some preliminary quantile t: the floor t is attained on part of the rows or nowhere
        for base in (float(yev.min()), float((y[0] - (1 - q) * yev[0]) / q)):
            if np.allclose(yev, np.maximum(base, (y - q * base) / (1 - q)), atol=1e-7 * (1 + np.abs(yev).max())):
                return None
        return "training target is not the CVaR target"
    return None


def check_model(spec, df, m, events, smpls, max_v=3, idx=None, n_total=None):
    """Violations of cross-fitting honesty in the reported predictions of one base model."""
    out = []
    fits = {e["serial"]: e for e in events if e["ev"] == "fit"}
    idx = index_predictions(events) if idx is None else idx
    n = len(df)
    thr = spec["opts"].get("trimming_threshold", 1e-2)
    preds = m.predictions
    if preds is None:
        return [V("no-predictions", "predictions were to be stored but are missing")]
    npred = 0
    for ti, treat in enumerate(C.d_cols(spec)):
        rules = C.rules(spec, df, treat)
        if spec["opts"].get("partial") == "XZ":
            rules = {k: r for k, r in rules.items() if not isinstance(r, dict) or r["target"] is not None}
        for nu, rule in rules.items():
            if nu not in preds:
                out.append(V("missing-nuisance", f"no stored predictions for {nu}"))
                continue
            P = preds[nu]
            if P.shape != (n, len(smpls), len(C.d_cols(spec))):
                out.append(V("shape", f"{nu}: predictions of shape {P.shape}"))
                continue
            for rep, folds in enumerate(smpls):
                p = P[:, rep, ti]
                if isinstance(rule, float):
                    if not np.all(p == rule):
                        out.append(V("constant", f"{nu}: expected the constant {rule}"))
                    continue
                if not np.all(np.isfinite(p)):
                    out.append(V("missing-prediction", f"{nu} {treat} rep {rep}: {int(np.sum(~np.isfinite(p)))} observations without prediction"))
                    continue
                seen = np.zeros(n, dtype=int)
                for k, (tr, te) in enumerate(folds):
                    seen[te] += 1
                    want = set(np.asarray(tr)[rule["mask"][tr]].tolist())
                    train_set = want
                    cand_serials = {}
                    for i in np.asarray(te).tolist():
                        v = p[i]
                        ser = [s for (o, s) in idx.get((rule["label"], i), ()) if o == v or (v in (thr, 1 - thr) and min(max(o, thr), 1 - thr) == v)]
                        if not ser:
                            out.append(V("unexplained-prediction", f"{nu} {treat} rep {rep} fold {k}: the value reported for observation {i} was "
                                         f"predicted by no learner trained for {rule['label']}"))
                            break
                        npred += 1
                        good, why = False, None
                        for s in dict.fromkeys(ser):
                            if s in cand_serials:
                                r = cand_serials[s]
                            else:
                                r = cand_serials[s] = _judge(rule, fits.get(s), train_set, tr, te)
                            if r is None:
                                good = True
                                break
                            why = r
                        if not good:
                            out.append(V("dishonest", f"{nu} {treat} rep {rep} fold {k} observation {i}: {why}"))
                            break
                        elif i == int(te[0]) and m.nuisance_targets is not None:
                            T = m.nuisance_targets[nu][:, rep, ti].astype(float)
                            msgs = [fold_target(rule, fits[s], T[te], np.asarray(te)) for s, why in cand_serials.items() if why is None]
                            if msgs and all(msgs):
                                out.append(V("fold-target", f"{nu} {treat} rep {rep} fold {k}: {msgs[0]}"))
                                break
                    if len(out) >= max_v:
                        return out
                if np.any(seen != 1):
                    out.append(V("partition", f"{nu}: fold test parts do not hold every observation once"))
    if n_total is not None:
        n_total[0] += npred
    return out


def check_start(spec, df, m, events, idx):
    """Targets that depend on other reported predictions: the effect removed from the outcome for ml_g, the instrument predictions projected by ml_r."""
    if spec["cls"] == "SSM" and spec["opts"]["score"] == "nonignorable":
        return nested(events, idx)
    if spec["cls"] not in ("PLR", "PLRC", "PLIV", "PLIVC"):
        return []
    fits = {e["serial"]: e for e in events if e["ev"] == "fit"}
    y = df["y"].to_numpy(float)
    P = m.predictions
    if spec["opts"].get("partial") == "XZ":
        def train(nu, r, te):
            return next((fits[s] for o, s in idx.get((nu, int(te[0])), ()) if o == P[nu][te[0], r, 0] and s in fits), None)
        for r, folds in enumerate(m.smpls):
            for k, (_, te) in enumerate(folds):
                te = np.asarray(te)
                em, er = train("ml_m", r, te), train("ml_r", r, te)
                if em is not None and er is not None and not (np.array_equal(em["ids"], er["ids"]) and np.array_equal(predicted_again(SingleReg if spec.get("f32") else RecReg, em), er["y"])):
                    return [V("target", f"ml_r rep {r} fold {k} was not trained on the predictions of that fold's ml_m")]
        return []
    if "ml_g" not in P or "ml_g" not in C.learner_kinds(spec):
        return []
    for j, tr in enumerate(C.d_cols(spec)):
        d = df[tr].to_numpy(float)
        for r, folds in enumerate(m.smpls):
            p = {k: v[:, r, j] for k, v in P.items()}
            v = d - p["ml_m"] if "ml_r" not in p else df["z"].to_numpy(float) - p["ml_m"]
            theta = np.nanmean(v * (y - p["ml_l"])) / np.nanmean(v * v if "ml_r" not in p else v * (d - p["ml_r"]))
            for k, (_, te) in enumerate(folds):
                te = np.asarray(te)
                cand = [fits[s] for o, s in idx.get(("ml_g", int(te[0])), ()) if o == p["ml_g"][te[0]] and s in fits]
                ok = [f for f in cand if np.allclose(f["y"], y[f["ids"]] - theta * d[f["ids"]], atol=1e-7 * (1 + np.abs(y).max()))]
                if cand and not ok:
                    return [V("target", f"ml_g {tr} rep {r} fold {k}: the effect removed from the outcome is not the partialling-out estimate of the reported predictions")]
    return []


def nested(events, idx):
    """A selection probability used as covariate of another learner was predicted by a learner not trained on that observation."""
    ids = {e["serial"]: set(e["ids"].tolist()) for e in events if e["ev"] == "fit" and e["ids"] is not None}
    for e in events:
        if e["ev"] != "fit" or e["label"] not in ("ml_m", "ml_g") or e["ids"] is None:
            continue
        for i, v in zip(e["ids"].tolist(), np.asarray(e["X"])[:, -1].tolist()):
            src = [s for o, s in idx.get(("ml_pi", i), ()) if o == v and s in ids]
            if src and all(i in ids[s] for s in src):
                return [V("dishonest", f"{e['label']} uses a selection probability of observation {i} predicted by a learner that was trained on it")]
    return []


def fold_target(rule, fit, t, ids):
    """The targets reported for a held-out fold are those its learner was trained on (same preliminary quantile)."""
    kind = rule["target"][0] if isinstance(rule["target"], tuple) else None
    if t is None or kind not in ("threshold", "cvar") or np.isnan(t).all():
        return None
    has = ~np.isnan(t)
    t, ids = t[has], ids[has]
    if kind == "threshold":
        y, mask = rule["target"][1], rule["target"][2]
        f = fit["ids"][mask[fit["ids"]]]
        one = y[f][fit["y"][mask[fit["ids"]]] == 1]
        zero = y[f][fit["y"][mask[fit["ids"]]] == 0]
        i, t = ids[mask[ids]], t[mask[ids]]
        bad = (len(one) and np.any(t[y[i] <= one.max()] != 1)) or (len(zero) and np.any(t[y[i] >= zero.min()] != 0))
    else:
        y, q = rule["target"][1], rule["target"][2]
        yf, tf = y[fit["ids"]], fit["y"]
        tol = 1e-7 * (1 + np.abs(tf).max())
        for base in (float(tf.min()), float((yf[0] - (1 - q) * tf[0]) / q)):
            if np.allclose(tf, np.maximum(base, (yf - q * base) / (1 - q)), atol=tol):
                if np.allclose(t, np.maximum(base, (y[ids] - q * base) / (1 - q)), atol=tol):
                    return None
        bad = True
    return "the targets reported for the fold are not those its learner was trained on" if bad else None


def _judge(rule, fit, want, tr, te):
    if fit is None:
        return "predicted by a learner whose training was not observed"
    ids = fit["ids"]
    if ids is None:
        return None
    got = set(ids.tolist())
    hold = got & set(np.asarray(te).tolist())
    if hold:
        return f"trained on {len(hold)} observations of the held-out fold itself (e.g. {sorted(hold)[0]})"
    out = got - set(np.asarray(tr).tolist())
    if out:
        return f"trained on {len(out)} observations outside the training part"
    wrong = got - want
    if wrong:
        return f"trained on {len(wrong)} observations outside the subgroup of this nuisance function"
    if rule["mode"] == "all":
        if got != want:
            return f"trained on {len(got)} of the {len(want)} observations of the training part's subgroup"
        if len(ids) != len(got):
            return "training observations repeated"
    elif not got or len(got) < len(want) * 0.3:
        return f"trained on only {len(got)} of {len(want)} observations"
    msg = check_target(rule, ids, fit["y"])
    if msg:
        return msg
    if rule["X"] is not None and _cols(rule["X"][ids]) != _cols(fit["X"]):
        return "trained on other features than the nuisance function's"
    return None


def check_all_fits(events, all_smpls, max_v=2):
    """Every training run during a fit stays inside the training part of some fold."""
    trains = [set(np.asarray(tr).tolist()) for folds in all_smpls for tr, _ in folds]
    out = []
    for e in events:
        if e["ev"] == "fit" and e["ids"] is not None:
            got = set(e["ids"].tolist())
            if not any(got <= t for t in trains):
                out.append(V("foreign-training-rows", f"a {e['label']} learner was trained on rows that lie in no fold's training part"))
                if len(out) >= max_v:
                    break
    return out


def rd_features(spec, df):
    """Features of an adjustment by definition: for training, and on either side of the cutoff."""
    o = spec["opts"]
    s = df["s"].to_numpy(float) - o.get("cutoff", 0)
    t = (s >= 0).astype(float)
    zero = np.zeros(len(s))
    X = df[C.roles(spec)["x_cols"]].to_numpy(float)
    z = {"cutoff": [(t, zero, zero + 1)], "cutoff and score": [(t, zero, zero + 1), (s, zero, zero)],
         "interacted cutoff and score": [(t, zero, zero + 1), (t * s, zero, zero), (s, zero, zero)]}[o["fs"]]
    return [np.column_stack([c[k] for c in z] + [X]) for k in range(3)]


def rd_weights(spec, df, h):
    x = df["s"].to_numpy(float) - spec["opts"].get("cutoff", 0)
    k = spec["opts"].get("kernel") or "triangular"
    if k == "custom":
        return C.kernel_custom(x, h)
    u = np.abs(x) / h
    return {"uniform": (u <= 1).astype(float), "triangular": np.maximum(0, 1 - u), "epanechnikov": np.where(u < 1, 0.75 * (1 - u ** 2), 0)}[k.casefold()]


def check_rd(spec, df, events, calls, h_fs=None, n_iter=None):
    """RDFlex: honesty of every adjustment, from the learner events; and of the adjusted outcome handed to rdrobust."""
    out = []
    n = len(df)
    for k, e in enumerate(events):
        e["pos"] = k
    full = rd_features(spec, df)
    fits = {e["serial"]: e for e in events if e["ev"] == "fit"}
    y = {"ml_g": df["y"].to_numpy(float), "ml_m": df["d"].to_numpy(float)}
    by_serial = {}
    for e in events:
        if e["ev"] == "predict" and e["ids"] is not None:
            by_serial.setdefault(e["serial"], []).append(e)
    half = {}
    for s, evs in by_serial.items():
        f = fits.get(s)
        if f is None or f["ids"] is None:
            out.append(V("unobserved-training", "prediction by a learner whose training was not observed"))
            continue
        tr = set(f["ids"].tolist())
        te = set(evs[0]["ids"].tolist())
        if tr & te:
            out.append(V("dishonest", f"{f['label']} trained on {len(tr & te)} of the observations it adjusts"))
        if len(tr) + len(te) != n or len(tr | te) != n:
            out.append(V("not-complement", f"{f['label']} trained on {len(tr)} observations, adjusting {len(te)} of {n}"))
        if not np.array_equal(f["y"], y[f["label"]][f["ids"]]):
            out.append(V("target", f"{f['label']}: another target than its own"))
        if not np.allclose(f["X"], full[0][f["ids"]], rtol=1e-12) and _cols(f["X"]) != _cols(full[0][f["ids"]]):
            out.append(V("features", f"{f['label']}: other features than treatment assignment, score and covariates as specified"))
        if n_iter is not None:
            before = [c for c in calls if c["pos"] <= f["pos"]]
            h = h_fs if len(before) % n_iter == 0 else before[-1]["h"]
            wt = rd_weights(spec, df, h)[f["ids"]] if f["label"] not in spec["opts"].get("global", ()) else np.ones(len(f["ids"]))
            if not np.allclose(f["w"], wt, rtol=1e-9, atol=1e-12):
                out.append(V("weights", f"{f['label']}: other weights than those of the kernel at the current bandwidth"))
        if len(evs) != 2 or any(set(e["ids"].tolist()) != te for e in evs):
            out.append(V("sides", "the adjustment does not average one prediction per side of the cutoff"))
            continue
        for i, a in zip(evs[0]["ids"].tolist(), evs[0]["out"].tolist()):
            b = evs[1]["out"][int(np.where(evs[1]["ids"] == i)[0][0])]
            half.setdefault((f["label"], i), []).append((a + b) / 2)
        sx = [e["X"] for e in evs]
        if sorted(map(_cols, sx)) != sorted(_cols(full[k][e["ids"]]) for k, e in ((1, evs[0]), (2, evs[1]))):
            out.append(V("sides", f"{f['label']}: the predictions averaged are not those at the two sides of the cutoff"))
        if np.array_equal(sx[0], sx[1]):
            out.append(V("sides", "both predictions are made for the same side of the cutoff"))
    for c in calls:
        for arg, lab in (("y", "ml_g"), ("fuzzy", "ml_m")):
            v = c.get(arg)
            if v is None:
                continue
            mu = y[lab] - np.asarray(v, float).ravel()
            for i in range(n):
                if not any(abs(mu[i] - h) <= 1e-9 * (1 + abs(h)) for h in half.get((lab, i), ())):
                    out.append(V("unexplained-adjustment", f"adjusted {arg} of observation {i} comes from no held-out prediction"))
                    break
    return out[:3]
