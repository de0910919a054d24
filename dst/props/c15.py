"""C15 exported models: replayed on their held-out rows right after the fit, after later operations, faults and misuse by the user."""
import copy
import random

import numpy as np

from .. import catalog as C, ops as O, snap as S
from ..core import V
from ..learners import REC
from . import common as K

PROP = "C15"
REAL, STUB = K.REAL, K.STUB
RULE = ("Each run: a fit that stores its models under a seeded execution mode, possibly after other operations and with some predictions supplied. Every "
        "stored model must reproduce the reported predictions of exactly its held-out fold, be trained with the parameters in use and only on rows "
        "of its training part, and be an object of its own. Then later operations (partly failing; fits, tuning, bootstraps, analyses, and the user training "
        "or altering exported models) must leave the models exported earlier as they are, and the user's changes to exported models must not reach the "
        "reported numbers. Non-trivial: at least one stored model was replayed; distinct by event-log digest.")
ASSUME = ["trimmed propensities may be reported at the trimming threshold", "regression discontinuity models do not store models"]
KINDS = ["fit", "boot", "sens", "draw", "set", "params", "tune", "confint", "summary", "bench", "gate", "cate", "gapo", "capo", "contrast", "eval"]


def make(rng, v):
    spec = C.make_spec(rng, v)
    heavy = C.HEAVY.get(spec["cls"], 1)
    c = O.caps(spec)
    kinds = [k for k in KINDS if k in c and not (heavy > 3 and k in ("tune", "bench"))]
    pre = []
    if rng.random() < 0.35:
        pre = [O.gen_op(rng, spec, [rng.choice(["fit", "params", "set", "draw"] if "params" in c else ["fit", "set", "draw"])]) for _ in range(rng.choice([1, 2]))]
    if "params" in c and rng.random() < 0.4:
        pre.append({**O.gen_op(rng, spec, ["params"]), "none": False})
    fit = {**O.gen_fit(rng, spec), "sp": True, "sm": True}
    if "ext" in c and rng.random() < 0.3:
        pre.insert(0, {"op": "fit", "sp": True, "sm": rng.random() < 0.3, "cfg": dict(O.SEQ)})
        fit["extsel"] = rng.randrange(1000)
        pre = [p for p in pre if p["op"] not in ("set", "draw")]
        pre[1:] = [p for p in pre[1:] if p["op"] != "fit"]
    post = []
    for _ in range(rng.choice([1, 2, 3]) if heavy < 3 else 1):
        if rng.random() < 0.25:
            post.append({"op": "misuse", "k": rng.randrange(10 ** 6)})
            continue
        op = O.gen_op(rng, spec, [rng.choice(kinds)])
        op["fault"] = K.gen_fault(rng, op) if rng.random() < 0.3 and op["op"] not in ("set", "draw", "params") else None
        post.append(op)
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "pre": pre, "fit": fit, "ops": post,
            "own": {"seed": rng.randrange(10 ** 6), "uneven": rng.random() < 0.3} if rng.random() < 0.5 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 520, 12000), make, C.variants(pred=lambda c, o: c != "RD"))


def same_or_trimmed(p, o, thr):
    return (p == o) | (np.isin(p, (thr, 1 - thr)) & (np.clip(o, thr, 1 - thr) == p)) | (np.isclose(p, o, rtol=1e-12, atol=0))


def predict(model, X):
    if hasattr(model, "predict_proba"):
        p = np.asarray(model.predict_proba(X), float)
        return p[:, 1] if p.shape[1] == 2 else p[:, 0] * float(model.classes_[0] == 1)
    return np.asarray(model.predict(X), float)


def exported(m):
    """[(nuisance, treatment, repetition, fold, model)] of one base model."""
    out = []
    for nu, per_treat in (m.models or {}).items():
        for tr, per_rep in per_treat.items():
            for r, folds in enumerate(per_rep):
                if folds is not None:
                    out += [(nu, tr, r, k, x) for k, x in enumerate(folds)]
    return out


def state(x):
    return S.freeze([type(x).__name__, getattr(x, "digest_", None), x.get_params(), getattr(x, "coef_", None)])


def replay(spec, m, df, ext, sim, events):
    """Structure of the export, and every model on its held-out rows."""
    out, n = [], 0
    M = m.models
    if M is None:
        return [V("missing", "store_models was requested but there are no models")], 0
    P = m.predictions
    thr = spec["opts"].get("trimming_threshold", 1e-2)
    fits, preds = {}, {}
    for e in events:
        if e["ev"] == "fit":
            fits.setdefault(e["digest"], e)
        elif e["ids"] is not None:
            preds.setdefault(e["digest"], []).append(e)
    smpls = m.smpls
    if set(M) != set(m.params_names):
        out.append(V("structure", f"models for {sorted(M)} instead of {sorted(m.params_names)}"))
    for j, tr in enumerate(C.d_cols(spec)):
        rules = C.rules(spec, df, tr)
        for nu in m.params_names:
            rule = rules.get(nu)
            per = M.get(nu, {}).get(tr)
            if per is None or len(per) != m.n_rep:
                out.append(V("structure", f"{nu} {tr}: {None if per is None else len(per)} repetitions instead of {m.n_rep}"))
                continue
            given = ext is not None and nu in ext.get(tr, {})
            for r in range(m.n_rep):
                if given or isinstance(rule, float):
                    if per[r] is not None:
                        out.append(V("structure", f"{nu} {tr} repetition {r}: models are stored although no learner was trained"))
                    continue
                if per[r] is None and np.isnan(P[nu][:, r, j]).all():
                    continue        # the nuisance was not estimated
                if per[r] is None or len(per[r]) != len(smpls[r]):
                    out.append(V("structure", f"{nu} {tr} repetition {r}: {None if per[r] is None else len(per[r])} models for {len(smpls[r])} folds"))
                    continue
                for k, (train, test) in enumerate(smpls[r]):
                    x = per[r][k]
                    want = P[nu][test, r, j]
                    d = getattr(x, "digest_", None)
                    if d is None:
                        out.append(V("unfitted", f"{nu} {tr} repetition {r} fold {k}: the stored model is not fitted"))
                        continue
                    par = m.params[nu][tr]
                    if par is not None and par[r] is not None:
                        q = par[r][k] if isinstance(par[r], (list, tuple, np.ndarray)) else par[r]
                        if q and any(x.get_params().get(a) != b for a, b in q.items()):
                            out.append(V("params", f"{nu} {tr} repetition {r} fold {k}: trained with {x.get_params()}, in use are {q}"))
                    f = fits.get(d)
                    if f is None:
                        out.append(V("unobserved", f"{nu} {tr} repetition {r} fold {k}: the training of the stored model was not observed"))
                    elif f["ids"] is not None and not set(f["ids"].tolist()) <= set(np.asarray(train).tolist()):
                        out.append(V("other-fold", f"{nu} {tr} repetition {r} fold {k}: the stored model was trained outside the training part"))
                    if rule is not None and rule["X"] is not None and not (spec["opts"].get("partial") and rule["X"].shape[1] != x.n_features_in_):
                        X = rule["X"][test]
                    else:
                        c = [e for e in preds.get(d, ()) if set(np.asarray(test).tolist()) <= set(e["ids"].tolist())]
                        if not c:
                            out.append(V("unused", f"{nu} {tr} repetition {r} fold {k}: the stored model never predicted the held-out rows"))
                            continue
                        pos = {int(i): a for a, i in enumerate(c[0]["ids"])}
                        X = c[0]["X"][[pos[int(i)] for i in test]]
                    got = predict(x, X)
                    if hasattr(x, "classes_") and len(x.classes_) == 1:
                        sim.probe("one_class_model")
                    n += 1
                    if not np.all(same_or_trimmed(want, got, thr)):
                        b = int(np.argmax(~same_or_trimmed(want, got, thr)))
                        out.append(V("replay", f"{nu} {tr} repetition {r} fold {k}: the stored model predicts {got[b]!r} for observation {test[b]}, "
                                     f"reported is {want[b]!r}"))
                    if len(out) > 3:
                        return out, n
    return out, n


def distinct(w, spec):
    seen = {}
    for nm, lr in w.learners.items():
        seen[id(lr)] = f"the user's learner {nm}"
    tops = [w.model] if C.kind(spec) == "base" else []
    for m in tops + [s for _, s in C.submodels(spec, w.model)]:
        for nm, lr in (m.learner or {}).items():
            seen.setdefault(id(lr), f"the model's learner {nm}")
    out = []
    for i, (_, m) in enumerate(C.submodels(spec, w.model)):
        for nu, tr, r, k, x in exported(m):
            name = f"sub-model {i} {nu} {tr} repetition {r} fold {k}"
            if id(x) in seen:
                out.append(V("shared", f"the stored model of {name} is the same object as {seen[id(x)]}"))
            seen[id(x)] = name
    return out[:2]


def run(scn, sim):
    spec = scn["spec"]
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    for op in scn["pre"]:
        O.apply(w, op, sim)
    REC.events.clear()
    O.apply(w, scn["fit"], sim)
    events = list(REC.events)
    out, n = [], 0
    subs = C.submodels(spec, w.model)
    for i, (s, m) in enumerate(subs):
        e = w.last["ext"]
        if C.kind(spec) == "APOS" and e is not None:
            e = {"d": e.get(w.model.treatment_levels[i], {})}
        o, k = replay(s, m, w.df, e, sim, events)
        out += o
        n += k
    out += distinct(w, spec)
    sim.log(n, S.digest(S.snap(spec, w.model)))
    sim.probe("models_replayed", n)
    held = [(i, x[:4], x[4], state(x[4])) for i, (_, m) in enumerate(subs) for x in exported(m)]
    for t, op in enumerate(scn["ops"]):
        if out:
            break
        if op["op"] == "misuse":
            out += misuse(w, op, sim, held)
        else:
            before = [[id(x[4]) for x in exported(m)] for _, m in C.submodels(spec, w.model)]
            st = K.faulty(w, op, op.get("fault"), sim)
            sim.log(op["op"], st)
            if op["op"] in O.READ_OPS | {"boot", "sens", "params"}:
                if before != [[id(x[4]) for x in exported(m)] for _, m in C.submodels(spec, w.model)]:
                    out.append(V("replaced", f"step {t} ({op['op']}) replaced stored models"))
        for i, where, x, was in held:
            d = S.diff(was, state(x))
            if d:
                out.append(V("changed", f"step {t} ({op['op']}) changed the exported model of sub-model {i} {where}: {d[0]}"))
                break
    return {"v": out[:3], "nontrivial": n > 0, "sig": f"{spec['cls']}:{[o['op'] for o in scn['ops']]}"}


def misuse(w, op, sim, held):
    """The user trains or alters one exported model; nothing else may change."""
    spec, r = w.spec, random.Random(op["k"])
    live = [h for h in held if any(h[2] is x[4] for _, m in C.submodels(spec, w.model) for x in exported(m))]
    if not live:
        return []
    h = r.choice(live)
    was = S.snap(spec, w.model, models=False)
    learners = [state(x) for x in w.learners.values()]
    X = w.df[["x1", "x2", "xid"]].to_numpy()
    x = h[2]
    if r.random() < 0.5:
        x.set_params(alpha=77.0)
    x.fit(X, (w.df["x3"].to_numpy() > 0).astype(int))
    held[:] = [g for g in held if g[2] is not x]
    sim.fault("user_alters_export")
    d = S.diff(was, S.snap(spec, w.model, models=False))
    out = [V("leak", f"training the exported model {h[1]} changed the model: {m}") for m in d[:1]]
    if S.diff(learners, [state(x) for x in w.learners.values()]):
        out.append(V("leak", f"training the exported model {h[1]} changed a learner of the user"))
    conf = O.config(spec, w.model)
    f = O.fresh(w, conf)
    op = {"op": "fit", "sp": True, "sm": False, "cfg": dict(O.SEQ)}
    O.apply(w, op, sim)
    O.apply(f, op, sim)
    d = S.diff(S.snap(spec, f.model), S.snap(spec, w.model), ignore=("params",))
    return out + [V("leak", f"after training the exported model {h[1]} the next fit is another one: {m}") for m in d[:1]]


def shrink(scn):
    yield from K.shrink_ops(scn)
    for i in range(len(scn["pre"])):
        if not (scn["fit"].get("extsel") is not None and i == 0):
            c = copy.deepcopy(scn)
            del c["pre"][i]
            yield c
    if scn["fit"]["cfg"]["mode"] != "seq":
        yield {**scn, "fit": {**scn["fit"], "cfg": dict(O.SEQ)}}
