"""C11 a fit can be resumed from stored nuisance predictions: a donor session, then a session that is given a subset of them."""
import random

import numpy as np

from .. import catalog as C, ops as O, snap as S
from ..core import V
from ..learners import REC, ForbiddenCls, ForbiddenReg
from . import common as K

PROP = "C11"
REAL, STUB = K.REAL, K.STUB
RULE = ("Each run: a donor session (a generated history with faults, then a fit that stores predictions, under a simulated backend), then a resuming "
        "session (the same object after further operations, or a new one with the same configuration) that is given a generated subset of the stored "
        "predictions - per treatment or level, per nuisance function, possibly none for some - as read-only or differently laid out arrays, with "
        "placeholder learners where every prediction is supplied. Estimates, standard errors, scores and stored predictions must equal the donor's. "
        "In part of the runs the supplied predictions are altered ones, which must be stored and used as given. Non-trivial: something was supplied "
        "and the donor's fit was complete; distinct by event-log digest.")
ASSUME = ["LPQ is resumed with all predictions or none, PQ not with the propensity alone (both re-use intermediate estimates that are not stored)",
          "quantile models whose predictions are all supplied start their numerical search elsewhere: PQ is compared up to 1e-7 there and LPQ, whose "
          "score can have several roots, in its predictions and score function; everything else bitwise"]
IGNORE = ("models", "nuisance_loss", "nuisance_targets", "params")
KINDS = ["fit", "boot", "sens", "draw", "set", "params", "tune", "bench"]


SHARES = [["one", 0], ["but", 0], ["one", 1], ["but", 1], ["one", 2], ["but", 2], ["all"], ["one", 3], ["some"], ["one", 4], ["all"], ["but", 3], ["some"],
          ["but", 4]]


def variants():
    return [v for v in C.variants() if "ext" in O.caps({"cls": v[0], "opts": v[1], "n_rep": 1})]


def make(rng, v):
    spec = C.make_spec(rng, v)
    c = O.caps(spec)
    heavy = C.HEAVY.get(spec["cls"], 1)
    kinds = [k for k in KINDS if k in c and not (heavy > 3 and k in ("tune", "bench"))]
    before = [O.gen_op(rng, spec, [rng.choice(kinds)]) for _ in range(rng.choice([0, 0, 1, 2]))]
    for op in before:
        op["fault"] = K.gen_fault(rng, op) if rng.random() < 0.3 and op["op"] not in ("set", "draw", "params") else None
    same = rng.random() < 0.3
    between = []
    if same:
        for _ in range(rng.choice([0, 1, 2])):
            op = O.gen_op(rng, spec, [rng.choice([k for k in kinds if k in ("fit", "boot", "sens", "bench")])])
            if op["op"] == "fit" and rng.random() < 0.4:
                op["extsel"] = rng.randrange(1000)
            op["fault"] = K.gen_fault(rng, op) if rng.random() < 0.4 else None
            between.append(op)
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "before": before, "donor": {**O.gen_fit(rng, spec), "sp": True}, "same": same,
            "between": between, "resume": {**O.gen_fit(rng, spec), "sp": True}, "sel": rng.randrange(10 ** 6),
            "share": ["some"], "altered": rng.random() < 0.3, "local": rng.random() < 0.15,
            "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.4 else None}


def plan(tier, seed):
    out = K.plan(PROP, tier, seed, K.count(tier, 780, 16000), make, variants())
    seen = {}
    for s in out:      # every variant is met with every single prediction, and with all but each
        k = f"{s['spec']['cls']}{sorted(s['spec']['opts'].items(), key=str)}".split("trimming")[0]
        i = seen[k] = seen.get(k, -1) + 1
        s["share"] = SHARES[i % len(SHARES)]
        if s["share"][1:] and i < len(SHARES):
            s["altered"] = False
        if s["spec"]["cls"] == "PQ" and s["share"][1:]:
            s["local"] = True
    return out


def layout(r, v):
    x = r.random()
    v = np.asfortranarray(v) if x < 0.3 else np.repeat(v, 2, axis=0)[::2] if x < 0.5 else v.copy()
    if r.random() < 0.5:
        v.setflags(write=False)
    return v


def select(spec, stored, share, sel, altered, local=False):
    """{treatment or level: {nuisance: array}} from the stored predictions {key: {nuisance: (obs, rep)}}; some keys may be left out."""
    r = random.Random(f"sel{sel}")
    out = {}
    for key, P in stored.items():
        names = [nu for nu, v in P.items() if not np.any(np.isnan(v))]
        if spec["cls"] == "LPQ":
            pick = names if len(names) == len(P) and r.random() < 0.95 else []
        elif share[0] == "all":
            pick = names
        elif share[0] == "some":
            pick = r.sample(names, r.randint(0, len(names)))
        else:
            i = (share[1] + len(out)) % max(1, len(names))
            pick = names[i:i + 1] if share[0] == "one" else names[:i] + names[i + 1:]
        if spec["cls"] == "PQ" and pick == ["ml_m"] and not local:
            pick = ["ml_g", "ml_m"]
        r.shuffle(pick)
        if share[0] in ("some", "one") and len(stored) > 1 and r.random() < 0.25:
            continue
        out[key] = {nu: layout(r, 0.9 * P[nu] + 0.04 if altered else P[nu]) for nu in pick}
    return out


def stored_predictions(spec, m):
    if C.kind(spec) == "APOS":
        return {lv: {k: v[:, :, 0] for k, v in s.predictions.items()} for lv, s in zip(m.treatment_levels, m.modellist)}
    return {tr: {k: v[:, :, j] for k, v in m.predictions.items()} for j, tr in enumerate(C.d_cols(spec))}


def covered(spec, m, ext):
    """Learners all of whose nuisance functions are supplied for every treatment and level."""
    subs = m.modellist if C.kind(spec) == "APOS" else [m]
    keys = m.treatment_levels if C.kind(spec) == "APOS" else C.d_cols(spec)
    out = []
    for ln in C.learner_kinds(spec):
        nus = [nu for nu in subs[0].params_names if ln in nu]
        if nus and all(nu in ext.get(k, {}) for k in keys for nu in nus):
            out.append(ln)
    return out


def run(scn, sim):
    spec = scn["spec"]
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    for op in scn["before"]:
        sim.log(op["op"], K.faulty(w, op, op.get("fault"), sim))
    O.apply(w, scn["donor"], sim)
    want, conf = S.snap(spec, w.model), O.config(spec, w.model)
    stored = stored_predictions(spec, w.model)
    stored = {k: {nu: v.copy() for nu, v in P.items()} for k, P in stored.items()}
    ext = select(spec, stored, scn["share"], scn["sel"], scn["altered"], scn["local"])
    prelim = spec["cls"] == "PQ" and any(list(v) == ["ml_m"] for v in ext.values())
    if scn["same"]:
        for op in scn["between"]:
            sim.log(op["op"], K.faulty(w, op, op.get("fault"), sim))
        f = w
        cov = []
    else:
        cov = covered(spec, w.model, ext)
        ls = C.make_learners(spec)
        kinds = C.learner_kinds(spec)
        for ln in cov:
            ls[ln] = ForbiddenReg() if kinds[ln] == "reg" else ForbiddenCls()
        f = O.fresh(w, conf, learners=ls)
    if scn["local"]:
        out = locality(scn, sim, w, conf, ext)
        if out or prelim:
            return {"v": out, "nontrivial": any(ext.values()), "sig": f"{spec['cls']}:local"}
    sim.probe("supplied", sum(len(v) for v in ext.values()))
    sim.probe("placeholder_learners", len(cov))
    was = S.freeze(ext)
    n0 = len(REC.events)
    O.apply(f, {**scn["resume"], "ext": ext, "extsel": None}, sim)
    trained = {e["label"] for e in REC.events[n0:] if e["ev"] == "fit"}
    got = S.snap(spec, f.model)
    sim.log(S.digest(got))
    out = []
    if S.diff(was, S.freeze(ext)):
        out.append(V("inputs", "the supplied predictions were changed"))
    for ln in covered(spec, f.model, ext):
        if ln in trained:
            out.append(V("trained", f"{ln} was trained although all its predictions were supplied"))
    if scn["altered"]:
        out += used(spec, f.model, ext)
        again = O.fresh(w, conf)
        O.apply(again, {**scn["resume"], "cfg": dict(O.SEQ), "ext": {k: {nu: np.array(v) for nu, v in P.items()} for k, P in ext.items()}, "extsel": None}, sim)
        d = S.diff(S.snap(spec, again.model), got, ignore=IGNORE)
        out += [V("repeat", f"the same supplied predictions give something else: {x}") for x in d[:2]]
    else:
        hide(spec, want, ext), hide(spec, got, ext)
        full = spec["cls"] in ("PQ", "LPQ") and any(len(v) > 1 for v in ext.values())
        if spec["cls"] == "LPQ" and full:      # a score with several roots: same predictions and score function, solved from another start
            keep = ("predictions", "smpls", "n_folds", "n_rep")
            el = ("psi_elements",)
            want, got = ({k: s[k] for k in keep + el} for s in (want, got))
        d = S.diff(want, got, ignore=IGNORE, rtol=1e-7 if full else None)
        out += [V("resume", f"resumed from {sorted((str(k), sorted(v)) for k, v in ext.items())}: {x}") for x in d[:2]]
    return {"v": out, "nontrivial": any(ext.values()), "sig": f"{spec['cls']}:{spec['opts'].get('score')}:{sorted(len(v) for v in ext.values())}:{scn['same']}"}


def locality(scn, sim, w, conf, ext):
    """Predictions supplied for held-out observations of a fold have no part in the estimated predictions of that fold."""
    spec = scn["spec"]
    r = random.Random(f"loc{scn['sel']}")
    rep = r.randrange(len(conf["smpls"]))
    k = r.randrange(len(conf["smpls"][rep]))
    te = np.asarray(conf["smpls"][rep][k][1])
    ext2 = {key: {nu: np.array(v) for nu, v in P.items()} for key, P in ext.items()}
    for P in ext2.values():
        for v in P.values():
            v[te, rep] = 0.8 * v[te, rep] + 0.1
    res = []
    for e in (ext, ext2):
        f = O.fresh(w, conf)
        O.apply(f, {**scn["resume"], "cfg": dict(O.SEQ), "ext": e, "extsel": None}, sim)
        res.append(stored_predictions(spec, f.model))
    sim.probe("locality")
    out = []
    for key in res[0]:
        for nu, v in res[0][key].items():
            if nu in ext.get(key, {}) or nu == "ml_g" and spec["cls"].startswith("PL"):
                continue
            if not np.array_equal(v[te, rep], res[1][key][nu][te, rep], equal_nan=True):
                out.append(V("locality", f"{key}/{nu}: the estimated predictions of fold {k} (rep {rep}) depend on what was supplied for its held-out observations"))
    return out[:2]


def hide(spec, snap, ext):
    """IV-type partially linear regression does not estimate ml_l when ml_g is supplied."""
    if spec["cls"] in ("PLR", "PLRC", "PLIV", "PLIVC") and spec["opts"].get("score") == "IV-type":
        for j, tr in enumerate(C.d_cols(spec)):
            e = ext.get(tr, {})
            if "ml_g" in e and "ml_l" not in e and snap["predictions"]:
                snap["predictions"]["ml_l"][:, :, j] = np.nan


def used(spec, m, ext):
    """Supplied predictions are reported back as given (propensities possibly trimmed)."""
    out = []
    now = stored_predictions(spec, m)
    thr = spec["opts"].get("trimming_threshold", 0.01)
    for key, P in ext.items():
        for nu, v in P.items():
            got = now[key][nu]
            if spec["cls"] == "IIVM" and (nu == "ml_r0" and not spec["opts"].get("always_takers", True)
                                          or nu == "ml_r1" and not spec["opts"].get("never_takers", True)):
                continue
            if not (np.array_equal(got, v) or nu.startswith("ml_m") and np.array_equal(got, np.clip(v, thr, 1 - thr))):
                out.append(V("given", f"{key}/{nu}: the supplied predictions are not the ones reported"))
    return out[:2]


def shrink(scn):
    import copy
    for k in ("before", "between"):
        for i in range(len(scn[k])):
            c = copy.deepcopy(scn)
            del c[k][i]
            yield c
    if scn["same"]:
        c = copy.deepcopy(scn)
        c["same"], c["between"] = False, []
        yield c
    for k in ("donor", "resume"):
        if scn[k]["cfg"]["mode"] != "seq":
            c = copy.deepcopy(scn)
            c[k]["cfg"] = dict(O.SEQ)
            yield c
    yield from K.shrink_spec(scn)
