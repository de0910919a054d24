"""C12 checkpoint and restore at seeded points of histories, compared with a twin that was never checkpointed."""
import copy
import random

import numpy as np

from .. import catalog as C, ops as O, restore as R, snap as S
from ..core import V
from ..learners import REC
from . import common as K

PROP = "C12"
REAL, STUB = K.REAL + ["copy, pickle, cloudpickle", "a second interpreter process with another hash seed (for part of the runs)"], K.STUB
RULE = ("Each run: a generated history with faults on a model; at generated points - between operations or inside a fit, at a learner call - the model is "
        "copied or serialised and restored. The restored one must report what the original reports; the history then continues with the restored one "
        "(in the same or in another process) while the original is used for something else, and after every step it must report exactly what a twin "
        "reports that was never checkpointed. Data objects, inference snapshots and effect results are restored and compared as well. "
        "Non-trivial: a restored object was compared after a further operation; distinct by event-log digest.")
ASSUME = ["regression discontinuity models hold kernel functions that only copying and cloudpickle (the pickler of the parallel backends) support",
          "histories that are hit by faults run sequentially, so that the twin meets the fault at the same point"]
KINDS = ["fit", "fit", "boot", "sens", "draw", "set", "params", "tune", "confint", "padj", "summary", "bench", "gate", "cate", "gapo", "capo", "contrast"]


def make(rng, v):
    spec = C.make_spec(rng, v)
    heavy = C.HEAVY.get(spec["cls"], 1)
    c = O.caps(spec)
    kinds = [k for k in KINDS if k in c and not (heavy > 3 and k in ("tune", "bench"))]
    ops = [O.gen_fit(rng, spec)] if rng.random() < 0.85 else []
    for _ in range(rng.choice([1, 2, 3, 4]) if heavy < 3 else rng.choice([1, 1, 2])):
        ops.append(O.gen_op(rng, spec, [rng.choice(kinds)]))
    if not any(op["op"] == "fit" for op in ops[1:]) and rng.random() < 0.6:
        ops.append(O.gen_fit(rng, spec))
    for op in ops:
        if op["op"] == "fit" and "ext" in c and rng.random() < 0.2:
            op["extsel"] = rng.randrange(1000)
        op["fault"] = None
        if rng.random() < 0.2 and op["op"] not in ("set", "draw", "params"):
            if "cfg" in op:
                op["cfg"] = dict(O.SEQ)
            op["fault"] = K.gen_fault(rng, op)
    kk = ["deepcopy", "cloudpickle"] if C.kind(spec) == "RD" else R.KINDS
    pts = sorted(rng.sample(range(len(ops) + 1), min(len(ops) + 1, rng.choice([1, 1, 2, 3]))))
    cps = [{"at": i, "kind": rng.choice(kk), "extra": None} for i in pts]
    fits = [i for i, op in enumerate(ops) if op["op"] == "fit" and op["fault"] is None]
    for cp in cps:
        if rng.random() < 0.6:
            cp["extra"] = O.gen_op(rng, spec, [rng.choice(kinds)])
        cp["parts"] = rng.random() < 0.4
    mid = None
    if fits and rng.random() < 0.35:
        i = rng.choice(fits)
        ops[i]["cfg"] = dict(O.SEQ)
        mid = {"at": i, "n": rng.choice([1, 2, 3, 5, 8, 13, 21]), "kind": rng.choice(kk)}
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "ops": ops, "cps": cps, "mid": mid,
            "process": rng.random() < 0.3, "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.3 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 230, 6000), make, C.variants())


def same(a, b):
    return S.diff(a["snap"], b["snap"]) or S.diff(a["inf"], b["inf"]) or S.diff({"answer": a["answer"]}, {"answer": b["answer"]}) or \
        ([] if a["status"] == b["status"] else [f"status {a['status']} != {b['status']}"])


def run(scn, sim):
    spec = scn["spec"]
    twin = O.World(spec, scn["wseed"], own_split=scn["own"])
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    out = []
    want = []
    for op in scn["ops"]:
        st = K.faulty(twin, op, op.get("fault"), sim)
        want.append(R.report(spec, twin, twin.answer, st))
        sim.log(op["op"], st)
    cps = {cp["at"]: cp for cp in scn["cps"]}
    last = max(cps)
    compared = False
    for i in range(len(scn["ops"]) + 1):
        if i in cps:
            cp = cps[i]
            if i == last and scn["process"]:
                out += elsewhere(w, cp, scn["ops"][i:], want[i:], i, sim)
                compared |= i < len(scn["ops"])
            old = w
            was = R.report(spec, old, None, "")
            w = O.World.resume(spec, R.restore(old.model, cp["kind"]), old.df)
            w.last, w.fitted = old.last, old.fitted
            sim.fault("restore_" + cp["kind"])
            now = R.report(spec, w, None, "")
            out += [V("restored", f"{cp['kind']} before step {i}: {d}") for d in same(was, now)[:2]]
            if cp["parts"]:
                out += parts(old, cp["kind"], sim, i)
            if cp["extra"] is not None:
                K.faulty(old, {**cp["extra"], "cfg": dict(O.SEQ)} if "cfg" in cp["extra"] else cp["extra"], None, sim)
                out += [V("influence", f"using the original after {cp['kind']} before step {i} changed the restored one: {d}")
                        for d in same(now, R.report(spec, w, None, ""))[:1]]
            else:
                out += [V("disturbed", f"{cp['kind']} before step {i} changed the original: {d}") for d in same(was, R.report(spec, old, None, ""))[:1]]
        if out or i == len(scn["ops"]):
            break
        op = scn["ops"][i]
        mid = scn["mid"] if scn["mid"] and scn["mid"]["at"] == i else None
        st, taken = step(w, op, mid, sim)
        got = R.report(spec, w, w.answer, st)
        sim.log(op["op"], st, S.digest(got["snap"]))
        compared |= any(j <= i for j in cps)
        out += [V("continue", f"step {i} ({op['op']}) after a restore: {d}") for d in same(want[i], got)[:2]]
        if taken:
            f = O.World.resume(spec, R.restore(taken[0], "deepcopy") if not isinstance(taken[0], bytes) else R.pickle.loads(taken[0]), w.df)
            f.last, f.fitted = w.last, None
            kw = w.last
            if C.kind(spec) == "RD":
                O.apply(f, op, sim)
            else:
                O.apply(f, {**op, "ext": kw["ext"], "extsel": None}, sim)
            compared = True
            d = S.diff(want[i]["snap"], S.snap(spec, f.model)) or S.diff(want[i]["inf"], O.inference(spec, f.model))
            out += [V("mid", f"a model restored from the middle of a fit ({mid['kind']}, call {mid['n']}) and fitted again: {x}") for x in d[:2]]
    return {"v": out, "nontrivial": compared, "sig": f"{spec['cls']}:{[o['op'] for o in scn['ops']]}:{sorted(cps)}"}


def step(w, op, mid, sim):
    """One operation, optionally with a checkpoint taken at a learner call inside."""
    if mid is None:
        return K.faulty(w, op, op.get("fault"), sim), None
    at, taken, old = REC.calls + mid["n"], [], REC.hook

    def hook(kind, learner):
        if old is not None:
            old(kind, learner)
        if REC.calls == at and not taken:
            taken.append(copy.deepcopy(w.model) if mid["kind"] == "deepcopy" else R.dumps(w.model, mid["kind"]))
            sim.fault("checkpoint_inside_fit")
    REC.hook = hook
    try:
        st = K.faulty(w, op, None, sim)
    finally:
        REC.hook = old
    return st, taken


def elsewhere(w, cp, ops, want, i0, sim):
    """Continue in another process."""
    spec = w.spec
    kind = cp["kind"] if cp["kind"] != "deepcopy" else "cloudpickle"
    was = R.report(spec, w, None, "")
    sim.fault("restore_in_other_process")
    tag, ans = R.helper({"spec": spec, "model": R.dumps(w.model, kind), "df": w.df, "ops": ops, "seed": sim.seed % (2 ** 32)})
    if tag != "ok":
        return [V("process", f"continuing in another process: {ans}")]
    sim.log("elsewhere", S.digest(ans[-1]["snap"]))
    ans[0]["status"] = ""
    out = [V("process", f"{kind} to another process before step {i0}: {d}") for d in same(was, ans[0])[:2]]
    for k, (a, b) in enumerate(zip(want, ans[1:])):
        if not out:
            out += [V("process", f"step {i0 + k} ({ops[k]['op']}) in another process: {d}") for d in same(a, b)[:2]]
    return out


DATA = ["x", "y", "d", "z", "t", "s", "x_cols", "y_col", "d_cols", "z_cols", "t_col", "s_col", "n_obs", "n_treat", "n_instr", "n_coefs", "binary_treats",
        "binary_outcome", "all_variables", "use_other_treat_as_covariate", "force_all_x_finite", "cluster_cols", "cluster_vars", "n_cluster_vars", "data"]


def parts(w, kind, sim, i):
    """Data objects, inference snapshots and effect results restored on their own."""
    spec, m = w.spec, w.model
    out = []
    data = m._dml_data if C.kind(spec) == "RD" else C.make_data(spec, w.df)
    again = R.restore(data, kind)
    d = S.diff({a: S.attr(data, a) for a in DATA}, {a: S.attr(again, a) for a in DATA})
    out += [V("data", f"{kind} of the data object: {x}") for x in d[:2]]
    if C.kind(spec) == "base" and C.HEAVY.get(spec["cls"], 1) < 3:
        conf = O.config(spec, m)
        if conf is not None:
            a, b = O.fresh(w, conf), O.fresh(w, conf, data=again)
            a.fit(sim)
            b.fit(sim)
            out += [V("data", f"a model on a restored data object: {x}") for x in S.diff(S.snap(spec, a.model), S.snap(spec, b.model))[:2]]
    fw = getattr(m, "framework", None)
    if fw is not None:
        g = R.restore(fw, kind)
        d = S.diff(S.snap_framework(fw), S.snap_framework(g))
        if not d and not C.clustered(spec):
            h = copy.deepcopy(fw)
            np.random.seed(5)
            h.bootstrap(n_rep_boot=7)
            np.random.seed(5)
            g.bootstrap(n_rep_boot=7)
            d = S.diff(S.snap_framework(h), S.snap_framework(g)) or S.diff(S.freeze(h.confint(joint=True)), S.freeze(g.confint(joint=True)))
        out += [V("snapshot", f"{kind} of the inference object: {x}") for x in d[:2]]
        c = O.caps(spec)
        r = random.Random(i)
        for name in ("gate", "cate", "gapo", "capo"):
            if name in c and m.n_rep == 1 and (spec["cls"] != "PLR" or m.predictions is not None):
                b = getattr(m, name)(O.groups(w.df, r.randrange(2)) if name.startswith("ga") else O.basis(w.df))
                d = S.diff(O.blp(b), O.blp(R.restore(b, kind)))
                out += [V("effects", f"{kind} of a {name} result: {x}") for x in d[:1]]
        if "tree" in c and m.n_rep == 1:
            t = m.policy_tree(w.df[["x1", "x2"]], depth=2, random_state=3)
            u = R.restore(t, kind)
            if S.diff(S.freeze(t.predict(w.df[["x1", "x2"]])), S.freeze(u.predict(w.df[["x1", "x2"]]))):
                out.append(V("effects", f"{kind} of a policy tree predicts something else"))
    return out


def shrink(scn):
    for i in range(len(scn["ops"])):
        if len(scn["ops"]) > 1:
            c = copy.deepcopy(scn)
            del c["ops"][i]
            if c["mid"] and c["mid"]["at"] == i:
                continue
            if c["mid"] and c["mid"]["at"] > i:
                c["mid"]["at"] -= 1
            for cp in c["cps"]:
                if cp["at"] > i:
                    cp["at"] -= 1
            yield c
    for i in range(len(scn["cps"])):
        if len(scn["cps"]) > 1:
            c = copy.deepcopy(scn)
            del c["cps"][i]
            yield c
    for k, v in (("mid", None), ("process", False)):
        if scn[k]:
            c = copy.deepcopy(scn)
            c[k] = v
            yield c
    for i, op in enumerate(scn["ops"]):
        for k, v in (("fault", None), ("cfg", dict(O.SEQ))):
            if op.get(k) and op[k] != v:
                c = copy.deepcopy(scn)
                c["ops"][i][k] = v
                yield c
    for i, cp in enumerate(scn["cps"]):
        for k, v in (("extra", None), ("parts", False)):
            if cp[k]:
                c = copy.deepcopy(scn)
                c["cps"][i][k] = v
                yield c
    yield from K.shrink_spec(scn)
