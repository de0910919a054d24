"""C06 objects passed in by the user are never modified: everything handed over is compared before and after each operation."""
import numpy as np
import pandas as pd

import doubleml as dml

from .. import catalog as C, ops as O, ref, snap as S
from ..core import V
from ..learners import REC
from . import common as K

PROP = "C06"
REAL, STUB = K.REAL + ["rdrobust"], K.STUB
RULE = ("Each run: one session (data from a frame or from arrays, learners possibly already fitted by the user, weights, splittings, supplied predictions, "
        "grids, scoring, groups, bases, benchmark sets) with a generated history of operations, some failing through injected faults, under shared-memory, "
        "threaded or read-only isolated workers. After every operation each handed-over object is compared bitwise with what was handed over, "
        "and the data object keeps its frame and column roles; in the end a fit of a new model on the used objects equals one on pristine copies. "
        "Non-trivial: at least two operations ran; distinct by event-log digest.")
ASSUME = ["the pointer of a multi-treatment data object to the treatment in focus is not a user input"]
KINDS = ["fit", "fit", "boot", "sens", "draw", "set", "params", "tune", "tune", "confint", "padj", "summary", "eval", "bench", "contrast", "gate", "cate",
         "gapo", "capo", "tree"]
ROLES = ["y_col", "d_cols", "x_cols", "z_cols", "t_col", "s_col", "cluster_cols", "use_other_treat_as_covariate", "force_all_x_finite", "all_variables",
         "n_obs", "n_treat", "n_coefs"]


def make(rng, v):
    spec = C.make_spec(rng, v, n_rep=1 if v[0] in ("PLR", "IRM", "APO") and v[1].get("n_treat", 1) == 1 and rng.random() < 0.6 else None)
    heavy = C.HEAVY.get(spec["cls"], 1)
    c = O.caps(spec)
    kinds = [k for k in KINDS if k in c and not (heavy > 3 and k in ("tune", "bench"))]
    n = rng.randint(2, 6) if heavy < 3 else rng.randint(1, 3)
    ops = []
    if "tune" in kinds and rng.random() < 0.3:
        ops.append(O.gen_tune(rng, spec))
    ops.append(O.gen_fit(rng, spec))
    for _ in range(n):
        ops.append(O.gen_op(rng, spec, [rng.choice(kinds)]))
    for a in sorted(c & {"gate", "cate", "gapo", "capo"}):
        if rng.random() < 0.5:
            ops.append(O.gen_op(rng, spec, [a]))
    for op in ops:
        if op["op"] == "fit" and "ext" in c and rng.random() < 0.4:
            op["extsel"] = rng.randrange(1000)
        op["fault"] = K.gen_fault(rng, op) if rng.random() < 0.25 else None
    arrays = rng.random() < 0.25 and C.kind(spec) != "RD" and spec["opts"].get("n_treat", 1) == 1 and not C.clustered(spec) \
        and spec["opts"].get("n_instr", 1) == 1
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "ops": ops, "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.5 else None,
            "prefit": rng.random() < 0.4, "arrays": arrays, "fw": rng.random() < 0.3}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 600, 14000), make, C.variants())


def roles(data):
    return {r: S.attr(data, r) for r in ROLES if hasattr(type(data), r)}


def prefit(spec, learners):
    r = np.random.RandomState(3)
    x = r.normal(size=(12, 3))
    for k, v in learners.items():
        v.fit(x, (x[:, 0] > 0).astype(int) if hasattr(v, "predict_proba") else x[:, 1])


def run(scn, sim):
    spec = scn["spec"]
    learners = C.make_learners(spec)
    if scn["prefit"]:
        prefit(spec, learners)
    df, data, arrs = None, None, []
    if scn["arrays"]:
        df = C.make_df(spec)
        kw = C.roles(spec)
        arr = {"x": df[kw["x_cols"]].to_numpy(), "y": df["y"].to_numpy(), "d": df["d"].to_numpy()}
        for k, col in (("z", kw.get("z_cols")), ("t", kw.get("t_col")), ("s", kw.get("s_col"))):
            if col is not None:
                arr[k] = df[col if isinstance(col, str) else col[0]].to_numpy()
        arrs = [(k, v, v.copy()) for k, v in arr.items()]
        data = dml.DoubleMLData.from_arrays(**arr)
    w = O.World(spec, scn["wseed"], own_split=scn["own"], learners=learners, df=df, data=data)
    for k, v, c in arrs:
        w.given.append((f"array {k}", v, c))
    r0, frame0 = roles(w.data), S.freeze(w.data.data)
    out, done = [], 0
    for op in scn["ops"]:
        if scn["arrays"] and op["op"] == "bench":
            continue
        r = K.faulty(w, op, op.get("fault"), sim)
        sim.log(op["op"], r)
        done += 1
        if r == "failed" and op["op"] in ("set", "draw"):     # the splitting may be half in place: the user sets it again
            K.faulty(w, op, None, sim)
        out += [f"changed by {op['op']} ({r}): {m}" for m in w.changed_inputs()]
        out += [f"the data object changed its column roles in {op['op']} ({r}): {m}" for m in S.diff(r0, roles(w.data))]
        out += [f"the data object changed its data in {op['op']} ({r}): {m}" for m in S.diff(frame0, S.freeze(w.data.data))]
        if out:
            break
    if not out and scn["fw"] and C.kind(spec) != "RD" and w.model.framework is not None:
        out += framework_inputs(w, sim)
    if not out and w.fitted is not None:
        f = O.refit(w, sim)
        conf = w.fitted["conf"]
        g = O.World(spec, w.seed, own_split=None if conf is None else {"seed": 1}, df=w.df, data=w.data, learners=w.learners)
        if conf is not None:
            O.config_onto(g, conf)
        O.apply(g, {**w.fitted["op"], "cfg": dict(O.SEQ), "ext": w.fitted["ext"], "extsel": None}, sim)
        d = S.diff(S.snap(spec, f.model), S.snap(spec, g.model), ignore=("params",))
        out += [f"a new fit from the used objects differs from one from pristine copies: {m}" for m in d]
    sim.log(S.digest([S.freeze(o) for _, o, _ in w.given]))
    sim.probe("objects_watched", len(w.given))
    return {"v": [V("input-modified", m) for m in out[:2]], "nontrivial": done > 1, "sig": f"{spec['cls']}:{[o['op'] for o in scn['ops']]}"}


def framework_inputs(w, sim):
    """The arrays handed to an inference object are not modified by anything done with it."""
    fw = w.model.framework
    d = {"thetas": np.array(fw.thetas), "ses": np.array(fw.ses), "all_thetas": np.array(fw.all_thetas), "all_ses": np.array(fw.all_ses),
         "var_scaling_factors": np.array(fw.var_scaling_factors), "scaled_psi": np.array(fw.scaled_psi)}
    if fw.sensitivity_elements is not None:
        d["sensitivity_elements"] = {k: np.array(v) for k, v in fw.sensitivity_elements.items()}
    was = S.freeze(d)
    a = C.DoubleMLFramework(d)
    b = C.DoubleMLFramework(d)
    a.bootstrap(n_rep_boot=7)
    _ = 2 * a, a + b, a - b, -1 * a, C.concat([a, b])
    a.confint(joint=True), a.p_adjust("holm"), a.p_adjust(), a.summary
    if "sensitivity_elements" in d:
        a.sensitivity_analysis()
        _ = (a + b).sensitivity_analysis(), (a * -3).sensitivity_analysis()
        a.sensitivity_benchmark if False else None
    names = [f"t{i}" for i in range(a.n_thetas)]
    a.treatment_names = names
    out = [f"the dictionary given to an inference object changed: {m}" for m in S.diff(was, S.freeze(d))]
    if names != [f"t{i}" for i in range(a.n_thetas)]:
        out.append("the list of treatment names changed")
    # group effects and trees built directly from user arrays
    sig = np.array(fw.scaled_psi[:, 0, 0]) + 0.3
    basis, feats = O.basis(w.df), w.df[["x1", "x2"]].copy()
    was = S.freeze([sig, basis, feats])
    bl = dml.DoubleMLBLP(sig, basis).fit()
    _ = bl.summary, bl.confint(basis, joint=True, n_rep_boot=5), bl.confint()
    t = dml.DoubleMLPolicyTree(sig, feats, depth=1, random_state=1).fit()
    t.predict(feats)
    out += [f"an array or frame given to a linear projection or policy tree changed: {m}" for m in S.diff(was, S.freeze([sig, basis, feats]))]
    sim.probe("framework_inputs")
    return out


shrink = K.shrink_ops
