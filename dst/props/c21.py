"""C21 arguments and answers are values: what the user does with passed and returned containers, arrays and frames afterwards has no effect."""
import random

import doubleml as dml
import numpy as np
import pandas as pd

from .. import catalog as C, ops as O, snap as S
from ..core import V
from . import common as K

PROP = "C21"
REAL, STUB = K.REAL, K.STUB
RULE = ("Each run executes one generated history (with failing operations) twice from equal inputs; in the second one the user re-uses after every operation the "
        "containers, arrays and frames that were passed to it or returned by it (lists emptied, extended, reordered, arrays overwritten, dictionaries refilled, frame columns "
        "replaced). Nothing reported by the model or its data object may change by that, kept analysis objects must go on answering the same, and all later answers, "
        "fits and analyses must be bit-identical to those of the undisturbed session. Finally the data frame and the learners themselves are changed: what has "
        "been reported stays. Non-trivial: at least three passed objects were rewritten; distinct by event-log digest.")
ASSUME = ["data frames and learner objects are references by design: changing them may influence later fits, not what was reported"]
KINDS = ["fit", "fit", "boot", "sens", "draw", "set", "params", "params", "tune", "confint", "padj", "summary", "summary", "eval", "bench", "contrast", "gate", "cate", "gapo", "capo", "effci", "tree"]


EFF = [v for v in C.variants() if "effci" in O.caps({"cls": v[0], "opts": v[1], "n_rep": 1, "n_folds": 2})]


def make(rng, v):
    spec = C.make_spec(rng, v, n_rep=1 if v in EFF and rng.random() < 0.7 else None)
    heavy = C.HEAVY.get(spec["cls"], 1)
    c = O.caps(spec)
    ops = []
    if "params" in c and rng.random() < 0.5:
        ops.append({**O.gen_op(rng, spec, ["params"]), "none": False})
    if "set" in c and rng.random() < 0.3:
        ops.append(O.gen_op(rng, spec, ["set"]))
    first = O.gen_fit(rng, spec)
    if "ext" in c and rng.random() < 0.4 and not any(o["op"] == "set" for o in ops):
        first["extsel"] = rng.randrange(1000)
    ops.append(first)
    if rng.random() < 0.3 and C.kind(spec) != "RD":
        ops.append({"op": "names", "k": rng.randrange(100)})
    kinds = [k for k in KINDS if heavy < 4 or k not in ("tune", "bench")]
    for _ in range(rng.randint(1, 4) if heavy < 3 else rng.randint(1, 2)):
        ops.append(O.gen_op(rng, spec, kinds))
    if rng.random() < 0.6:
        ops.append(O.gen_fit(rng, spec))
    for op in ops:
        op["fault"] = None
        if (op.get("cfg") or {}).get("mode", "seq") == "seq" and op["op"] in ("fit", "tune", "bench", "boot", "sens") and rng.random() < 0.12:
            op["fault"] = K.gen_fault(rng, op)
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "ops": ops, "scribble": rng.randrange(10 ** 6),
            "own": {"seed": rng.randrange(10 ** 6)} if "set" in c and rng.random() < 0.3 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 520, 12000), make, C.variants() + EFF)


# ------------------------------------------------------------------------------------------------ the user at work
def scribble(obj, r, depth=0):
    """Rewrite a passed object in place."""
    if isinstance(obj, np.ndarray):
        if not obj.flags.writeable or obj.size == 0:
            return
        if obj.dtype == bool:
            obj[...] = ~obj
        elif obj.dtype.kind in "iu":
            obj[...] = r.choice([0, 1, 2])
        elif obj.dtype.kind == "f":
            obj[...] = np.flip(obj, 0) * 0.5 + 0.25
        return
    if isinstance(obj, pd.DataFrame):
        for j in range(obj.shape[1]):
            v = obj.iloc[:, j].to_numpy()[::-1].copy()
            obj.isetitem(j, ~v if v.dtype == bool else v)
        for c in obj.columns:
            if obj[c].dtype.kind == "f":
                obj.loc[:, c] = 0.5
        if r.random() < 0.5:
            obj.drop(columns=obj.columns[-1], inplace=True)
        return
    if isinstance(obj, tuple):
        for x in obj:
            scribble(x, r, depth + 1)
        return
    if isinstance(obj, list):
        for x in obj:
            scribble(x, r, depth + 1)
        x = r.random()
        if x < 0.3:
            obj.clear()
        elif x < 0.6:
            obj.append(obj[0] if obj else "x")
        elif x < 0.8:
            obj.reverse()
        else:
            obj[:] = obj[1:]
        return
    if isinstance(obj, dict):
        for k in sorted(obj, key=str):
            v = obj[k]
            scribble(v, r, depth + 1)
            if isinstance(v, bool):
                obj[k] = not v
            elif isinstance(v, (int, float)):
                obj[k] = v * 3 + 1
        if r.random() < 0.3:
            obj.clear()


def again(w):
    """The kept analyses are estimated once more."""
    out = []
    for name, read, obj in w.kept:
        if name in ("gate", "gapo", "cate", "capo"):
            obj.fit(cov_type="HC1")
        elif name == "tree":
            obj.fit()
        else:
            continue
        out.append([name, read()])
    return out


def roles_reported(w):
    d = w.model._dml_data if w.data is None else w.data
    out = {}
    for a in ("x_cols", "d_cols", "y_col", "z_cols", "t_col", "s_col", "cluster_cols", "n_treat", "n_coefs", "n_instr", "n_cluster_vars", "x", "d", "y", "z", "cluster_vars"):
        try:
            out[a] = S.freeze(getattr(d, a))
        except AttributeError:
            pass
    out["text"] = str(d).split("DataFrame info")[0]
    return out


def everything(w):
    out = {"model": S.snap(w.spec, w.model), "data": roles_reported(w)}
    for i, (name, read, _) in enumerate(w.kept):
        out[f"kept {name} {i}"] = read()
    for a in ("weights", "params", "quantiles", "treatment_levels", "subgroups"):
        if hasattr(type(w.model), a):
            out[a] = S.freeze(getattr(w.model, a))
    return out


def play(scn, sim, user):
    """One session; user: None or the generator of what the user does to passed objects."""
    spec, out, n = scn["spec"], [], 0
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    done = got = 0
    answers = []
    for op in [None] + scn["ops"]:
        if op is not None:
            st = K.faulty(w, op, op["fault"], sim)
            answers.append([op["op"], st, w.answer])
        if user is None:
            continue
        back = w.returned[got:]
        got = len(w.returned)
        new = back + [(name, obj) for name, obj, _ in w.given[done:] if name != "data frame" and not name.startswith("learner ")]
        done = len(w.given)
        if not new:
            continue
        was = everything(w)
        for name, obj in new:
            scribble(obj, user)
            sim.fault("user_rewrites_" + ("answer" if back and obj is not None and any(obj is b for _, b in back) else name.split(" ")[-1]))
            n += obj is not None
        d = S.diff(was, everything(w))
        if d:
            out.append(V("reported", f"after {op['op'] if op else 'construction'} the user rewrote the passed or returned {', '.join(sorted({a for a, _ in new}))} and the session "
                         f"reports something else: {'; '.join(d[:2])}"))
            break
    return w, answers, out, n


ROLES = ("x", "y", "d", "z", "t", "s", "cluster_vars")


def from_arrays(scn, sim):
    """A data object made from arrays that are re-used afterwards."""
    r = np.random.RandomState(scn["wseed"])
    df = C.make_df(scn["spec"])
    n = len(df)
    dt = r.choice(["float64", "float64", "int64"])
    args = {"x": df[["x1", "x2", "x3"]].to_numpy(), "y": df["y"].to_numpy().astype(dt), "d": r.randint(0, 2, size=n).astype(dt)}
    if r.randint(2):
        args["d"] = np.column_stack((args["d"], r.normal(size=n)))
    for a in ("z", "t", "s"):
        if r.randint(2):
            args[a] = r.randint(0, 2, size=n).astype(dt)
    if r.randint(2):
        args["cluster_vars"] = np.arange(n).astype(dt) % 9
        args.pop("t", None), args.pop("s", None)
    args = {k: np.asfortranarray(v) if r.randint(2) else np.ascontiguousarray(v) for k, v in args.items()}
    data = (dml.DoubleMLClusterData if "cluster_vars" in args else dml.DoubleMLData).from_arrays(**args)
    read = lambda: S.freeze({a: getattr(data, a) for a in ROLES + ("x_cols", "d_cols", "binary_outcome", "binary_treats") if hasattr(type(data), a)})  # noqa: E731
    was, frame = read(), data.data.copy(deep=True)
    for v in args.values():
        scribble(v, random.Random(1))
        sim.fault("user_rewrites_array")
    d = S.diff(was, read())
    data.set_x_d(data.d_cols[0])
    d = d or S.diff(was, read()) or ([] if frame.equals(data.data) else ["the data frame changed"])
    return [V("reported", f"a data object created from arrays changed when the arrays were rewritten: {d[0]}")] if d else []


def run(scn, sim):
    spec = scn["spec"]
    if scn["wseed"] % 4 == 0:
        out = from_arrays(scn, sim)
        if out:
            return {"v": out, "nontrivial": True, "sig": "arrays"}
    w1, a1, _, _ = play(scn, sim, None)
    st1 = np.random.get_state()
    w2, a2, out, n = play(scn, sim, random.Random(scn["scribble"]))
    if not out:
        for x, y in zip(a1, a2):
            d = S.diff(S.freeze(x), S.freeze(y))
            if d:
                out.append(V("later", f"{x[0]} gives something else after passed objects were rewritten: {d[0]}"))
                break
        d = S.diff(everything(w1), everything(w2)) or S.diff(O.inference(spec, w1.model), O.inference(spec, w2.model))
        if d:
            out.append(V("later", "the session ends differently after passed objects were rewritten: " + "; ".join(d[:2])))
        d = S.diff(S.freeze(again(w1)), S.freeze(again(w2)))
        if d:
            out.append(V("later", "a kept analysis estimated once more differs after passed objects were rewritten: " + "; ".join(d[:2])))
        st2 = np.random.get_state()
        if not S.same_array(st1[1], st2[1]) or st1[2:] != st2[2:]:
            out.append(V("later", "the random generator ends in another state"))
    if not out:
        was = [S.snap(spec, w2.model), O.inference(spec, w2.model, text=False), [read() for _, read, _ in w2.kept]]
        for c in w2.df.columns:
            if c != "xid":
                w2.df.loc[:, c] = w2.df[c].to_numpy()[::-1].copy()
        for ln in w2.learners.values():
            if "alpha" in ln.get_params():
                ln.set_params(alpha=55.0)
        d = S.diff(S.freeze(was), S.freeze([S.snap(spec, w2.model), O.inference(spec, w2.model, text=False), [read() for _, read, _ in w2.kept]]))
        if d:
            out.append(V("reported", "the user changed the data frame and the learners and reported results changed: " + "; ".join(d[:2])))
    sim.log(S.digest(S.snap(spec, w2.model, models=False)))
    return {"v": out[:2], "nontrivial": n >= 3, "sig": f"{spec['cls']}{sorted(spec['opts'].items())}"}


shrink = K.shrink_ops
