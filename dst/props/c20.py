"""C20 a data object always agrees with its current roles: histories of role changes on data objects and on the data of models."""
import copy
import pickle
import random

import doubleml as dml
import numpy as np
import pandas as pd

from .. import catalog as C, ops as O, snap as S
from ..core import V
from ..learners import ID_BASE, REC, RecCls, RecReg
from . import common as K

PROP = "C20"
REAL, STUB = K.REAL, K.STUB
RULE = ("Each run is a seeded history on one data object (with or without clusters, from a frame or from arrays): column roles are set, changed and changed back, "
        "accepted and refused changes mixed, frames with missing and infinite entries, treatments selected, the object copied or serialised, changes interrupted "
        "at seeded source lines. After every step everything the object reports (arrays, flags, roles, text) must be what the frame says for the roles in force, "
        "a change must be refused exactly when a new object with these roles would be refused, and the frame stays untouched. Models created on it - and models created "
        "before the change and fitted again - must give what a new data object with these roles gives; results reported before the change must stay. "
        "Non-trivial: at least two accepted changes; distinct by event-log digest.")
ASSUME = ["force_all_x_finite is checked without the state after a refused value (the existing tests expect that it is kept)",
          "after y_col, z_cols, t_col or s_col are changed the selected treatment may either stay or be the first one"]
FIRST = ["x1", "x2", "x3", "xid"]
COLS = FIRST + ["xn", "xi", "d", "d2", "d3", "y", "yb", "yi", "yn", "z", "z2", "t", "s", "c1", "c2", "cn"]


def make(rng, v):
    if rng.random() < 0.35:
        spec = C.make_spec(rng, v)
        if C.HEAVY.get(spec["cls"], 1) > 3:
            spec["n_rep"] = 1
        steps = []
        for _ in range(rng.choice([1, 2, 3])):
            steps.append(rng.choice([["x", rng.randrange(1000)], ["x", rng.randrange(1000)], ["other", rng.random() < 0.5], ["back", 0], ["bad", rng.randrange(1000)]]))
        return {"kind": "model", "spec": spec, "wseed": rng.randrange(10 ** 6), "fit": O.gen_fit(rng, spec), "steps": steps, "last": O.gen_fit(rng, spec),
                "read": [O.gen_op(rng, spec, ["boot", "sens", "confint"]) for _ in range(rng.choice([0, 1]))]}
    steps = [[rng.randrange(10 ** 9), rng.random() < 0.1] for _ in range(rng.randint(3, 10))]
    return {"kind": "data", "dseed": rng.randrange(10 ** 6), "cluster": rng.random() < 0.35, "arrays": rng.random() < 0.2, "steps": steps, "dirty": rng.random() < 0.5,
            "fseed": rng.randrange(10 ** 6)}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 1000, 40000), make, C.variants())


# ------------------------------------------------------------------------------------------------ the frame and the reference
def frame(seed, dirty):
    r = np.random.RandomState(seed)
    n = 60
    x = r.normal(size=(n, 3))
    df = pd.DataFrame({"x1": x[:, 0], "x2": x[:, 1], "x3": x[:, 2], "xid": ID_BASE + np.arange(n, dtype=float)})
    df["xn"] = r.normal(size=n)
    df["xi"] = r.randint(0, 5, size=n)
    if dirty:
        df.loc[3, "xn"] = np.nan
        df["xi"] = df["xi"].astype(float)
        df.loc[5, "xi"] = np.inf
    df["d"] = r.randint(0, 2, size=n)
    df["d2"] = x[:, 1] + r.normal(size=n)
    df["d3"] = r.randint(0, 2, size=n).astype(float)
    df["y"] = df["d"] + x[:, 0] + r.normal(size=n)
    df["yb"] = (df["y"] > df["y"].median()).astype(int)
    df["yi"] = np.round(2 * df["y"]).astype(int)
    df["yn"] = r.normal(size=n)
    if dirty:
        df.loc[7, "yn"] = np.nan
    df["z"] = r.randint(0, 2, size=n)
    df["z2"] = df["d2"] + r.normal(size=n)
    df["t"] = r.randint(0, 2, size=n)
    df["s"] = r.randint(0, 2, size=n)
    df["c1"] = np.arange(n) % 10
    df["c2"] = np.arange(n) // 10
    df["cn"] = np.arange(n) % 7 + 0.0
    if dirty:
        df.loc[2, "cn"] = np.nan
    df = df[[c for c in r.permutation(COLS)]]
    if r.randint(2):
        df.index = r.permutation(n) + 100
    return df


def aslist(v):
    return [v] if isinstance(v, str) else list(v)


def resolved(df, R):
    """The roles with x_cols spelled out."""
    R = dict(R)
    if R["x_cols"] is None:
        used = {R["y_col"], *aslist(R["d_cols"]), *aslist(R["z_cols"] or []), *([R["t_col"]] if R["t_col"] else []), *([R["s_col"]] if R["s_col"] else []),
                *aslist(R.get("cluster_cols") or [])}
        R["x_cols"] = [c for c in df.columns if c not in used]
    return R


def create(df, R):
    kw = {k: v for k, v in R.items() if k not in ("y_col", "d_cols")}
    cl = dml.DoubleMLClusterData if "cluster_cols" in R else dml.DoubleMLData
    return cl(df, R["y_col"], R["d_cols"], **copy.deepcopy(kw))


def allowed(df, R):
    """Are these roles possible? (stated independently of the library)"""
    R = resolved(df, R)
    groups_ = [[R["y_col"]], aslist(R["d_cols"]), aslist(R["x_cols"]), aslist(R["z_cols"] or []), [R["t_col"]] if R["t_col"] else [], [R["s_col"]] if R["s_col"] else [],
               aslist(R.get("cluster_cols") or [])]
    flat = [c for g in groups_ for c in g]
    if len(set(flat)) != len(flat) or not set(flat) <= set(df.columns):
        return False
    fin = [R["y_col"]] + aslist(R["d_cols"]) + groups_[3] + groups_[4] + groups_[5] + groups_[6]
    if not all(np.isfinite(df[c]).all() for c in fin):
        return False
    xs = aslist(R["x_cols"]) + (aslist(R["d_cols"])[1:] if R["use_other_treat_as_covariate"] else [])
    fo = R["force_all_x_finite"]
    for c in xs:
        if fo is True and not np.isfinite(df[c]).all() or fo == "allow-nan" and np.isinf(df[c]).any():
            return False
    return True


def flag(col):
    v = set(np.asarray(col).tolist())
    return v <= {0, 1}


def expected(df, R, treat):
    """What an object with these roles and this selected treatment reports."""
    R = resolved(df, R)
    dc, xc = aslist(R["d_cols"]), aslist(R["x_cols"])
    zc = aslist(R["z_cols"]) if R["z_cols"] is not None else None
    xs = xc + ([c for c in dc if c != treat] if R["use_other_treat_as_covariate"] else [])
    out = {"x_cols": xc, "d_cols": dc, "y_col": R["y_col"], "z_cols": zc, "t_col": R["t_col"], "s_col": R["s_col"],
           "use_other_treat_as_covariate": R["use_other_treat_as_covariate"], "force_all_x_finite": R["force_all_x_finite"],
           "x": df[xs].values, "y": df[R["y_col"]].values, "d": df[treat].values, "z": df[zc].values if zc else None,
           "t": df[R["t_col"]].values if R["t_col"] else None, "s": df[R["s_col"]].values if R["s_col"] else None,
           "n_obs": len(df), "n_treat": len(dc), "n_coefs": len(dc), "n_instr": len(zc or []), "all_variables": df.columns,
           "binary_outcome": bool(flag(df[R["y_col"]])), "binary_treats": [bool(flag(df[c])) for c in dc], "binary_treats names": dc}
    if "cluster_cols" in R:
        cc = aslist(R["cluster_cols"])
        out.update({"cluster_cols": cc, "cluster_vars": df[cc].values, "n_cluster_vars": len(cc)})
    return S.freeze(out)


def report(data):
    at = ["x_cols", "d_cols", "y_col", "z_cols", "t_col", "s_col", "use_other_treat_as_covariate", "force_all_x_finite", "x", "y", "d", "z", "t", "s", "n_obs", "n_treat",
          "n_coefs", "n_instr", "all_variables", "binary_outcome"]
    if isinstance(data, dml.DoubleMLClusterData):
        at += ["cluster_cols", "cluster_vars", "n_cluster_vars"]
    out = {a: getattr(data, a) for a in at}
    out["binary_outcome"] = bool(out["binary_outcome"])
    out["binary_treats"] = [bool(v) for v in data.binary_treats]
    out["binary_treats names"] = list(data.binary_treats.index)
    return S.freeze(out)


def propose(r, df, R, cluster):
    """A role change: (attribute, value)."""
    a = r.choice(["x_cols"] * 4 + ["d_cols"] * 4 + ["y_col"] * 3 + ["z_cols"] * 2 + ["t_col", "s_col"] + ["use_other_treat_as_covariate"] * 2 + ["force_all_x_finite"] * 2
                 + (["cluster_cols"] * 3 if cluster else []))
    xp = ["x1", "x2", "x3", "xid", "xn", "xi"]
    if a == "x_cols":
        k = r.random()
        if k < 0.15:
            return a, None
        if k < 0.25:
            return a, r.choice(xp)
        v = r.sample(xp if k < 0.7 else FIRST, r.randint(1, 4))
        if r.random() < 0.15:
            v.append(r.choice(COLS))
        return a, v
    if a == "d_cols":
        k = r.random()
        if k < 0.3:
            return a, r.choice(["d", "d2", "d3"])
        v = r.sample(["d", "d2", "d3"], r.randint(1, 3))
        if r.random() < 0.2:
            v.append(r.choice(COLS))
        return a, v
    if a == "y_col":
        return a, r.choice(["y", "yb", "yi", "yn", "y", "yb", r.choice(COLS)])
    if a == "z_cols":
        return a, r.choice([None, "z", "z2", ["z", "z2"], ["z2", "z"], [r.choice(COLS)], ["z"]])
    if a in ("t_col", "s_col"):
        return a, r.choice([None, "t", "s", "t", "s", r.choice(COLS)])
    if a == "cluster_cols":
        return a, r.choice(["c1", "c2", ["c1", "c2"], ["c2"], ["c2", "c1"], "cn", [r.choice(COLS)]])
    if a == "use_other_treat_as_covariate":
        return a, r.random() < 0.5
    return a, r.choice([True, False, "allow-nan"])


def start(r, df, cluster):
    R = {"y_col": r.choice(["y", "yb", "yi"]), "d_cols": r.choice(["d", ["d2"], ["d", "d2"], ["d3", "d2", "d"]]), "x_cols": r.sample(FIRST, r.randint(1, 4)),
         "z_cols": r.choice([None, None, "z", ["z2", "z"]]), "t_col": r.choice([None, None, "t"]), "s_col": r.choice([None, None, "s"]),
         "use_other_treat_as_covariate": r.random() < 0.7, "force_all_x_finite": r.choice([True, False, "allow-nan"])}
    if cluster:
        R["cluster_cols"] = r.choice(["c1", ["c1", "c2"], ["c2"]])
    if r.random() < 0.15:
        R["x_cols"] = None
        R["force_all_x_finite"] = False
    return R


def from_arrays(r, df, cluster):
    """An object from arrays and the frame it should have."""
    xs, ds, zs = r.sample(FIRST, r.randint(1, 4)), r.sample(["d", "d2", "d3"], r.randint(1, 3)), r.choice([None, ["z"], ["z2", "z"]])
    y, t, s = r.choice(["y", "yb", "yi"]), r.choice([None, "t"]), r.choice([None, "s"])
    other, fo = r.random() < 0.7, r.choice([True, False, "allow-nan"])
    flat = r.random() < 0.5
    cc = r.choice([["c1"], ["c1", "c2"]]) if cluster else None

    def arr(cols):
        return None if cols is None else df[cols[0]].to_numpy() if flat and len(cols) == 1 else df[cols].to_numpy()
    a = {"x": arr(xs), "y": df[y].to_numpy(), "d": arr(ds)}
    kw = {"z": arr(zs), "t": None if t is None else df[t].to_numpy(), "s": None if s is None else df[s].to_numpy(), "use_other_treat_as_covariate": other, "force_all_x_finite": fo}
    was = S.freeze([a, kw])
    nm = {"x": [f"X{i + 1}" for i in range(len(xs))], "d": ["d"] if len(ds) == 1 else [f"d{i + 1}" for i in range(len(ds))],
          "z": None if zs is None else ["z"] if len(zs) == 1 else [f"z{i + 1}" for i in range(len(zs))]}
    R = {"y_col": "y", "d_cols": nm["d"], "x_cols": nm["x"], "z_cols": nm["z"], "t_col": t, "s_col": s, "use_other_treat_as_covariate": other, "force_all_x_finite": fo}
    ref = {}
    if cluster:
        cn = ["cluster_var"] if len(cc) == 1 else ["cluster_var1", "cluster_var2"]
        data = dml.DoubleMLClusterData.from_arrays(a["x"], a["y"], a["d"], arr(cc), **kw)
        R["cluster_cols"] = cn
        ref.update({n: df[c].to_numpy() for n, c in zip(cn, cc)})
    else:
        data = dml.DoubleMLData.from_arrays(a["x"], a["y"], a["d"], **kw)
    for names, cols in ((nm["x"], xs), (["y"], [y]), (nm["d"], ds), (nm["z"] or [], zs or []), (["t"] if t else [], [t]), (["s"] if s else [], [s])):
        ref.update({n: df[c].to_numpy() for n, c in zip(names, cols)})
    ok = list(data.data.columns) == list(ref) and all(np.array_equal(data.data[c].to_numpy(), ref[c]) for c in ref)
    return data, R, ok and not S.diff(was, S.freeze([a, kw]))


def build_model(data, seed):
    """A model that fits the roles of the data object; None if there is none for them."""
    np.random.seed(seed)
    kw = {"n_folds": 2, "n_rep": 1 + seed % 2}
    if isinstance(data, dml.DoubleMLClusterData):
        if data.z_cols is None:
            return dml.DoubleMLPLR(data, RecReg(label="ml_l"), RecReg(label="ml_m", alpha=2.0), **kw)
        return dml.DoubleMLPLIV(data, RecReg(label="ml_l"), RecReg(label="ml_m", alpha=2.0), RecReg(label="ml_r", alpha=3.0), **kw)
    if data.z_cols is not None:
        return dml.DoubleMLPLIV(data, RecReg(label="ml_l"), RecReg(label="ml_m", alpha=2.0), RecReg(label="ml_r", alpha=3.0), **kw)
    if data.n_treat == 1 and data.binary_treats.all() and seed % 3:
        return dml.DoubleMLIRM(data, RecCls(label="ml_g") if data.binary_outcome else RecReg(label="ml_g"), RecCls(label="ml_m", alpha=2.0), **kw)
    return dml.DoubleMLPLR(data, RecReg(label="ml_l"), RecCls(label="ml_m", alpha=2.0) if data.binary_treats.all() else RecReg(label="ml_m", alpha=2.0), **kw)


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:
        return None, type(e).__name__


def same_models(data, df, R, seed, sim, out):
    """New models on the data object and on a new object with the same roles."""
    if not np.isfinite(df[resolved(df, R)["x_cols"]].to_numpy(dtype=float)).all() or not np.isfinite(df[aslist(R["d_cols"])].to_numpy(dtype=float)).all():
        return None

    def go(d):
        m = build_model(d, seed)
        m.fit(store_predictions=True)
        return m
    (m1, e1), (m2, e2) = attempt(lambda: go(data)), attempt(lambda: go(create(df, R)))
    sim.log("model", type(m1).__name__, e1)
    if e1 != e2:
        out.append(V("model", f"a model on the data object: {e1 or 'works'}, on a new data object with the same roles: {e2 or 'works'}"))
    elif e1 is None:
        d = S.diff(S.snap_base(m2, False), S.snap_base(m1, False))
        if d:
            out.append(V("model", f"a model on the data object differs from one on a new data object with the same roles: {d[:2]}"))
        return m1
    return None


# ------------------------------------------------------------------------------------------------ runs
def run_data(scn, sim):
    df = frame(scn["dseed"], scn["dirty"])
    r = random.Random(scn["fseed"])
    out, n, cluster = [], 0, scn["cluster"]
    if scn["arrays"]:
        data, R, ok = from_arrays(r, df, cluster)
        if not ok:
            return {"v": [V("arrays", "from_arrays does not hold the arrays it was given")], "nontrivial": True, "sig": "arrays"}
        df = data.data
    else:
        R = start(r, df, cluster)
        data = create(df, R)
    R = resolved(df, R)
    was = S.freeze(df)
    treat, given, models = aslist(R["d_cols"])[0], [], []
    maybe = {treat}

    def check(what):
        rep = report(data)
        ds = [S.diff(expected(df, R, t), rep) for t in sorted(maybe)]
        if all(ds):
            out.append(V("report", f"after {what}: {ds[0][:3]}"))
        fr = create(df, R)
        d = S.diff(str(fr), str(data))
        if d:
            out.append(V("text", f"after {what} the text differs from that of a new object"))
        d = S.diff(was, S.freeze(df)) or S.diff(was, S.freeze(data.data))
        if d:
            out.append(V("frame", f"after {what} the data frame is changed: {d[:2]}"))
        for obj, fz in given:
            if S.diff(fz, S.freeze(obj)):
                out.append(V("arguments", f"after {what} a list of columns that was handed over is changed"))
        for m, fz in models:
            d = S.diff(fz, S.snap_base(m, False))
            if d:
                out.append(V("results", f"{what} changed what a model fitted before reports: {d[:2]}"))

    check("creation")
    for seed, fault in scn["steps"]:
        if out:
            break
        r = random.Random(seed)
        k = r.random()
        if k < 0.1:
            t = r.choice(aslist(R["d_cols"]))
            data.set_x_d(t)
            maybe = {t}
            sim.log("set_x_d", t)
            what = f"set_x_d({t})"
        elif k < 0.2:
            how = r.choice(["deepcopy", "pickle", "copy"])
            data = {"deepcopy": copy.deepcopy, "pickle": lambda d: pickle.loads(pickle.dumps(d)), "copy": copy.copy}[how](data)
            sim.log(how)
            what = how
        elif k < 0.3 and len(models) < 2:
            m = same_models(data, df, R, seed, sim, out)
            if m is not None:
                models.append((m, S.snap_base(m, False)))
            maybe = set(aslist(R["d_cols"]))
            what = "fitting a model"
        else:
            a, v = propose(r, df, R, cluster)
            if scn["arrays"]:
                v = rename(v, df)
            R2 = {**R, a: copy.deepcopy(v)}
            if a == "force_all_x_finite" and not allowed(df, R2):
                continue
            # an object created with these roles at once
            _, e_new = attempt(lambda: create(df, R2))
            if (e_new is None) != allowed(df, R2):
                out.append(V("roles", f"a new data object with the roles {R2}: {e_new or 'accepted'}"))
                break
            what = f"{a} = {v!r}"
            flt = {"at": "line", "n": 1 + seed % 60, "kind": r.choice(["interrupt", "oom"])} if fault and e_new is None and a != "force_all_x_finite" else None
            given.append((v, S.freeze(v)))
            box = {}

            def change():
                box["e"] = attempt(lambda: setattr(data, a, v))[1] if flt is None else setattr(data, a, v)
            res = K.guarded(change, flt, sim)
            sim.log(a, str(v), box.get("e"), res)
            if res == "failed":
                ch = [q for q in (R, R2) if not S.diff(str(create(df, q)), str(data)) and q["use_other_treat_as_covariate"] == data.use_other_treat_as_covariate
                      and S.freeze(aslist(resolved(df, q)["x_cols"])) == S.freeze(data.x_cols)]
                if not ch:
                    out.append(V("interrupted", f"after the interrupted change {what} the roles are neither the former nor the new ones"))
                    break
                R = ch[0]
                maybe = maybe & set(aslist(R["d_cols"])) | {aslist(R["d_cols"])[0]}
            elif (box["e"] is None) != (e_new is None):
                out.append(V("refused", f"{what}: {box['e'] or 'accepted'}, a new data object with these roles: {e_new or 'accepted'}"))
                break
            elif e_new is None:
                n += 1
                # None means the columns without another role at that moment
                R = {**R2, "x_cols": resolved(df, R2)["x_cols"]} if a == "x_cols" else R2
                first = aslist(R["d_cols"])[0]
                maybe = {first} if a in ("x_cols", "d_cols", "use_other_treat_as_covariate", "force_all_x_finite") else maybe | {first}
        if not out:
            check(what)
    if not out:
        same_models(data, df, R, scn["fseed"], sim, out)
        maybe = set(aslist(R["d_cols"]))
    if not out:
        check("everything")
    return {"v": out[:2], "nontrivial": n > 1, "sig": f"data:{cluster}:{len(scn['steps'])}:{n}"}


def rename(v, df):
    """Column names of the frame -> names of from_arrays, where these exist."""
    names = {"x1": "X1", "x2": "X2", "x3": "X3", "xid": "X4", "d2": "d1", "d3": "d2", "yb": "y", "yi": "y", "z2": "z1", "c1": "cluster_var", "c2": "cluster_var2"}
    if isinstance(v, list):
        out = []
        for c in v:
            c = names.get(c, c)
            if c not in out:
                out.append(c)
        return out
    return names.get(v, v) if isinstance(v, str) and v != "allow-nan" else v


def run_model(scn, sim):
    spec = dict(scn["spec"])
    w = O.World(spec, scn["wseed"])
    data, out, n = w.data, [], 0
    x0 = list(C.roles(spec)["x_cols"])
    multi = len(C.d_cols(spec)) > 1
    K.faulty(w, scn["fit"], None, sim)
    for op in scn["read"]:
        K.faulty(w, op, None, sim)

    def seen():
        return {"report": S.snap(spec, w.model), "inference": O.inference(spec, w.model, text=False)}
    before = seen()
    for what, k in scn["steps"]:
        r = random.Random(k)
        if what == "x":
            v = r.sample([c for c in x0 if c != "xid"], r.randint(1, len(x0) - 1)) + ["xid"]
            if r.random() < 0.2:
                v = v[::-1]
            data.x_cols = list(v)
            spec["x_cols"] = v
        elif what == "back":
            data.x_cols = list(x0)
            spec["x_cols"] = list(x0)
        elif what == "other":
            data.use_other_treat_as_covariate = bool(k)
            if multi:
                spec["opts"] = {**spec["opts"], "other_cov": bool(k)}
        else:
            a, v = r.choice([("x_cols", ["x1", "y"]), ("x_cols", ["nope"]), ("y_col", "x1"), ("d_cols", ["y"]), ("t_col", "x1"), ("s_col", "y"), ("z_cols", ["x1"])])
            if not (a == "y_col" and "x1" not in data.x_cols) and not (a in ("z_cols", "t_col") and "x1" not in data.x_cols):
                _, e = attempt(lambda: setattr(data, a, v))
                if e is None:
                    out.append(V("refused", f"{a} = {v!r} is accepted"))
        n += 1
        sim.log(what, k)
        d = S.diff(before, seen())
        if d:
            out.append(V("results", f"changing {what} of the data of a fitted model changed what it reports: {d[:2]}"))
        if out:
            break
    if not out:
        w.spec = spec
        K.faulty(w, scn["last"], None, sim)
        f = O.refit(w, sim)
        d = S.diff(S.snap(spec, f.model), S.snap(spec, w.model))
        if d:
            out.append(V("refit", f"after the covariates of the data were changed to {spec.get('x_cols')} (other_cov {spec['opts'].get('other_cov')}) the fit differs from that of a new "
                                  f"model: {d[:3]}"))
        ch = [c for c in w.changed_inputs()]
        if ch:
            out.append(V("inputs", f"changed: {ch[:2]}"))
    return {"v": out[:2], "nontrivial": n > 0, "sig": f"model:{spec['cls']}:{len(scn['steps'])}"}


def run(scn, sim):
    REC.reset()
    return run_data(scn, sim) if scn["kind"] == "data" else run_model(scn, sim)


def shrink(scn):
    for i in range(len(scn["steps"])):
        yield {**scn, "steps": scn["steps"][:i] + scn["steps"][i + 1:]}
    if scn["kind"] == "data":
        if any(f for _, f in scn["steps"]):
            yield {**scn, "steps": [[s, False] for s, _ in scn["steps"]]}
        if scn["dirty"]:
            yield {**scn, "dirty": False}
    else:
        if scn["read"]:
            yield {**scn, "read": []}
        for k in ("fit", "last"):
            if scn[k].get("cfg", {}).get("mode", "seq") != "seq":
                yield {**scn, k: {**scn[k], "cfg": dict(O.SEQ)}}
