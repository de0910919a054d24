"""C08 randomness: every operation under controlled generator states; bootstrap weights recovered and checked; dataset generators."""
import copy

import numpy as np

from .. import catalog as C, ops as O, snap as S
from ..core import V
from ..learners import REC
from . import common as K

PROP = "C08"
REAL, STUB = K.REAL + ["NumPy's global generator (states set and observed by the simulator)", "doubleml dataset generators", "rdrobust"], K.STUB
RULE = ("Each run: a generated history on two identical models. Deterministic operations are executed from two different generator states: they must answer "
        "and report the same and leave the state untouched, also when a fault aborts them. Random operations are executed from states s, s', s: equal results and end states from "
        "equal states, other results and end states from other states, fresh results when repeated. Bootstrap statistics are recomputed from multiplier weights recovered "
        "through an inference object whose scores are the identity; the weights are tested for their kind. Dataset generators are driven likewise. "
        "Non-trivial: at least one state comparison was made; distinct by event-log digest.")
ASSUME = ["moment and characteristic-function tests of the weights use 6 standard errors", "policy trees get an explicit random_state"]
DET = ["fit", "fit", "sens", "set", "params", "confint", "padj", "summary", "eval", "bench", "contrast", "gate", "cate", "gapo", "capo", "tree"]
RND = ["boot", "draw", "tune", "new", "effci"]


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


# ----------------------------------------------------------------- dataset generators
def generators():
    import doubleml.datasets as D
    from doubleml.rdd.datasets import make_simple_rdd_data
    rt = ["array", "DataFrame", "DoubleMLData"]
    return {
        "plr": (lambda **k: D.make_plr_CCDDHNR2018(n_obs=40, dim_x=8, **k), rt), "turrell": (lambda **k: D.make_plr_turrell2018(n_obs=40, dim_x=6, **k), rt),
        "irm": (lambda **k: D.make_irm_data(n_obs=40, dim_x=6, **k), rt), "iivm": (lambda **k: D.make_iivm_data(n_obs=40, dim_x=6, **k), rt),
        "pliv": (lambda **k: D.make_pliv_CHS2015(n_obs=40, dim_x=6, dim_z=5, **k), rt), "pliv1": (lambda **k: D.make_pliv_CHS2015(n_obs=40, dim_x=6, dim_z=1, **k), rt),
        "pliv_own": (lambda **k: D._make_pliv_data(n_obs=40, dim_x=6, **k), rt),
        "cluster": (lambda **k: D.make_pliv_multiway_cluster_CKMS2021(N=6, M=5, dim_X=6, **k), ["array", "DataFrame", "DoubleMLClusterData"]),
        **{f"did{t}": (lambda t=t, **k: D.make_did_SZ2020(n_obs=40, dgp_type=t, **k), rt) for t in range(1, 7)},
        **{f"didcs{t}": (lambda t=t, **k: D.make_did_SZ2020(n_obs=40, dgp_type=t, cross_sectional_data=True, **k), rt) for t in (1, 4)},
        "confirm": (lambda: D.make_confounded_irm_data(n_obs=60), [None]), "confirm_lin": (lambda: D.make_confounded_irm_data(n_obs=60, linear=True), [None]),
        "confplr": (lambda: D.make_confounded_plr_data(n_obs=60), [None]),
        "het": (lambda: D.make_heterogeneous_data(n_obs=50, p=9, support_size=3, n_x=1), [None]),
        "het2": (lambda: D.make_heterogeneous_data(n_obs=50, p=9, support_size=3, n_x=2, binary_treatment=True), [None]),
        "ssm": (lambda **k: D.make_ssm_data(n_obs=60, dim_x=6, **k), rt), "ssm_nr": (lambda **k: D.make_ssm_data(n_obs=60, dim_x=6, mar=False, **k), rt),
        "discrete": (lambda: D.make_irm_data_discrete_treatments(n_obs=50), [None]),
        "discrete_lin": (lambda: D.make_irm_data_discrete_treatments(n_obs=50, n_levels=4, linear=True), [None]),
        "rdd": (lambda: make_simple_rdd_data(n_obs=50), [None]), "rdd_sharp": (lambda: make_simple_rdd_data(n_obs=50, fuzzy=False, binary_outcome=True), [None]),
    }


GEN = sorted(["plr", "turrell", "irm", "iivm", "pliv", "pliv1", "pliv_own", "cluster", "did1", "did2", "did3", "did4", "did5", "did6", "didcs1", "didcs4", "confirm",
              "confirm_lin", "confplr", "het", "het2", "ssm", "ssm_nr", "discrete", "discrete_lin", "rdd", "rdd_sharp"])


def frozen(x):
    if hasattr(x, "data") and hasattr(x, "d_cols"):
        return S.freeze(x.data)
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in sorted(x.items()) if not callable(v)}
    if isinstance(x, (tuple, list)):
        return [frozen(v) for v in x]
    return S.freeze(x)


def run_gen(scn, sim):
    fn, rts = generators()[scn["gen"]]
    out = []

    def call(seed, rt):
        if seed is not None:
            np.random.seed(seed)
        before = state()
        x = fn() if rt is None else fn(return_type=rt)
        if state() == before:
            out.append(V("dgp-no-draw", f"{scn['gen']}: generating data does not use the generator"))
        return frozen(x), state()
    a, b = scn["seeds"]
    rt = rts[scn["k"] % len(rts)]
    x1, e1 = call(a, rt)
    x2, e2 = call(None, rt)
    x3, e3 = call(b, rt)
    x4, e4 = call(a, rt)
    if scn["mix"]:
        call(None, rts[(scn["k"] + 1) % len(rts)])
        x4, e4 = call(a, rt)
    d = S.diff(x1, x4)
    if d or e1 != e4:
        out.append(V("dgp-not-reproducible", f"{scn['gen']} ({rt}): the same seed gives other data: {(d or ['generator state'])[0]}"))
    if not S.diff(x1, x2):
        out.append(V("dgp-not-fresh", f"{scn['gen']} ({rt}): two consecutive calls give the same data"))
    if not S.diff(x1, x3):
        out.append(V("dgp-seed-ignored", f"{scn['gen']} ({rt}): different seeds give the same data"))
    if e1 == e3 or e1 == e2:
        out.append(V("dgp-reseeds", f"{scn['gen']} ({rt}): the generator ends in the same state from different states"))
    if len(rts) > 1:
        y, e = call(a, rts[(scn["k"] + 1) % len(rts)])
        if e != e1:
            out.append(V("dgp-return-type", f"{scn['gen']}: the return type changes what is drawn"))
        df1, df2 = (call(a, r)[0] for r in rts[1:])
        if S.diff(df1, df2):
            out.append(V("dgp-return-type", f"{scn['gen']}: the data object holds other data than the data frame of the same seed"))
    sim.log(S.digest(x1))
    sim.probe("dataset_generators")
    return {"v": out[:2], "nontrivial": True, "sig": scn["gen"]}


# ----------------------------------------------------------------- bootstrap weights
def weights(method, n_boot, n_obs, n_rep, seed):
    """The multiplier weights drawn from a seed, observed through an inference object with unit scores: (n_boot, n_obs, n_rep)."""
    psi = np.repeat(np.eye(n_obs)[:, :, None], n_rep, axis=2)
    f = C.DoubleMLFramework({"thetas": np.zeros(n_obs), "ses": np.ones(n_obs), "all_thetas": np.zeros((n_obs, n_rep)),
                             "all_ses": np.ones((n_obs, n_rep)), "var_scaling_factors": np.ones(n_obs), "scaled_psi": psi})
    np.random.seed(seed)
    f.bootstrap(method=method, n_rep_boot=n_boot)
    return f.boot_t_stat


def cf(method, t):
    if method == "normal":
        return np.exp(-t * t / 2)
    if method == "Bayes":
        return np.exp(-1j * t) / (1 - 1j * t)
    return np.exp(-t * t / 4) * np.exp(-0.5j * t) / np.sqrt(1 - 1j * t)


KURT = {"normal": 3.0, "Bayes": 9.0, "wild": None}


def check_weights(W, method):
    out = []
    n = W.size
    m, v = W.mean(), W.var()
    k4 = {"normal": 2.0, "Bayes": 8.0, "wild": 14.25}[method]      # var of w^2 (upper bound for wild)
    if abs(m) > 6 / np.sqrt(n):
        out.append(V("weights-mean", f"{method} weights have mean {m:.4f}"))
    if abs(v - 1) > 6 * np.sqrt(k4 / n) + 1e-3:
        out.append(V("weights-variance", f"{method} weights have variance {v:.4f}"))
    for t in (0.4, 1.0, 2.0):
        e = np.mean(np.exp(1j * t * W))
        if abs(e - cf(method, t)) > 6 / np.sqrt(n):
            out.append(V("weights-kind", f"the weights are not of the kind {method}: characteristic function at {t} is {e:.3f}"))
            break
    lim = 6.5 / np.sqrt(W.shape[0] * W.shape[1])
    if W.shape[2] > 1 and abs(np.mean(W[:, :, 0] * W[:, :, 1])) > 3 * lim:
        out.append(V("weights-repetitions", "the weights of two repetitions are dependent"))
    if abs(np.mean(W[1:] * W[:-1])) > 3 * lim:
        out.append(V("weights-draws", "the weights of consecutive bootstrap draws are dependent"))
    if abs(np.mean(W[:, 1:] * W[:, :-1])) > 3 * lim:
        out.append(V("weights-observations", "the weights of neighbouring observations are dependent"))
    if len(np.unique(W)) < 0.999 * n:
        out.append(V("weights-repeated", "weights are repeated"))
    return out


def run_weights(scn, sim):
    out = []
    for method in O.BOOT:
        W = weights(method, scn["n_boot"], scn["n_obs"], scn["n_rep"], scn["seeds"][0])
        W2 = weights(method, scn["n_boot"], scn["n_obs"], scn["n_rep"], scn["seeds"][0])
        if not np.array_equal(W, W2):
            out.append(V("boot-not-reproducible", "the same seed gives other weights"))
        out += check_weights(W, method)
        sim.log(S.digest(S.freeze(W[:3])))
        sim.probe("weight_samples")
    return {"v": out[:2], "nontrivial": True, "sig": "weights"}


def check_boot(f, method, n_boot, seed, what):
    """Bootstrap statistics of an inference object are the weights times its scaled scores."""
    R = f.n_rep
    W = weights(method, n_boot, f.n_obs, R, seed)
    B = f.boot_t_stat
    if B is None or B.shape != (n_boot, f.n_thetas, R):
        return [V("boot-shape", f"{what}: bootstrap statistics of shape {None if B is None else B.shape}")]
    for k in range(f.n_thetas):
        for r in range(R):
            want = W[:, :, r] @ (f.scaled_psi[:, k, r] / (f.var_scaling_factors[k] * f.all_ses[k, r]))
            ok = np.allclose(B[:, k, r], want, rtol=1e-8, atol=1e-9 * (1 + np.abs(want).max()))
            if not ok:
                return [V("boot-statistics", f"{what}: the bootstrap statistics of coefficient {k}, repetition {r} are not the scores times the "
                          f"{method} weights of this seed ({B[0, k, r]:.4f} instead of {want[0]:.4f})")]
    return []


# ----------------------------------------------------------------- histories
def make(rng, v):
    x = rng.random()
    if x < 0.12:
        return {"kind": "gen", "gen": rng.choice(GEN), "seeds": rng.sample(range(10 ** 6), 2), "k": rng.randrange(6), "mix": rng.random() < 0.5}
    if x < 0.17:
        n_boot = rng.choice([300, 700, 2500])
        return {"kind": "weights", "n_boot": n_boot, "n_obs": rng.choice([60, 150]) if n_boot < 2000 else 40, "n_rep": rng.choice([1, 2]),
                "seeds": [rng.randrange(10 ** 6)]}
    spec = C.make_spec(rng, v)
    heavy = C.HEAVY.get(spec["cls"], 1)
    c = O.caps(spec)
    det = [k for k in DET if k in c and not (heavy > 3 and k in ("bench", "eval"))]
    rnd = [k for k in RND + ["effci"] * 2 if (k in c or k == "new") and not (heavy > 1 and k == "tune")]
    ops = [dict(O.gen_fit(rng, spec), t="det")]
    for _ in range(rng.choice([1, 2, 3, 4]) if heavy < 3 else rng.choice([1, 2])):
        if rng.random() < 0.45:
            k = rng.choice(rnd)
            op = {"op": "new"} if k == "new" else O.gen_op(rng, spec, [k])
            ops.append({**op, "t": "rnd", "seeds": rng.sample(range(10 ** 6), 2), "fault": rng.randrange(1, 40) if rng.random() < 0.2 else None})
        else:
            op = O.gen_op(rng, spec, [rng.choice(det)])
            if op["op"] == "fit" and "ext" in c and rng.random() < 0.2:
                op["extsel"] = rng.randrange(1000)
            if rng.random() < 0.2 and op["op"] not in ("set", "draw", "params"):
                op = {**op, "cfg": dict(O.SEQ)} if "cfg" in op else op
                op["fault"] = K.gen_fault(rng, op)
            ops.append({**op, "t": "det"})
    if rng.random() < 0.5 and "boot" in c:
        ops.append(dict(O.gen_fit(rng, spec), t="det"))
        ops.append({**O.gen_op(rng, spec, ["boot"]), "t": "rnd", "seeds": rng.sample(range(10 ** 6), 2), "fault": None})
    return {"kind": "hist", "spec": spec, "wseed": rng.randrange(10 ** 6), "ops": ops, "states": rng.sample(range(10 ** 6), 2),
            "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.5 else None, "comb": rng.randrange(4)}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 400, 9000), make, C.variants())


def run(scn, sim):
    if scn["kind"] == "gen":
        return run_gen(scn, sim)
    if scn["kind"] == "weights":
        return run_weights(scn, sim)
    spec = scn["spec"]
    out = []
    a = O.World(spec, scn["wseed"], own_split=scn["own"])
    b = O.World(spec, scn["wseed"], own_split=scn["own"])
    for i, op in enumerate(scn["ops"]):
        if op["t"] == "det":
            out += det(scn, sim, a, b, op)
        elif op["op"] == "new":
            out += new(scn, sim, a, op)
        else:
            out += rnd(scn, sim, a, b, op)
        sim.log(op["op"], S.digest(S.snap(spec, a.model, models=False)))
        if out:
            break
    return {"v": out[:2], "nontrivial": True, "sig": f"{spec['cls']}:{[o['op'] for o in scn['ops']]}"}


def det(scn, sim, a, b, op):
    """A deterministic operation from two generator states."""
    out, res = [], []
    for w, s in zip((a, b), scn["states"]):
        np.random.seed(s)
        np.random.normal()
        before = state()
        r = K.faulty(w, {**op, "raw": True}, op.get("fault"), sim)
        res.append((r, w.answer))
        if state() != before:
            out.append(V("consumed", f"{op['op']} ({r}) changes the state of the random generator"))
            break
    sim.probe("deterministic_operations")
    if not out:
        if (res[0][0] == "failed") != (res[1][0] == "failed"):
            return [V("generator-dependence", f"{op['op']} fails at the same fault point or not depending on the random generator")]
        d = S.diff(res[0][1], res[1][1])
        if d:
            out.append(V("generator-dependence", f"the answer of {op['op']} depends on the random generator: {d[0]}"))
        out += same(scn, a, b, op["op"])
    return out


def same(scn, a, b, what):
    d = S.diff(S.snap(scn["spec"], a.model), S.snap(scn["spec"], b.model))
    return [V("generator-dependence", f"after {what} the reported results depend on the random generator: {d[0]}")] if d else []


def got(spec, w, op):
    if op["op"] == "draw":
        return S.freeze(w.model.smpls)
    if op["op"] == "boot":
        return S.freeze(w.model.framework.boot_t_stat) if w.model.framework is not None else None
    if op["op"] == "effci":
        return [w.answer]
    return [w.answer, S.freeze(O.copy_params(spec, w.model))]


def rnd(scn, sim, a, b, op):
    """A random operation from states s, (continuing), s', s on one model and from s on its twin."""
    spec = scn["spec"]
    s, s2 = op["seeds"]
    out, folds = [], []

    def go(w, seed):
        if seed is not None:
            np.random.seed(seed)
        before = state()
        REC.events.clear()
        r = K.faulty(w, {**op, "raw": True}, None, sim)
        if op["op"] == "tune":
            folds.append(frozenset(e["ids"].tobytes() for e in REC.events if e["ev"] == "fit" and e["ids"] is not None))
        return r, got(spec, w, op) if r == "ok" else None, before, state()
    if op.get("fault"):
        np.random.seed(s2)
        K.faulty(a, {**op, "raw": True}, {"at": "line", "n": op["fault"], "kind": "interrupt"}, sim)
        np.random.seed(s2)
        K.faulty(b, {**op, "raw": True}, {"at": "line", "n": op["fault"], "kind": "interrupt"}, sim)
    r1, x1, b1, e1 = go(a, s)
    r2, x2, b2, e2 = go(a, None)
    r3, x3, b3, e3 = go(a, s2)
    r4, x4, b4, e4 = go(a, s)
    r5, x5, b5, e5 = go(b, s)
    sim.probe("random_operations")
    if r1 == "ok":
        if S.diff(x1, x4) or S.diff(x1, x5) or not e1 == e4 == e5:
            d = S.diff(x1, x4) or S.diff(x1, x5) or ["the end states of the generator"]
            out.append(V("not-reproducible", f"{op['op']} from the same generator state differs: {d[0]}"))
        if op["op"] in ("draw", "boot", "effci"):
            if e1 == b1:
                out.append(V("no-draw", f"{op['op']} does not use the random generator"))
            same2, same3 = not S.diff(x1, x2), not S.diff(x1, x3)
            if few(spec, op["op"]):       # so few possible splittings that one coincidence may happen
                same2 = same3 = same2 and same3
            if same3:
                out.append(V("seed-ignored", f"{op['op']} gives the same result from different generator states"))
            if same2:
                out.append(V("not-fresh", f"repeating {op['op']} gives the same result again"))
        if op["op"] == "tune":
            if e1 == b1 or folds[0] in folds[1:3]:
                out.append(V("no-draw", "the folds of the search do not depend on the random generator"))
            if not folds[0] == folds[3] == folds[4]:
                out.append(V("not-reproducible", "the search uses other folds from the same generator state"))
        if e1 != b1 and (e1 == e3 or e1 == e2):
            out.append(V("reseeded", f"{op['op']} leaves the generator in the same state from different states"))
        if op["op"] == "draw":
            for i in range(len(x1)):
                for j in range(i):
                    if all(not S.diff(f[i], f[j]) for f in ((x1, x2, x3) if few(spec, "draw") else (x1,))):
                        out.append(V("repetitions-equal", f"repetitions {j} and {i} of one draw are the same"))
        if op["op"] == "boot":
            out += boot(scn, sim, b, op, s)
    out += same(scn, a, b, op["op"])
    return out


def boot(scn, sim, w, op, seed):
    f = w.model.framework
    out = check_boot(f, op["method"], op["n"], seed, "model")
    B = f.boot_t_stat
    for r in range(1, f.n_rep):
        if np.array_equal(B[:, :, r], B[:, :, 0]):
            out.append(V("boot-repetitions", "the bootstrap statistics of two repetitions are the same"))
    sim.probe("bootstraps_recomputed")
    if not out and scn["comb"]:
        g = {1: lambda: f + f, 2: lambda: f * 0.5, 3: lambda: C.concat([f, f * 2.0])}[scn["comb"]]()
        np.random.seed(seed + 1)
        g.bootstrap(method=op["method"], n_rep_boot=op["n"])
        out += check_boot(g, op["method"], op["n"], seed + 1, "combined inference object")
    return out


def few(spec, op):
    return op == "draw" and C.clustered(spec)


def new(scn, sim, w, op):
    """Drawing in the constructor."""
    spec = scn["spec"]
    s, s2 = op["seeds"]
    out, res = [], []
    for seed in (s, None, s2, s):
        if seed is not None:
            np.random.seed(seed)
        before = state()
        m = C.make_model(spec, C.make_data(spec, w.df0.copy(deep=True)), C.make_learners(spec))
        x = S.freeze(m._smpls if C.kind(spec) == "RD" else m.smpls)
        res.append((x, state(), before))
    if S.diff(res[0][0], res[3][0]) or res[0][1] != res[3][1]:
        out.append(V("not-reproducible", "constructing the model from the same generator state gives another splitting or end state"))
    same2, same3 = not S.diff(res[0][0], res[1][0]), not S.diff(res[0][0], res[2][0])
    if few(spec, "draw"):
        same2 = same3 = same2 and same3
    if same3:
        out.append(V("seed-ignored", "constructing the model from different generator states gives the same splitting"))
    if same2:
        out.append(V("not-fresh", "constructing a second model gives the same splitting again"))
    if res[0][1] in (res[1][1], res[2][1]):
        out.append(V("reseeded", "constructing the model leaves the generator in the same state from different states"))
    return out


def shrink(scn):
    if scn["kind"] == "hist":
        yield from K.shrink_ops(scn)
