"""C04 inference snapshots: a growing pool of snapshots and combinations is re-read after every later operation."""
import copy

import numpy as np

from .. import catalog as C, ops as O, ref, snap as S
from ..core import V, InjectedError
from ..learners import REC
from . import common as K

PROP = "C04"
REAL, STUB = K.REAL, K.STUB
RULE = ("Each run: up to two models on the same data, a generated history of fits, refits with other parameters, splittings, tuning, failing fits, "
        "bootstraps and sensitivity analyses, interleaved with taking, combining, bootstrapping and re-reading inference snapshots. After each step every "
        "snapshot taken so far must report its numbers unchanged, and each combination must equal the one computed by the reference model from "
        "the operands' numbers. Non-trivial: at least one snapshot was re-read after a later operation; distinct by event-log digest.")
ASSUME = ["the inference object a fitted model currently uses shows the bootstrap and sensitivity results requested through that model"]
BIAS = ("max_bias", "psi_max_bias")
CORE = ["thetas", "ses", "all_thetas", "all_ses", "t_stats", "all_t_stats", "pvals", "all_pvals", "scaled_psi", "var_scaling_factors",
        "sensitivity_elements", "treatment_names", "n_rep", "n_obs", "n_thetas"]


def make(rng, v):
    spec = C.make_spec(rng, v)
    heavy = C.HEAVY.get(spec["cls"], 1)
    steps = [["fit", 0]]
    two = heavy < 6 and rng.random() < 0.7
    if two:
        steps.append(["fit", 1])
    steps += [["snap", 0, 0], ["snap", 1 if two else 0, 1]]
    n = rng.randint(5, 12) if heavy < 3 else rng.randint(4, 7)
    fits = 0
    for _ in range(n):
        x = rng.random()
        m = rng.randrange(2) if two else 0
        if x < 0.17:
            if fits > (5 if heavy < 3 else 2):
                continue
            fits += 1
            y = rng.random()
            if y < 0.35 and C.kind(spec) == "base" and "params" in O.caps(spec):
                steps.append(["op", m, O.gen_op(rng, spec, ["params"])])
            elif y < 0.6:
                steps.append(["op", m, O.gen_op(rng, spec, ["set", "draw"])])
            if rng.random() < 0.3:
                steps.append(["failfit", m, rng.random()])
            else:
                steps.append(["op", m, O.gen_fit(rng, spec)])
                steps.append(["snap", m, rng.randrange(3)])
        elif x < 0.3:
            steps.append(["op", m, O.gen_op(rng, spec, ["boot", "sens", "confint", "padj", "contrast"])])
        elif x < 0.42:
            steps.append(["snap", m, rng.randrange(3)])
        elif x < 0.75:
            steps.append([rng.choice(["add", "sub", "mul", "mul", "concat", "selfsub"]), rng.randrange(100), rng.randrange(100),
                          rng.choice([2, -1, 0.5, -2.5, 3, 1, 1.0])])
        elif x < 0.93:
            steps.append([rng.choice(["fboot", "fsens", "fread"]), rng.randrange(100), rng.randrange(10 ** 6)])
        else:
            steps.append(["fcopy", rng.randrange(100)])
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "steps": steps, "same": rng.random() < 0.7,
            "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.6 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 600, 14000), make, [v for v in C.variants() if v[0] != "RD"])


def read(fw, full=True):
    out = S.snap_framework(fw)
    if not full:
        return out
    for name, fn in (("ci", lambda: fw.confint(level=0.9)), ("joint", lambda: fw.confint(joint=True)), ("holm", lambda: fw.p_adjust("holm")[0]),
                     ("rw", lambda: fw.p_adjust()[0])):
        try:
            out[name] = S.freeze(fn())
        except (ValueError, NotImplementedError) as e:
            out[name] = type(e).__name__
    return out


class Pool:
    def __init__(self):
        self.items = []           # (object, frozen reading, owner models it is the live object of)

    def add(self, fw, split=None):
        for it in self.items:
            if it[0] is fw:
                return
        self.items.append([fw, read(fw), split])

    def check(self, touched=(), what="", full=False):
        out = []
        for i, it in enumerate(self.items):
            hot = any(it[0] is t for t in touched)
            now = read(it[0], full or hot)
            if any(it[0] is t for t in touched):
                d = S.diff({k: it[1][k] for k in CORE}, {k: now[k] for k in CORE})
                it[1] = now
            else:
                d = S.diff(it[1] if full else {k: it[1][k] for k in now}, now)
            if d:
                out.append(V("snapshot-changed", f"{what} changed an earlier inference snapshot: {d[0]}"))
        return out


def objs(w):
    """Inference objects currently held by a model and, for composites, its parts."""
    m = w.model
    try:
        fw = m.framework
    except Exception:
        fw = None
    out = [fw] if fw is not None else []
    for _, s in C.submodels(w.spec, m):
        if s is not m and s.framework is not None:
            out.append(s.framework)
    return out


def run(scn, sim):
    spec = scn["spec"]
    ws = [O.World(spec, scn["wseed"], own_split=scn["own"])]
    two = any(s[0] in ("fit", "snap") and s[1] == 1 for s in scn["steps"]) or any(s[0] in ("op", "failfit") and s[1] == 1 for s in scn["steps"])
    if two:
        if scn["same"]:
            w2 = O.World(spec, scn["wseed"], own_split=scn["own"], data=ws[0].data, df=ws[0].df, learners=C.make_learners({**spec, "alpha": 2.0}))
            cl = C.clustered(spec)
            w2.set_smpls(ws[0].model.smpls, ws[0].model.smpls_cluster if cl else None)
        else:
            w2 = O.World(spec, scn["wseed"] + 1)
        ws.append(w2)
    pool, out, reread = Pool(), [], 0
    for st in scn["steps"]:
        kind, touched = st[0], []
        if kind in ("fit", "snap", "op", "failfit"):
            w = ws[st[1] if st[1] < len(ws) else 0]
        if kind == "fit":
            w.fit(sim, O.SEQ)
        elif kind == "snap":
            f = objs(w)
            if f and st[2] == 1 and C.kind(spec) == "base":
                f = [w.model.construct_framework()]
            elif f and st[2] == 2:
                f = f[::-1]
            if f:
                split = (w.model.smpls, w.model.smpls_cluster) if C.clustered(spec) else None
                pool.add(f[0], split)
                if st[2] == 0 and len(f) > 1:
                    pool.add(f[1])
        elif kind == "op":
            if st[2]["op"] in ("boot", "sens"):
                o = objs(w)
                touched = o[:1]
            try:
                O.apply(w, st[2], sim)
            except (ValueError, NotImplementedError):
                if st[2]["op"] in ("fit", "set", "draw"):
                    raise
        elif kind == "failfit":
            at = REC.calls + 1 + int(st[2] * 14)

            def fault(k, learner, n, at=at):
                if n == at:
                    sim.fault("learner_error_in_" + k)
                    raise InjectedError("injected")
            REC.fault = fault
            try:
                w.fit(sim, O.SEQ)
            except InjectedError:
                pass
            REC.fault = None
        elif pool.items and kind in ("add", "sub", "mul", "concat", "selfsub"):
            out += combine(pool, st, sim, ws[0])
        elif pool.items and kind in ("fboot", "fsens", "fread", "fcopy"):
            f = pool.items[st[1] % len(pool.items)][0]
            if kind == "fcopy":
                pool.add(copy.deepcopy(f), pool.items[st[1] % len(pool.items)][2])
            elif kind == "fread":
                _ = f.summary, f.pvals
                if f.sensitivity_params is not None:
                    _ = f.sensitivity_summary
            else:
                touched = [f]
                try:
                    if kind == "fboot":
                        np.random.seed(st[2])
                        f.bootstrap(O.BOOT[st[2] % 3], 5 + st[2] % 9)
                    else:
                        f.sensitivity_analysis(cf_y=0.05 + st[2] % 7 / 50, cf_d=0.04, rho=[1.0, -0.5][st[2] % 2])
                except (ValueError, NotImplementedError):
                    pass
        reread += len(pool.items)
        out += pool.check(touched, kind if kind != "op" else st[2]["op"])
        if out:
            break
    else:
        out += pool.check(what="the history", full=True)
    sim.log([S.digest(i[1]) for i in pool.items])
    sim.probe("snapshots", len(pool.items))
    sim.probe("snapshot_rereads", reread)
    return {"v": out[:3], "nontrivial": reread > len(pool.items) > 0, "sig": f"{spec['cls']}:{sorted({s[0] for s in scn['steps']})}"}


def combine(pool, st, sim, w):
    kind = st[0]
    ia, ib = st[1] % len(pool.items), st[2] % len(pool.items)
    a, ra, split = pool.items[ia]
    b, rb, _ = pool.items[ib]
    k = st[3]
    if kind == "concat" and 2 * ra["n_thetas"] + rb["n_thetas"] > 12:
        return []
    try:
        if kind == "add":
            c = a + b
        elif kind == "sub":
            c = a - b
        elif kind == "selfsub":
            c = (2 * a) - a
        elif kind == "mul":
            c = a * k if st[2] % 2 else k * a
        else:
            c = C.concat([[a, b, a], [a, b], [a, b], [a]][st[2] % 4])
    except (ValueError, NotImplementedError) as e:
        sim.probe("refused_combinations")
        if ra["n_obs"] == rb["n_obs"] and ra["n_rep"] == rb["n_rep"] and ra["n_thetas"] == rb["n_thetas"] and "cluster" not in str(e):
            return [V("refused", f"{kind} of compatible snapshots refused: {e}")]
        return []
    except AssertionError:
        return []
    sim.probe("combinations")
    if any(c is p[0] for p in pool.items):
        return [V("combination", f"{kind}: the combination is the operand itself, so what is done with one changes the other")]
    f = read(c)
    out = [V("combination", f"{kind}: {m}") for m in ref.framework_messages(f)]
    if kind in ("add", "sub", "selfsub"):
        sg = 1 if kind == "add" else -1
        x, y = (ra, rb) if kind != "selfsub" else ({**ra, "all_thetas": 2 * ra["all_thetas"], "scaled_psi": 2 * ra["scaled_psi"]}, ra)
        want = {"all_thetas": x["all_thetas"] + sg * y["all_thetas"], "scaled_psi": x["scaled_psi"] + sg * y["scaled_psi"]}
        if split is None:
            want["all_ses"] = np.sqrt(np.mean(want["scaled_psi"] ** 2, axis=0) / f["n_obs"])
        else:
            cv = w.df[C.roles(w.spec)["cluster_cols"]].to_numpy()
            one = np.ones(f["n_obs"])
            want["all_ses"] = np.array([[ref.cluster_se(want["scaled_psi"][:, j, r], one, split[0][r], split[1][r], cv, None)[0]
                                         for r in range(f["n_rep"])] for j in range(f["n_thetas"])])
        if ra["sensitivity_elements"] is not None and rb["sensitivity_elements"] is not None and kind != "selfsub":
            for n in BIAS:
                want[n] = ra["sensitivity_elements"][n] + rb["sensitivity_elements"][n]
    elif kind == "mul":
        want = {"all_thetas": k * ra["all_thetas"], "scaled_psi": k * ra["scaled_psi"], "all_ses": abs(k) * ra["all_ses"],
                "thetas": k * ra["thetas"], "ses": abs(k) * ra["ses"]}
        if ra["sensitivity_elements"] is not None:
            for n in BIAS:
                want[n] = abs(k) * ra["sensitivity_elements"][n]
            for n, by in (("sigma2", 1), ("nu2", k ** 2)):
                if n in ra["sensitivity_elements"] and n in (f["sensitivity_elements"] or {}):
                    want[n] = by * ra["sensitivity_elements"][n]
    else:
        parts = [[ra, rb, ra], [ra, rb], [ra, rb], [ra]][st[2] % 4]
        want = {n: np.concatenate([p[n] for p in parts], axis=0) for n in ("all_thetas", "all_ses", "thetas", "ses", "var_scaling_factors")}
        want["scaled_psi"] = np.concatenate([p["scaled_psi"] for p in parts], axis=1)
        if all(p["sensitivity_elements"] is not None for p in parts):
            for n in BIAS + ("sigma2", "nu2"):
                if all(n in p["sensitivity_elements"] for p in parts):
                    want[n] = np.concatenate([p["sensitivity_elements"][n] for p in parts], axis=1)
    for n, v in want.items():
        got = f[n] if n not in BIAS + ("sigma2", "nu2") else (f["sensitivity_elements"] or {}).get(n)
        if got is None or not ref.close(got, v):
            out.append(V("combination", f"{kind}: {n} is not the one computed from the operands"))
    if f["boot_t_stat"] is not None:
        out.append(V("combination", f"{kind}: the combination reports bootstrap statistics although none were drawn for it"))
    pool.add(c, split)
    return out[:3]


def shrink(scn):
    for i in range(len(scn["steps"])):
        c = copy.deepcopy(scn)
        del c["steps"][i]
        yield c
    for i, s in enumerate(scn["steps"]):
        if s[0] == "op" and (s[2].get("cfg") or {}).get("mode", "seq") != "seq":
            c = copy.deepcopy(scn)
            c["steps"][i][2]["cfg"] = dict(O.SEQ)
            yield c
    yield from K.shrink_spec(scn)
