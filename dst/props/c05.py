"""C05 reported inference describes the latest fit: histories checked step by step against a fresh model that only did what counts."""
import numpy as np

from .. import catalog as C, ops as O, snap as S, status
from ..core import V
from . import common as K

PROP = "C05"
REAL, STUB = K.REAL + ["rdrobust"], K.STUB
RULE = ("Each run: a generated history of fits and refits (other options, supplied predictions), parameters, tuning, bootstraps with other methods and sizes, "
        "sensitivity analyses, new splittings and reads, some of them failing. After each step the bootstrap prerequisite and the absence of "
        "outdated bootstrap/sensitivity results are checked; at seeded points everything reported is compared bitwise with a new object that only did: "
        "splitting and parameters of the latest successful fit, that fit, the latest bootstrap and sensitivity analysis since. "
        "Non-trivial: compared after at least two fits; distinct by event-log digest.")
ASSUME = ["after a failed fit nothing is claimed here until the next successful one (C03 does)",
          "after draw_sample_splitting on a fitted model the results of the latest fit may stay reported"]
KINDS = ["fit", "fit", "boot", "boot", "sens", "sens", "draw", "set", "params", "tune", "confint", "padj", "summary", "eval", "bench", "contrast", "gate",
         "cate", "gapo", "capo", "tree"]


def make(rng, v):
    spec = C.make_spec(rng, v)
    heavy = C.HEAVY.get(spec["cls"], 1)
    c = O.caps(spec)
    kinds = [k for k in KINDS if k in c and not (heavy > 3 and k in ("tune", "bench"))]
    n = rng.randint(3, 9) if heavy < 3 else rng.randint(2, 5)
    ops, fits = [], 0
    if rng.random() < 0.1 and "set" in c:
        ops.append(O.gen_op(rng, spec, ["set"]))
    ops.append(O.gen_fit(rng, spec))
    while len(ops) < n:
        k = rng.choice(kinds)
        if k == "fit":
            fits += 1
            if fits > (3 if heavy < 3 else 2):
                continue
        op = O.gen_op(rng, spec, [k])
        ops.append(op)
        if k in ("set", "draw") and rng.random() < 0.7:
            ops.append(O.gen_fit(rng, spec))
    for op in ops:
        if op["op"] == "fit" and "ext" in c and rng.random() < 0.2:
            op["extsel"] = rng.randrange(1000)
        p = 0.12 if op["op"] == "fit" else 0.2
        op["fault"] = K.gen_fault(rng, op) if rng.random() < p and op["op"] not in ("set", "draw", "params") else None
        op["check"] = rng.random() < 0.2
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "ops": ops, "own": {"seed": rng.randrange(10 ** 6)} if rng.random() < 0.4 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 540, 12000), make, C.variants())


def refused(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def cheap(w, st):
    """What must hold after every step."""
    m, spec, out = w.model, w.spec, []
    if C.kind(spec) == "RD":
        return out
    if not st["boot"]:
        if not refused(lambda: m.confint(joint=True)):
            out.append("a joint confidence interval is given although no bootstrap was run since the latest fit")
        if hasattr(type(m), "p_adjust") and not refused(lambda: m.p_adjust("romano-wolf")):
            out.append("bootstrap-based p-values are given although no bootstrap was run since the latest fit")
        if m.framework is not None and m.boot_t_stat is not None:
            out.append("bootstrap statistics of an earlier fit are reported")
    if not st["sens"] and m.framework is not None and m.framework.sensitivity_params is not None:
        out.append("sensitivity results of an earlier fit are reported")
    return out


def run(scn, sim):
    spec = scn["spec"]
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    st = {"state": "unfitted", "boot": None, "sens": None, "maybe": []}
    out, fits = [], 0
    for op in scn["ops"]:
        before = S.snap(spec, w.model) if st["state"] == "fitted" and op["op"] in ("draw", "confint", "padj", "summary") else None
        r = K.faulty(w, op, op.get("fault"), sim)
        sim.log(op["op"], r)
        if op["op"] == "fit":
            fits += r == "ok"
            st = {"state": "fitted" if r == "ok" else "broken", "boot": None, "sens": None, "maybe": []}
            if r != "ok":
                st["boot"] = st["sens"] = "unknown"
        elif op["op"] == "set":
            st = {"state": "unfitted", "boot": None, "sens": None, "maybe": []}
        elif op["op"] == "draw" and st["state"] != "unfitted":
            if st["state"] == "fitted":
                now = S.snap(spec, w.model)
                if S.diff(before["framework"], now["framework"]) and now["framework"] is not None:
                    out.append("drawing a splitting changed the reported inference")
            st["state"] = "broken"
            st["boot"] = st["sens"] = "unknown"
        elif op["op"] in ("boot", "sens") and st["state"] == "fitted":
            if r == "ok":
                st[op["op"]] = op
            elif r == "failed":
                st["maybe"].append(op["op"])
                st[op["op"]] = st[op["op"]] or "unknown"
        out += [m + f" (after {op['op']})" for m in cheap(w, st)]
        if st["state"] == "unfitted" and not out:
            out += nothing(w, op["op"])
        if not out and op.get("check") and st["state"] == "fitted":
            out += compare(w, st, sim)
        if out:
            break
    if not out and st["state"] == "fitted":
        out += compare(w, st, sim)
    return {"v": [V("stale", m) for m in out[:2]], "nontrivial": fits > 1 and sim.probes.get("comparisons", 0) > 0,
            "sig": f"{spec['cls']}:{[o['op'] for o in scn['ops']]}"}


def nothing(w, what):
    """Before the first fit and after a new splitting was set no results are reported."""
    m, spec = w.model, w.spec
    if C.kind(spec) == "RD":
        return []
    s = S.snap(spec, m)
    out = [f"{a} is reported although there is no fit for the current splitting (after {what})"
           for a in ("coef", "se", "all_coef", "all_se", "t_stat", "pval", "boot_t_stat", "predictions", "psi", "framework")
           if a in s and not status._null(s[a])]
    for k, v in O.inference(spec, m).items():
        if not isinstance(v, str) and not status._empty(v):
            out.append(f"{k} is answered although there is no fit for the current splitting (after {what})")
    return out


def compare(w, st, sim):
    spec = w.spec
    sim.probe("comparisons")
    f = O.refit(w, sim)
    for k in ("boot", "sens"):
        if isinstance(st[k], dict):
            O.apply(f, st[k], sim)
    ign = ["params"]
    if "boot" in st["maybe"] or "sens" in st["maybe"]:
        # an analysis failed half-way: whether its results are the previous ones or none is C03's question
        ign += ["boot_t_stat", "boot_method", "n_rep_boot", "sensitivity_params"]
    d = S.diff(S.snap(spec, f.model), S.snap(spec, w.model), ignore=ign)
    if not d and not st["maybe"]:
        d = S.diff(O.inference(spec, f.model), O.inference(spec, w.model))
    sim.log(S.digest(S.snap(spec, w.model)))
    return [f"not what the latest fit gives: {m}" for m in d[:2]]


shrink = K.shrink_ops
