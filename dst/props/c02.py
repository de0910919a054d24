"""C02 results do not depend on how the work is executed: the same history under a simulated schedule and sequentially."""
import numpy as np

from .. import catalog as C, ops as O, snap as S
from ..core import V
from ..learners import REC
from . import common as K

PROP = "C02"
REAL, STUB = K.REAL, K.STUB
NONDET_IS_VIOLATION = True
RULE = ("Each run executes one generated history (fits, refits, tuning, bootstraps, splittings, analyses) twice: sequentially in the caller, and under "
        "a seeded schedule of simulated workers (shared memory, isolated by pickling, or threads interleaved at source lines) with stalls, "
        "batching, read-only arguments and other storing options; every answer and everything the object reports must be bit-identical. "
        "Non-trivial: at least one task was scheduled by the simulator; distinct by event-log digest.")
ASSUME = ["learners are deterministic functions of their training data, parameters and the predicted rows"]
KINDS = ["fit", "boot", "sens", "draw", "set", "params", "tune", "confint", "padj", "summary", "eval", "bench", "contrast", "gate", "cate", "gapo", "capo"]


def make(rng, v):
    spec = C.make_spec(rng, v)
    heavy = C.HEAVY.get(spec["cls"], 1)
    n = rng.randint(1, 5) if heavy < 3 else rng.randint(1, 3)
    ops = [O.gen_fit(rng, spec)] + [O.gen_op(rng, spec, KINDS) for _ in range(n)]
    if rng.random() < 0.4:
        pre = O.gen_op(rng, spec, ["params", "tune", "set", "draw"] if heavy < 6 else ["set", "draw"])
        ops = [pre] + ops
    if not any(o["op"] == "fit" for o in ops[-2:]) and rng.random() < 0.5:
        ops.append(O.gen_fit(rng, spec))
    force = [o for o in ops if o["op"] in ("fit", "tune", "bench")]
    for o in force:
        if all((q.get("cfg") or {}).get("mode") == "seq" for q in force):
            o["cfg"] = O.gen_cfg(rng, spec, modes=("shared", "isolated", "threads") if o["op"] == "fit" else ("shared", "isolated"))
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "ops": ops,
            "own": {"seed": rng.randrange(10 ** 6), "uneven": rng.random() < 0.3} if rng.random() < 0.5 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 600, 12000), make, [v for v in C.variants() if v[0] != "RD"])


def play(scn, sim, ref):
    spec = scn["spec"]
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    ans, stored = [], (True, True)
    for op in scn["ops"]:
        op = dict(op)
        if op["op"] == "fit":
            stored = (op["sp"], op["sm"])
            if ref:
                op.update(sp=True, sm=True)
        if ref:
            op["cfg"] = dict(O.SEQ)
        if not stored[0] and (op["op"] == "eval" or spec["cls"] == "PLR" and op["op"] in ("cate", "gate")):    # need the predictions
            ans.append(None)
            continue
        if op["op"] in O.READ_OPS and op["op"] in ("padj", "confint"):
            try:
                ans.append(O.apply(w, op, sim))
            except ValueError as e:
                ans.append("refused: " + type(e).__name__)
            continue
        try:
            ans.append(O.apply(w, op, sim))
        except (ValueError, NotImplementedError, TypeError) as e:
            if op["op"] in ("fit", "tune"):
                raise
            ans.append(f"refused: {type(e).__name__}")
    return w, ans, stored


def run(scn, sim):
    spec = scn["spec"]
    w1, a1, _ = play(scn, sim, True)
    st1 = np.random.get_state()
    REC.events.clear()
    w2, a2, stored = play(scn, sim, False)
    st2 = np.random.get_state()
    out = []
    for op, x, y in zip(scn["ops"], a1, a2):
        d = S.diff(x, y)
        if d:
            out.append(V("answer", f"{op['op']} answers differently: {d[0]}"))
    ignore = set()
    if not stored[0]:
        ignore |= {"predictions", "nuisance_targets"}
    if not stored[1]:
        ignore |= {"models"}
    d = S.diff(S.snap(spec, w1.model), S.snap(spec, w2.model), ignore=ignore)
    if d:
        out.append(V("state", "; ".join(d[:3])))
    d = S.diff(O.inference(spec, w1.model), O.inference(spec, w2.model))
    if d:
        out.append(V("inference", "; ".join(d[:3])))
    if not S.same_array(st1[1], st2[1]) or st1[2:] != st2[2:]:
        out.append(V("generator", "the global random generator ends in another state"))
    sim.log(S.digest(S.snap(spec, w2.model, models=False)))
    return {"v": out, "nontrivial": sim.n_sched > 0, "sig": f"{spec['cls']}{sorted(spec['opts'].items())}"}


shrink = K.shrink_ops
