"""Shared pieces of the checks."""
import contextlib
import copy
import random

from .. import backend, catalog as C, ops as O, trace
from ..core import FAULT_EXC, InjectedError, InjectedInterrupt, InjectedOOM
from ..learners import REC

REAL = ["doubleml (all of the code under test)", "scikit-learn model selection, cloning and cross-validation", "joblib.Parallel dispatch and retrieval",
        "NumPy, pandas, SciPy, statsmodels"]
STUB = ["joblib worker pool (simulated workers in virtual time)", "learners (deterministic recording learners)"]


def count(tier, quick, thorough):
    return quick if tier == "quick" else thorough


def plan(prop, tier, seed, n, make, variants):
    """n scenarios, cycling through a shuffled list of variants so that every variant is met early."""
    out = []
    order, turn = [], 0
    for i in range(n):
        rng = random.Random(f"{prop}:{tier}:{seed}:{i}")
        if not order:
            order = list(range(len(variants)))
            rng.shuffle(order)
            turn += 1
        k = order.pop()
        rng.turn = turn + 2 * k         # outcome kinds are cycled through for each variant
        v = variants[k]
        scn = make(rng, v)
        if scn is not None:
            out.append(scn)
    return out


INJECTED = (InjectedError, InjectedInterrupt, InjectedOOM, backend.WORKER_DEATH)


def gen_fault(rng, op):
    """A fault for one operation: at the n-th learner call, at the n-th executed library line, or a dying worker."""
    x = rng.random()
    mode = (op.get("cfg") or {}).get("mode", "seq")
    learner_op = op["op"] in ("fit", "tune", "bench")
    if learner_op and mode == "isolated" and x < 0.3:
        return {"at": "death", "n": rng.choice([1, 2, 4])}
    if learner_op and (x < 0.6 or mode == "threads"):
        return {"at": "call", "n": rng.choice([1, 2, 3, 5, 8, 13, 21, 34]), "kind": rng.choice(["learner_error", "interrupt", "oom"])}
    return {"at": "line", "n": int(2 ** rng.uniform(2, 11 if learner_op else 8)), "kind": rng.choice(["interrupt", "oom"])}


def faulty(w, op, fault, sim):
    """Apply the operation with a fault (None: without).  Returns 'ok', 'refused' or 'failed'."""
    ctx, cnt = contextlib.nullcontext(), None
    if fault is not None:
        if fault["at"] == "death":
            op = {**op, "cfg": {**op["cfg"], "death": fault["n"]}}
        else:
            exc = FAULT_EXC[fault["kind"]]("injected")
        if fault["at"] == "call":
            at = REC.calls + fault["n"]

            def hit(kind, learner, n):
                if n == at:
                    sim.fault(fault["kind"] + "_in_" + kind)
                    raise exc
            REC.fault = hit
        elif fault["at"] == "line":
            cnt = trace.Counter(fault["n"], exc)
            ctx = trace.lines(cnt)
    try:
        w.answer = None
        with ctx:
            w.answer = O.apply(w, op, sim)
        return "ok"
    except INJECTED:
        if cnt is not None and cnt.fired:
            sim.fault(fault["kind"] + "_at_line")
        return "failed"
    except (ValueError, NotImplementedError) as e:
        if op["op"] == "tune" and fault is not None and "fits failed" in str(e):
            return "failed"
        if op["op"] in ("fit", "tune", "set", "draw", "params"):
            raise
        return "refused"
    except Exception:
        # an analysis of an object without results is refused, with whatever error
        if op["op"] in ("fit", "tune", "set", "draw", "params") or w.model.framework is not None:
            raise
        return "refused"
    finally:
        REC.fault = None


def guarded(fn, fault, sim):
    """Run fn with a fault at a learner call or library line.  Returns 'ok' or 'failed'."""
    ctx, cnt = contextlib.nullcontext(), None
    if fault is not None:
        exc = FAULT_EXC[fault["kind"]]("injected")
        if fault["at"] == "call":
            at = REC.calls + fault["n"]

            def hit(kind, learner, n):
                if n == at:
                    sim.fault(fault["kind"] + "_in_" + kind)
                    raise exc
            REC.fault = hit
        else:
            cnt = trace.Counter(fault["n"], exc)
            ctx = trace.lines(cnt)
    try:
        with ctx:
            fn()
        return "ok"
    except INJECTED:
        if cnt is not None and cnt.fired:
            sim.fault(fault["kind"] + "_at_line")
        return "failed"
    except ValueError as e:
        if fault is not None and "fits failed" in str(e):
            return "failed"
        raise
    finally:
        REC.fault = None


def shrink_ops(scn, key="ops"):
    """Drop operations one at a time, then simplify execution modes, repetitions and sizes."""
    ops = scn.get(key, [])
    for i in range(len(ops)):
        c = copy.deepcopy(scn)
        del c[key][i]
        yield c
    for i, op in enumerate(ops):
        if isinstance(op, dict) and op.get("fault"):
            c = copy.deepcopy(scn)
            c[key][i]["fault"] = None
            yield c
    for i, op in enumerate(ops):
        if isinstance(op, dict) and (op.get("cfg") or {}).get("mode", "seq") != "seq":
            c = copy.deepcopy(scn)
            c[key][i]["cfg"] = dict(O.SEQ)
            yield c
    yield from shrink_spec(scn)


def shrink_spec(scn):
    sp = scn.get("spec")
    if not sp:
        return
    for k, v in (("n_rep", 1), ("n_folds", 2), ("ytype", "cont"), ("f32", False), ("rare", False)):
        if (sp.get(k) or v) != v and (k != "n_rep" or sp["opts"].get("weights") != "dict"):
            c = copy.deepcopy(scn)
            c["spec"][k] = v
            yield c
    if (scn.get("cfg") or {}).get("mode", "seq") != "seq":
        c = copy.deepcopy(scn)
        c["cfg"] = dict(O.SEQ)
        yield c
