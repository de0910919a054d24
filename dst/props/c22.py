"""C22 row labels, column order and storage types of frames have no influence: the same history on the same data in another form."""
import numpy as np

from .. import catalog as C, ops as O, snap as S
from ..core import V
from . import common as K

PROP = "C22"
REAL, STUB = K.REAL, K.STUB
RULE = ("Each run executes one generated history (with failing operations, under simulated schedules) twice on the same values: once on a frame with labels 0..n-1, plain "
        "column order and integer codes, once in another form - shifted, permuted, filtered, repeated, textual, date or two-level row labels, shuffled and further columns, "
        "codes stored as floats, short integers or truth values, analysis frames with labels of their own. Every answer, everything reported and the state of the generator must be "
        "bit-identical. Non-trivial: the form differs in at least one respect; distinct by event-log digest.")
ASSUME = ["covariates are named explicitly, so further columns have no role", "learners are functions of the values they are given"]
KINDS = ["fit", "boot", "sens", "draw", "set", "params", "tune", "confint", "padj", "summary", "eval", "bench", "contrast", "gate", "gate", "cate", "cate", "gapo", "capo",
         "effci", "effci", "tree", "tree"]


EFF = [v for v in C.variants() if "effci" in O.caps({"cls": v[0], "opts": v[1], "n_rep": 1, "n_folds": 2})]


def make(rng, v):
    spec = {**C.make_spec(rng, v, n_rep=1 if v in EFF and rng.random() < 0.7 else None), "f32": False}
    heavy = C.HEAVY.get(spec["cls"], 1)
    kinds = [k for k in KINDS if heavy < 4 or k not in ("tune", "bench")]
    if "effci" in O.caps(spec) and rng.random() < 0.6:
        kinds = [k for k in kinds if k in ("gate", "cate", "gapo", "capo", "effci", "tree", "bench", "contrast", "set")]
    ops = [O.gen_fit(rng, spec)] + [O.gen_op(rng, spec, kinds) for _ in range(rng.randint(1, 4) if heavy < 3 else rng.randint(1, 2))]
    for op in ops:
        op["fault"] = None
        if (op.get("cfg") or {}).get("mode", "seq") == "seq" and op["op"] in ("fit", "tune", "bench", "boot", "sens") and rng.random() < 0.08:
            op["fault"] = K.gen_fault(rng, op)
    return {"spec": spec, "wseed": rng.randrange(10 ** 6), "ops": ops, "form": rng.randrange(10 ** 6),
            "own": {"seed": rng.randrange(10 ** 6)} if "set" in O.caps(spec) and rng.random() < 0.3 else None}


def plan(tier, seed):
    return K.plan(PROP, tier, seed, K.count(tier, 520, 12000), make, C.variants() + EFF)


def play(scn, sim, form):
    spec = {**scn["spec"], "form": form}
    w = O.World(spec, scn["wseed"], own_split=scn["own"])
    ans = []
    for op in scn["ops"]:
        w.answer = None
        st = K.faulty(w, op, op["fault"], sim)
        ans.append([op["op"], st, w.answer])
    return w, ans


def run(scn, sim):
    spec, out = scn["spec"], []
    w1, a1 = play(scn, sim, None)
    st1 = np.random.get_state()
    w2, a2 = play(scn, sim, scn["form"])
    for x, y in zip(a1, a2):
        d = S.diff(S.freeze(x), S.freeze(y))
        if d:
            out.append(V("answer", f"{x[0]} answers differently for the same data in another form: {d[0]}"))
            break
    d = S.diff(S.snap(spec, w1.model), S.snap(spec, w2.model)) or S.diff(O.inference(spec, w1.model), O.inference(spec, w2.model))
    if d:
        out.append(V("state", "the same data in another form give other results: " + "; ".join(d[:3])))
    st2 = np.random.get_state()
    if not S.same_array(st1[1], st2[1]) or st1[2:] != st2[2:]:
        out.append(V("generator", "the global random generator ends in another state"))
    df = w2.df
    same = list(df.columns) == list(w1.df.columns) and df.index.equals(w1.df.index) and (df.dtypes == w1.df.dtypes).all()
    sim.probe("form " + ("default" if same else "labels" if not df.index.equals(w1.df.index) else "columns or types"))
    sim.log(S.digest(S.snap(spec, w2.model, models=False)))
    return {"v": out[:2], "nontrivial": not same, "sig": f"{spec['cls']}{sorted(spec['opts'].items())}"}


shrink = K.shrink_ops
