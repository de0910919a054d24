"""Runs one check: plans seeded scenarios, simulates them in worker processes, minimises and reports.

    python -m dst.run C02 [--tier quick|thorough] [--replay FILE] [--count N]

Exit 0: no violation beyond the listed known findings.  Exit 1: ``VIOLATION property=<id> replay=<path>``.
"""
import os
import sys

_ENV = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1",
        "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
if __name__ == "__main__" and any(os.environ.get(k) != v for k, v in _ENV.items() if k != "PYTHONHASHSEED") \
        or (__name__ == "__main__" and "PYTHONHASHSEED" not in os.environ):
    os.environ.update({k: v for k, v in _ENV.items() if k != "PYTHONHASHSEED" or "PYTHONHASHSEED" not in os.environ})
    os.execv(sys.executable, [sys.executable, "-m", "dst.run"] + sys.argv[1:])

import argparse  # noqa: E402
import collections  # noqa: E402
import hashlib  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402
import random  # noqa: E402
import re  # noqa: E402
import signal  # noqa: E402
import subprocess  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
for _p in (VERIF, REPO):
    if _p in sys.path:
        sys.path.remove(_p)
sys.path[:0] = [REPO, VERIF]
sys.dont_write_bytecode = True
os.environ.setdefault("MPLCONFIGDIR", os.path.join(tempfile.gettempdir(), "dst-mpl"))
warnings.filterwarnings("ignore")
WORKERS = int(os.environ.get("DST_WORKERS", "8"))


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def load(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def simulate(mod, scn, forced=None, keep_log=False, cap=90):
    """One execution.  Everything it does is a function of (scn, forced) and the code under test."""
    import numpy as np
    from dst import core
    from dst.learners import REC
    sim = core.Sim(scn["seed"], forced)
    if keep_log:
        sim.log_lines = []
    REC.reset()
    np.random.seed(scn["seed"] % (2 ** 32))
    random.seed(scn["seed"])
    out = {"v": [], "nontrivial": False, "sig": None}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(cap)
    warnings.filterwarnings("ignore")
    try:
        res = mod.run(scn, sim)
        out["v"] = res.get("v", [])
        out["nontrivial"] = bool(res.get("nontrivial", True))
        out["sig"] = res.get("sig")
    except Hang:
        out["v"] = [core.V("no-progress", f"not finished after {cap} s")]
    except core.Violation as e:
        out["v"] = [core.V(e.kind, e.msg)]
        out["nontrivial"] = True
    except BaseException as e:  # noqa: BLE001 - a crash of the simulated system is reported, not swallowed
        tb = traceback.extract_tb(e.__traceback__)
        if type(e).__name__ == "LinAlgError" and os.sep + "rdrobust" + os.sep in "".join(f.filename for f in tb[-6:]):
            sim.probe("data_rejected_by_rdrobust")     # the external package cannot select a bandwidth for these data
        else:
            where = " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-6:]))
            out["v"] = [core.V("unexpected-" + type(e).__name__, f"{e} [{where}]")]
            out["nontrivial"] = True
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        REC.hook = None
        REC.fault = None
    for v in out["v"]:
        sim.log("V", v["kind"])
    out.update(digest=sim.digest(), sched=sim.sched_digest(), n_sched=sim.n_sched, faults=sim.faults, probes=sim.probes,
               sim_time=sim.now, steps=sim.steps, n_events=sim.n_events, choices=sim.choices, learner_calls=REC.calls)
    if keep_log:
        out["log"] = sim.log_lines
    REC.reset()
    return out


_MOD = None


def _init(prop):
    global _MOD
    os.environ.update({k: v for k, v in _ENV.items() if k != "PYTHONHASHSEED"})
    _MOD = load(prop)
    import gc
    gc.collect()
    gc.freeze()               # statsmodels collects garbage in every call; keep that cheap


def _work(args):
    i, scn, forced = args
    t = time.time()
    r = simulate(_MOD, scn, forced)
    r["wall"] = time.time() - t
    if not r["v"]:
        r["n_choices"] = len(r.pop("choices"))
    return i, r


def pool(prop):
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor
    return ProcessPoolExecutor(WORKERS, mp_context=mp.get_context("fork"), initializer=_init, initargs=(prop,))


# ----------------------------------------------------------------- minimising
def minimise(ex, mod, scn, res, budget):
    """Greedy shrink: scenario first, then the recorded choices.  Same violation kind must persist."""
    kind = res["v"][0]["kind"]
    t0 = time.time()
    best, best_res, runs = scn, res, 0
    shrink = getattr(mod, "shrink", None)
    improved = True
    while improved and shrink is not None and time.time() - t0 < budget:
        improved = False
        cands = []
        for c in shrink(best):
            if c != best:
                cands.append(c)
            if len(cands) >= 48:
                break
        futs = [ex.submit(_work, (0, c, None)) for c in cands]
        for c, f in zip(cands, futs):
            if time.time() - t0 > budget:
                f.cancel()
                continue
            _, r = f.result()
            runs += 1
            if not improved and any(v["kind"] == kind for v in r["v"]):
                best, best_res, improved = c, r, True
                for g in futs:
                    g.cancel()
                break
    forced = best_res["choices"]
    if time.time() - t0 < budget and forced:
        cands = [[], forced[: len(forced) // 4], forced[: len(forced) // 2]]
        n = len(forced)
        step = max(1, n // 8)
        for s in range(0, n, step):
            cands.append(forced[:s] + [0] * min(step, n - s) + forced[s + step:])
        cur = forced
        for c in cands:
            if time.time() - t0 > budget:
                break
            _, r = ex.submit(_work, (0, best, c)).result()
            runs += 1
            if any(v["kind"] == kind for v in r["v"]):
                if sum(1 for x in r["choices"] if x) < sum(1 for x in cur if x):
                    cur, best_res = r["choices"], r
                    if not c:
                        break
        forced = cur
    while forced and forced[-1] == 0:
        forced = forced[:-1]
    return best, forced, runs


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def report_replay(prop, path, mod):
    rep = json.load(open(path))
    r = simulate(mod, rep["scenario"], rep.get("choices"), keep_log=True)
    if r["v"]:
        for v in r["v"][:3]:
            print(f"  {v['kind']}: {v['msg']}")
        same = r["digest"] == rep.get("digest")
        print(f"  event log digest {r['digest']} ({'identical to' if same else 'different from'} the recorded run)")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("no violation on replay")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--count", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--digests", help="write the digest of every run to a file (determinism tests)")
    ap.add_argument("--no-stop", action="store_true", help="do not stop at the first violation (development)")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    prop = a.prop.upper()
    t0 = time.time()
    try:
        mod = load(prop)
    except BaseException as e:  # noqa: BLE001 - the tree under test cannot even be imported / set up
        tb = traceback.format_exc().strip().splitlines()
        return fail_early(prop, tier, a.seed, f"{type(e).__name__}: {e}", tb, t0)
    if a.replay:
        return report_replay(prop, a.replay, mod)
    scns = mod.plan(tier, a.seed)
    if a.count:
        scns = scns[: a.count]
    for i, s in enumerate(scns):
        s.setdefault("seed", int(hashlib.sha256(f"{prop}:{a.seed}:{i}".encode()).hexdigest()[:12], 16))
    return explore(prop, mod, scns, tier, a, t0)


def fail_early(prop, tier, seed, msg, tb, t0):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop}-import.json")
    json.dump({"property": prop, "scenario": {"import": True, "seed": 0}, "message": msg, "traceback": tb}, open(path, "w"), indent=1)
    write_evidence(prop, tier, seed, {"evaluations": 1, "distinct_nontrivial": 0, "rule": "import of the library", "samples": [msg]},
                   [], t0, 1)
    print(msg)
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def write_evidence(prop, tier, seed, coverage, assumptions, t0, nviol):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    tmp = path + ".tmp"
    json.dump(ev, open(tmp, "w"), indent=1, default=str)
    os.replace(tmp, path)


def explore(prop, mod, scns, tier, a, t0):
    ex = pool(prop)
    known = known_findings(prop)
    known_hit = collections.Counter()
    agg = {"faults": collections.Counter(), "probes": collections.Counter()}
    digests, scheds, sigs, nontrivial = [], set(), set(), set()
    sim_time = steps = events = calls = 0
    walls = []
    viol = None
    allviol = []
    from concurrent.futures.process import BrokenProcessPool
    futs = [ex.submit(_work, (i, s, None)) for i, s in enumerate(scns)]
    # determinism self-test: a sample of the scenarios is simulated a second time, in whatever process is free
    rng = random.Random(f"det:{prop}:{a.seed}")
    again = sorted(rng.sample(range(len(scns)), min(len(scns), max(4, len(scns) // 25))))
    futs2 = {i: ex.submit(_work, (i, scns[i], None)) for i in again}
    done = 0
    nondet = []
    try:
        for i, f in enumerate(futs):
            _, r = f.result()
            done += 1
            digests.append(r["digest"])
            if r["n_sched"]:
                scheds.add(r["sched"])
            if r["nontrivial"]:
                nontrivial.add(r["digest"])
            if r["sig"]:
                sigs.add(r["sig"])
            agg["faults"].update(r["faults"])
            agg["probes"].update(r["probes"])
            sim_time += r["sim_time"]
            steps += r["steps"]
            events += r["n_events"]
            calls += r["learner_calls"]
            walls.append(r["wall"])
            fresh = []
            for v in r["v"]:
                hit = [k for k in known if k[0].search(f"{v['kind']}: {v['msg']}")]
                if hit:
                    known_hit[hit[0][1]] += 1
                else:
                    fresh.append(v)
            if fresh:
                r["v"] = fresh
                allviol.append((i, r))
                if viol is None:
                    viol = (i, r)
                if not a.no_stop:
                    break
        if viol is None or a.no_stop:
            for i, f in futs2.items():
                _, r = f.result()
                if r["digest"] != digests[i]:
                    nondet.append(i)
    except BrokenProcessPool:
        viol = (done, {"v": [{"kind": "process-death", "msg": "a simulation process died (crash or memory)"}], "choices": [],
                       "digest": "", "faults": {}})
    for f in list(futs) + list(futs2.values()):
        f.cancel()
    if a.digests:
        json.dump(digests, open(a.digests, "w"))
    if viol is None and nondet and getattr(mod, "NONDET_IS_VIOLATION", False):
        r = simulate(mod, scns[nondet[0]])
        r["v"] = [{"kind": "nondeterministic", "msg": f"two executions of scenario {nondet[0]} from the same seeds differ"}]
        viol = (nondet[0], r)
    wall = max(time.time() - t0, 1e-6)
    rc = 0
    coverage = {
        "evaluations": done, "distinct_nontrivial": len(nontrivial), "rule": mod.RULE,
        "samples": [brief(scns[i]) for i in sorted(rng.sample(range(done), min(3, done)))] if done else [],
        "runs_per_hour": round(done / wall * 3600), "seeds_per_hour": round(done / wall * 3600),
        "simulated_time_s": round(sim_time, 1), "simulated_steps": steps, "logged_events": events, "learner_calls": calls,
        "faults_injected": dict(agg["faults"]), "probes": dict(sorted(agg["probes"].items())),
        "distinct_interleavings": len(scheds),
        "interleaving_measure": "distinct sequences of task starts, completions and thread switches (hash of the schedule log)",
        "distinct_signatures": len(sigs), "real_components": mod.REAL, "stubbed_components": mod.STUB,
        "determinism_reruns": len(again) if viol is None else 0, "determinism_mismatches": len(nondet),
        "known_findings_hit": dict(known_hit), "slowest_run_s": round(max(walls), 2) if walls else 0,
    }
    if viol is not None:
        rc = 1
        i, r = viol
        if a.no_stop:
            seen = collections.Counter()
            for j, rr in allviol:
                key = rr["v"][0]["kind"], rr["v"][0]["msg"].split("[")[-1][:80]
                seen[key] += 1
                if seen[key] <= 2:
                    print(f"[{j}] {brief(scns[j]['spec'] if 'spec' in scns[j] else scns[j])[:150]} :: {rr['v'][0]['kind']}: {rr['v'][0]['msg'][:330]}")
            print(len(allviol), "violating runs")
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        scn, forced, runs = scns[i], r.get("choices", []), 0
        if r["v"][0]["kind"] not in ("process-death", "no-progress", "nondeterministic") and not a.no_stop:
            try:
                scn, forced, runs = minimise(ex, mod, scns[i], r, 40 if tier == "quick" else 240)
            except BaseException as e:  # noqa: BLE001
                print(f"minimiser stopped: {type(e).__name__}: {e}")
        rr = simulate(mod, scn, forced, keep_log=True) if r["v"][0]["kind"] != "process-death" else r
        if not rr["v"]:
            scn, forced = scns[i], r.get("choices", [])
            rr = simulate(mod, scn, forced, keep_log=True)
        shown = rr["v"] or r["v"]
        rep = {"property": prop, "scenario": scn, "choices": forced, "digest": rr["digest"], "violations": shown,
               "faults": rr["faults"], "minimiser_runs": runs, "original_scenario": scns[i], "log_tail": rr.get("log", [])[-60:]}
        tag = hashlib.sha256(json.dumps([scn, forced], sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", f"{prop}-{tag}.json")
        json.dump(rep, open(path, "w"), indent=1, default=str)
        for v in shown[:3]:
            print(f"  {v['kind']}: {v['msg']}")
        try:
            p = subprocess.run([sys.executable, "-m", "dst.run", prop, "--replay", path], cwd=VERIF, capture_output=True, text=True,
                               timeout=200)
            ok = p.returncode == 1 and "identical to" in p.stdout
        except subprocess.TimeoutExpired:
            ok = False
        print(f"  replayed in a fresh process: {'reproduced exactly' if ok else 'NOT reproduced exactly'}")
        coverage["replay_reproduced"] = ok
        print(f"VIOLATION property={prop} replay={path}")
    for what, n in known_hit.items():
        print(f"KNOWN-FINDING: property={prop} {what}")
    write_evidence(prop, tier, a.seed, coverage, getattr(mod, "ASSUME", []), t0, 1 if viol is not None else 0)
    print(f"{prop} {tier} seed={a.seed}: {done} runs, {len(nontrivial)} distinct non-trivial, {len(scheds)} interleavings, "
          f"faults {dict(agg['faults'])}, {wall:.1f} s, determinism mismatches {len(nondet)}")
    sys.stdout.flush()
    for p in list((getattr(ex, "_processes", None) or {}).values()):
        try:
            p.kill()
        except Exception:
            pass
    ex.shutdown(wait=False, cancel_futures=True)
    return rc


def brief(scn):
    s = json.dumps(scn, sort_keys=True, default=str)
    return s if len(s) < 900 else s[:900] + "..."


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
