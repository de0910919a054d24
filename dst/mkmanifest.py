"""Writes MANIFEST.json from the list of checks that exist (kept as a script so that it stays easy to edit)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
M = "deterministic simulation with fault injection: "
TECH = {
    "C01": M + "recorded learner events of seeded fits under simulated workers, judged against the honesty rules",
    "C02": M + "same session under seeded schedules and simulated backends, compared bitwise with the sequential run",
    "C03": M + "faults at seeded learner calls, source lines, random draws and worker tasks, old/new/none oracle and retry against an undisturbed twin",
    "C04": M + "seeded histories with faults over a pool of snapshots, re-read after every step",
    "C05": M + "seeded histories with failing operations, refinement against a fresh model that only did the last relevant operations",
    "C06": M + "seeded histories with failing operations and read-only workers, every handed-over object compared before/after each step",
    "C07": M + "seeded interleavings of several sharing models at call and thread-switch level, compared with each used alone",
    "C08": M + "seeded generator streams and histories, generator state observed around every operation, bootstrap weights recovered exactly",
    "C09": M + "seeded histories with faults before a final fit, compared bitwise with a fresh object",
    "C10": M + "recorded learner events of seeded tuning runs with failing candidates and simulated workers",
    "C11": M + "seeded resumption from stored predictions with forbidden learners after histories",
    "C12": M + "checkpoint and restore (in process and in another process) at seeded points of histories, compared with a never-restored twin",
    "C13": M + "downloads through a simulated network with injected faults, compared with a reference reader",
    "C14": M + "seeded joint and separate fits under simulated workers compared cell by cell",
    "C15": M + "stored models of seeded fits replayed on their held-out rows, also after later operations and faults",
    "C16": M + "seeded generator streams and sizes, invariants of every drawn splitting",
    "C17": M + "seeded histories of derived analyses with failing learners under simulated workers, before/after and recomputation oracles",
    "C19": M + "misuse injected at seeded points of histories, snapshots before and after, next fit compared with a history without it",
    "C20": M + "seeded histories of role changes with refusals and interrupts, refinement against the data frame and new objects",
    "C21": M + "seeded sessions in which the simulated user rewrites every passed or returned object after each step, compared bitwise with the undisturbed twin",
    "C22": M + "seeded histories under simulated schedules and faults on the same values in two forms of the data frame, compared bitwise",
    "C18": M + "seeded histories with faults under simulated workers, every reported number recomputed by a reference model",
}
NOTE = ("Seeded sampling, not exhaustive: covers the runs listed in the evidence file. Trusts the simulator, the recording learners and the reference "
        "model in /verif/dst; scikit-learn, NumPy and SciPy run for real and are assumed correct.")
EXTRA = {
    "C03": " Interrupts and failing allocations are delivered at Python source lines of the library and inside learner calls, not inside native code.",
    "C07": " Concurrency is limited to data with one treatment, as the statement says.",
    "C12": " The other process is a helper interpreter of the same Python installation.",
    "C13": " The network below urllib.request.urlopen is simulated; pandas and http.client are real.",
}
NA = {
    "N01": "A distributional claim about pure generator functions: no schedule, fault, time or I/O for the simulator to control; it needs statistical tests.",
    "N02": "Pure numerics delegated to the external rdrobust package; no nondeterminism, fault or history to simulate (histories of RDFlex are covered by C01-C03, C09, C18).",
    "N04": "An asymptotic statistical statement, not a safety or liveness property of executions.",
    "N05": "A numerical statement about a pure function of reported numbers; no schedule, fault or history changes it (staleness and purity of sensitivity results are in C04, C05, C17).",
}


def main():
    have = [p for p in TECH if os.path.exists(os.path.join(HERE, "props", p.lower() + ".py"))]
    man = {
        "version": 1,
        "setup_cmd": PY + " -m dst.setup",
        "checks": [{"property": p, "quick_cmd": f"{PY} -m dst.run {p}", "thorough_cmd": f"{PY} -m dst.run {p} --tier thorough",
                    "technique": TECH[p], "level": "exploration", "level_note": NOTE + EXTRA.get(p, "")} for p in have],
        "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]
        + [{"property": p, "reason": "check under construction"} for p in TECH if p not in have],
        "notes": "No hooks in /repo: all seams are public (learners, joblib backends, NumPy generator, urllib, sys.settrace). See DESIGN.md.",
    }
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
