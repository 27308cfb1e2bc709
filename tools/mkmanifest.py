"""Writes MANIFEST.json (kept in git; run by hand when the checks change)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "drv"))
import check  # noqa: E402

TECH = {
    "modelcheck": ("TLA+ (TLC): exhaustive exploration of the logical-model specification; its behaviours and seeded random histories are replayed on the real code and every recorded call is judged by the trace specification",
                   "The design is explored exhaustively within the constants of ModelMC; the code is judged on every replayed behaviour and random history (exact arithmetic). Trusts the projection in drv/modeldrv.py and TLC; histories outside the explored ones are not decided."),
    "annealcheck": ("TLA+ (TLC): the annealer, its temperature schedule and its random streams are specified and explored exhaustively; every recorded run of the real solver is replayed through the trace specification, which accepts only behaviours of the specification",
                    "The design is explored exhaustively within the constants of AnnealMC/ReproMC; the code is judged on every recorded run (seeded problems, schedules, initial states, seeds). Energies are exact integers; acceptance probabilities and temperatures are compared with a stated tolerance."),
    "solvecheck": ("TLA+ (TLC): what a solver owes its caller and the protocol of the remote solver are specified and explored exhaustively (faulty designs are refuted); behaviours of the specification and seeded random calls are replayed on the real solvers and every recorded call is judged by the trace specification",
                   "The design is explored exhaustively within the constants of SolveMC; the code is judged on every replayed call. The remote annealer is a loopback server and the quantum processor a stand-in below the real embedding; dimod, neal and requests are trusted."),
    "nppcheck": ("TLA+ (TLC): optimality of a partition is specified and the dynamic programme is explored exhaustively on small lists; recorded answers of the real reference solver are judged by the trace specification, which enumerates the subsets",
                 "The design is explored exhaustively within the constants of NppMC; the code is judged on every recorded list (all small lists plus seeded random ones)."),
    "streamcheck": ("TLA+ (TLC): windows, hand-over of state and failing callbacks are specified and explored exhaustively over all arrival orders (faulty designs are refuted); streams of the specification and seeded random streams run through the real pipelines and every callback and output recorded is judged by the trace specification",
                    "The design is explored exhaustively within the constants of StreamMC; the code is judged on every recorded pipeline (Beam's DirectRunner, which is trusted to deliver windows)."),
    "iocheck": ("TLA+ (TLC): reading, numbering and time-stamping of a stream are specified and explored exhaustively over small files (faulty readers are refuted); those files and seeded random ones run through the real pipelines and everything recorded is judged by the trace specification",
                "The design is explored exhaustively within the constants of IoMC; the code is judged on every recorded pipeline. Pub/Sub is a stand-in; Beam's text source and sink are trusted."),
}
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in check.FAMILY:
        na.append({"property": i, "reason": "check under construction"})
        continue
    t, n = TECH[check.FAMILY[i]]
    checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough", "technique": t,
                   "level": "model_checking", "level_note": n})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed: the public API exposes the abstract state."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
