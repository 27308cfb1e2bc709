"""C27: reading, numbering, time-stamping and writing against Io.tla."""
import contextlib
import glob
import io
import json
import multiprocessing as mp
import os
import random
import shutil
import warnings

import common
import iocb
from annealcheck import judge_bad, mc, with_trace

LINES = ["0", "7", "00", "007", "10", "42", "99999", "9223372036854775807", "", " ", " 7", "7 ", "-7", "+7", "7.0", "1e3", "0x10", "7a", "a7", "7,8", "7 8", "#7", "\t7", "7\t", "\u0661\u0662",
         "\u00b2", "\uff17", "1_000", "nan", "True", "'7'", "--", ".", "9007199254740993", "00000000000000000000000000000005"]
VALUES = [0, 1, -3, 2.5, 1e-3, True, False, None, "", "x", "7", "\u7d50\u679c", "a\"b\\c", "a\nb", [], [1, [2, "z"]], {}, {"k": 1, "j": [1, {"q": None}]}, {"\u00e9": "\u00fc"}, 12345678901234567890, [0.1, 0.2], 3.141592653589793, 1e-9, 0.30000000000000004, 123456.789012345, -0.5, 1e300, -10 ** 18, "\u2028", "0", "null", [[[]]], {"a": {"b": {"c": []}}}, {"1": 1, "": None}, "\U0001f600", "x" * 500, list(range(60)), [None, True], "\u0000"]
OUTS = ["two\nlines", "a\n\nb\nc", "%s {} {0}", "\ttab", "", "a", "a", " lead", "trail ", "\u7d50\u679c \u00fc", "x" * 300, "{\"k\": 1}", "1", "[2020] y"]


def gen_plan(seed, big):
    r = random.Random(seed)
    kind = r.choice(["number", "number", "json", "text"])
    n = r.choice([0, 1, 2, 3, 6, 12, 25] if not big else [0, 3, 12, 40, 120, 400])
    if big == "huge":
        n = r.choice([1100, 1500, 2600, 5000])
    if kind == "number":
        q = r.random()
        lines = [r.choice(LINES) if r.random() < q else str(r.randrange(10 ** r.choice([1, 2, 6, 12]))) for _ in range(n)]
        vals = [""] * n
    elif kind == "json":
        vs = [r.choice(VALUES) for _ in range(n)]
        lines = [(" " if r.random() < 0.2 else "") + json.dumps(v, ensure_ascii=r.random() < 0.5, separators=r.choice([(",", ":"), (", ", ": ")])) + (" " if r.random() < 0.2 else "") for v in vs]
        vals = [json.dumps(v, sort_keys=True) for v in vs]
    else:
        lines = [r.choice(LINES) for _ in range(n)]
        vals = [json.dumps(x) for x in lines]
    src = r.choice(["text", "text", "text", "topic", "subscription"])
    if src != "text" and kind == "number":  # neither is a number (a line feed at the end of a message is not judged)
        lines = [r.choice(["7\n8", "\n7", "7\r", "7\x0b", "a\n7", "7\n\n", "12\n34\n", "\n", "7\u2028"]) if r.random() < 0.15 else x for x in lines]
    if src != "text" and kind != "number":  # a message may have more than one line
        for k in range(n):
            if r.random() < 0.1:
                v = json.dumps([k, {"a": "b"}], indent=1)
                lines[k], vals[k] = v, json.dumps([k, {"a": "b"}] if kind == "json" else v, sort_keys=True)
    reassign = r.choice([True, True, False, None])
    times = [float(r.randrange(40)) / 2 if r.random() < 0.9 else r.choice([0.001, 7.25, 19.999, 3.3]) for _ in range(n)]
    return {"kind": kind, "lines": lines, "vals": vals, "src": src, "reassign": reassign, "times": times, "sink": r.choice(["text", "stdout", "pubsub"]), "final": r.random() < 0.7,
            "outs": [r.choice(OUTS) for _ in range(r.randint(1, 8))], "size": r.choice([1, 2, 5, 100000, 100000, 100000]) if big != "huge" else 100000, "alg": r.choice(["Delta", "Delta", "Window", "Incremental"]), "seed": seed,
            "project": r.choice(["p", "my-project"]), "name": r.choice(["t", "numbers"])}


def spec_plan(lines, k):
    ls = ["".join(x) for x in lines]
    return {"kind": "number", "lines": ls, "vals": [""] * len(ls), "src": ["text", "text", "topic", "subscription"][k % 4], "reassign": [True, None, False][k % 3], "times": [float((i * 7) % 3) for i in range(len(ls))],
            "sink": ["text", "stdout", "pubsub"][k % 3], "final": k % 2 == 0, "outs": ["o"], "size": 100000, "alg": "Delta", "seed": f"spec/{k}", "project": "p", "name": "t"}


def execute(tid, plan):
    common.setup_env()
    import apache_beam as beam

    iocb.patch()
    import sawatabi

    iocb.patch_module()
    IO = sawatabi.algorithm.IO
    work = common.scratch()
    iocb.CTX.clear()
    iocb.CTX.update(lines=[x.encode("utf-8") for x in plan["lines"]], outs=plan["outs"], times=plan["times"], k=0, source=[], sink=[], sent=[], elems=[], produced=[], kind=plan["kind"])
    clean, exc = True, ""
    written = []
    try:
        suffix = {"number": "_as_number", "json": "_as_json", "text": ""}[plan["kind"]]
        if plan["src"] == "text":
            path = os.path.join(work, "in.txt")
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write("\n".join(plan["lines"]) + ("\n" if plan["lines"] and (plan["final"] or not plan["lines"][-1]) else ""))
            wantsource, source = "", ""
            inp = getattr(IO, "read_from_text" + suffix)(path=path)
        else:
            wantsource = f"projects/{plan['project']}/{plan['src']}s/{plan['name']}"
            inp = getattr(IO, "read_from_pubsub" + suffix)(project=plan["project"], **{plan["src"]: plan["name"]})
        # text has no time of its own: the n-th element is given one
        inp = inp | "own time" >> beam.ParDo(iocb.OwnTime())
        opt = {"Delta": {"window.size": plan["size"]}, "Window": {"window.size": plan["size"], "window.period": plan["size"]}, "Incremental": {"incremental.size": plan["size"]}}[plan["alg"]]
        if plan["reassign"] is not None:
            opt["input.reassign_timestamp"] = plan["reassign"]
        out = os.path.join(work, "out")
        wantsink = "" if plan["sink"] != "pubsub" else f"projects/{plan['project']}/topics/out-{plan['name']}"
        ofn = {"text": lambda: IO.write_to_text(path=out), "stdout": IO.write_to_stdout, "pubsub": lambda: IO.write_to_pubsub(project=plan["project"], topic=f"out-{plan['name']}")}[plan["sink"]]()
        cap = io.StringIO()
        with warnings.catch_warnings(), contextlib.redirect_stdout(cap):
            warnings.simplefilter("ignore")
            p = getattr(sawatabi.algorithm, plan["alg"]).create_pipeline(opt, input_fn=inp, map_fn=iocb.map_fn, solve_fn=iocb.solve_fn, unmap_fn=iocb.unmap_fn, output_fn=beam.ParDo(iocb.Tap()) | ofn)
            p.run().wait_until_finish()
        if plan["sink"] == "text":
            for f in sorted(glob.glob(glob.escape(out) + "*")):
                with open(f, encoding="utf-8", newline="") as g:
                    t = g.read()
                written += t.split("\n")[:-1] if t.endswith("\n") else t.split("\n") if t else []
        elif plan["sink"] == "stdout":
            written = cap.getvalue().split("\n")[:-1]
        else:
            written = [x.decode("utf-8") for x in iocb.CTX["sent"]]
    except Exception as e:  # noqa: BLE001
        clean, exc = False, f"{type(e).__name__}: {str(e)[:300]}"
    finally:
        shutil.rmtree(work, ignore_errors=True)
    C = iocb.CTX
    lines = [list(x) for x in plan["lines"]]
    # own times are given to the elements in the order they are read: position -> time
    own, k = [], 0
    for x in plan["lines"]:
        keep = plan["kind"] != "number" or (x != "" and all(c in "0123456789" for c in x))
        own.append(int(round(plan["times"][k] * 1000)) if keep else 0)
        k += keep
    run = {"id": tid, "kind": plan["kind"], "lines": lines, "vals": plan["vals"], "own": own, "reassign": bool(plan["reassign"]), "whole": plan["size"] == 100000, "elems": C["elems"], "clean": clean,
           "source": "" if plan["src"] == "text" else ",".join(C["source"]), "wantsource": wantsource, "sink": "" if plan["sink"] != "pubsub" else ",".join(C["sink"]), "wantsink": wantsink,
           "outs": C["produced"] if plan["sink"] == "pubsub" else [y for x in C["produced"] for y in x.split("\n")], "written": written}
    d = dict(plan)
    if exc:
        d["exc"] = exc
    return run, d


def job(a):
    return execute(*a)


def gjob(a):
    return execute(a[0], gen_plan(a[1], a[2]))


def judge(rep, res):
    for k in range(0, len(res), 500):
        part = res[k:k + 500]
        r = with_trace("IoTrace", [x[0] for x in part])
        rep.add_tlc(r)
        judge_bad(rep, "C27", part, r)
    runs = [x[0] for x in res]
    rep.cov["lines_read"] = sum(len(x["lines"]) for x in runs)
    rep.cov["elements_judged"] = sum(len(x["elems"]) for x in runs)
    rep.cov["outputs_judged"] = sum(len(x["outs"]) for x in runs)
    rep.cov["samples"].append(runs[-1])


def run(prop, tier, seed):
    rep = common.Report(prop, tier, seed)
    q = tier == "quick"
    r = mc(rep, "IoMC", [("Emit = FALSE", "Emit = TRUE")])
    for v in ["prefix", "trim", "signed", "blank", "nozero", "raw", "bypos", "countall"]:
        mc(rep, "IoMC", [('"design"', f'"{v}"')], expect="InvStream")
    if not q:
        mc(rep, "IoMC", [("MaxLines = 2", "MaxLines = 3")])
    rnd = random.Random(f"{seed}/{prop}")
    plans = [json.loads(x) for x in sorted({json.dumps(x[1]) for x in r.lines if x[0] == "PLAN"})]
    rep.cov["spec_inputs"] = len(plans)
    pick = rnd.sample(plans, min(len(plans), 80)) if q else plans
    jobs = [(f"spec-{k}", spec_plan(x, k)) for k, x in enumerate(pick)]
    gjobs = [(f"run-{seed}-{k}", f"{seed}/{prop}/{k}", not q or k % 30 == 0) for k in range(240 if q else 1500)]
    gjobs += [(f"huge-{seed}-{k}", f"{seed}/{prop}/huge/{k}", "huge") for k in range(8 if q else 60)]
    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(job, jobs, chunksize=4) + pool.map(gjob, gjobs[::-1], chunksize=2)
    judge(rep, res)
    rep.assumptions = ["Pub/Sub is a stand-in (no network) that records where it is read from and written to", "files end lines with a line feed; Beam's text source and sink are trusted"]
    return rep.finish()


def replay(path):
    common.setup_env()
    j = json.load(open(path))
    rep = common.Report(j["property"], "quick", 0)
    res = execute("replay", j["replay"])
    judge(rep, [res])
    print(res[1].get("exc", ""))
    for v in rep.violations:
        print(v[0], v[1])
    return 1 if rep.violations else 0
