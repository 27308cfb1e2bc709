"""C20-C26: the streaming algorithms against Stream.tla."""
import datetime
import importlib.util
import json
import math
import multiprocessing as mp
import os
import random
import re
import sys
import warnings

import common
from annealcheck import judge_bad, mc, with_trace
from modeldrv import UE

PRE, SUF = "<<<P{}%s\n", "\n{0}%d>>>S"
ALGS = ["window", "attenuation", "partial", "delta", "incremental"]
DATE = r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d(?:\.\d+)?"


KINDS = ["value", "key", "own", "type", "stop", "zero", "conn", "os", "assert", "attr", "index", "over", "runtime", "impl", "lookup", "timeout", "args", "recursion", "exc", "import", "memory", "eof", "name",
         "buffer", "system", "warn", "float"]


# ---- plans ---------------------------------------------------------------
def gen_plan(prop, seed, big):
    r = random.Random(seed)
    alg = r.choice(ALGS)
    style = "token"
    if prop == "C25":
        alg, style = "attenuation", "att"
    if prop == "C26":
        style = "npp"
    if prop in ("C20", "C21") and r.random() < 0.3:
        alg = r.choice(["partial", "incremental"])
    n = r.choice([1, 2, 3, 5, 8, 12, 16, 20] if not big else [3, 8, 16, 24, 40])
    if prop == "C26":
        n = r.choice([2, 4, 6, 9, 12, 15, 15, 40])
    long = style == "token" and r.random() < 0.08
    if long:
        n = r.choice([60, 90, 130])
    reassign = r.choice([True, True, False, None, None])
    own = not reassign
    size = r.choice([1, 2, 3, 4, 5, 7.5, 10, 0.5])
    period = r.choice([p for p in [0.25, 0.5, 1, 1.5, 2, 3, 5] if size / p <= 8])
    if alg in ("window", "partial", "attenuation") and r.random() < 0.1:
        period = size + r.choice([1, 2.5])
    shift = 0
    per = 1000
    if long:
        size = r.choice([10, 15, 20, 30])
        period = r.choice([x for x in [5, 7.5, 10, 15] if x <= size])
    if own:
        span = r.choice([2, 6, 15]) if not long else 60
        grid = r.choice([0.25, 0.5, 1.0])
        ts = [r.randrange(int(span / grid)) * grid for _ in range(n)]
        if r.random() < 0.5:
            ts.sort()
        elif r.random() < 0.5:  # nearly in order
            ts.sort()
            i = r.randrange(n)
            j = r.randrange(n)
            ts[i], ts[j] = ts[j], ts[i]
        if prop != "C25" and r.random() < 0.25:  # times which are not on the grid of the windows
            fine = r.choice([[0, 0.001, 0.125, 0.2, 0.249], [0, 0.001, 0.002, 0.003, 0.004, 0.05, 0.06, 0.07]])
            ts = [t + r.choice(fine) for t in ts]
        if prop != "C25" and r.random() < 0.15:  # a burst: many elements within a few milliseconds, not in order
            t0 = r.choice(ts)
            ts = [t0 + r.choice([0.001, 0.002, 0.004, 0.007, 0.03]) if r.random() < 0.7 else t for t in ts]
        if prop not in ("C25", "C26") and r.random() < 0.2:  # times which differ by less than a millisecond
            per = 1000000
            ts = [t + r.choice([0, 0.0001, 0.0002, 0.00025, 0.0004, 0.000401, 0.000402]) for t in ts]
        base = r.choice([0, 0, 0, 1000, -5, -100, -40, 86400 if per == 1000 else 500])
        if r.random() < 0.2:  # a time of today; the trace counts from it
            step = size if alg in ("delta", "incremental") else period
            base = shift = int(1.6e9 / step) * step
        ts = [t + base for t in ts]
    else:
        ts = list(range(n))
        size = max(1, int(size))
        period = max(1, int(math.ceil(period)))
        if long and alg in ("window", "attenuation", "partial"):
            size = max(size, period)
    if style == "npp":
        data = [r.randint(1, 5) for _ in range(n)]
    else:
        data = [r.choice([r.randint(0, 3), "s", "", {"k": [1, r.random()]}, 2.5, [1, 2], None, "\u00e9\n", -7, 10 ** 12, True]) for _ in range(n)]
    p = {"seed": str(seed), "alg": alg, "style": style, "ts": ts, "own": own, "reassign": reassign, "data": data, "size": size, "period": period,
         "pre": r.random() < 0.5, "suf": r.random() < 0.5, "stamp": r.choice([True, False, None]), "mtype": r.choice(["ising", "qubo", None]), "faults": {}, "solver": r.choice([None, 1, 2, "exact"]),
         "filter": [r.choice(["mod", "late", "early", "none", "all", "data"]), 0], "key": "attributes.attn_ts", "min": r.choice([0.0, 0.1, 0.25, 0.5, 0.9, 1.0]), "npp": "", "linear": False, "shift": shift, "per": per}
    if style == "att" and r.random() < 0.6:
        p["ages"] = r.choice([[0.0, 1.0], [0.0, 2.0 ** -12], [-40.0, 2.0 ** -4], [1.6e9, 2.0 ** -14], [1.6e9, 1024.0], [-1e6, 4096.0], [0.0, 2.0 ** -30]])
    p["filter"][1] = r.choice([2, 3]) if p["filter"][0] == "mod" else r.choice(ts) if ts else 0
    want = {"C24": 0.95, "C23": 0.35, "C22": 0.3, "C20": 0.1, "C21": 0.15}.get(prop, 0)
    if prop in ("C20", "C21", "C22", "C23", "C24") and r.random() < want:
        for _ in range(r.choice([1, 1, 2, 4])):
            step = r.choice(["map", "solve", "unmap"])
            when = {"map": ["before", "middle", "after"], "solve": ["before", "after"], "unmap": ["before"]}[step]
            p["faults"][f"{step}/{r.choice([1, 1, 2, 2, 3, 4, 6, 9])}"] = {"when": r.choice(when), "kind": r.choice(KINDS)}
    if prop == "C24" and r.random() < 0.4:  # models that hold a lot and are changed in place, faults in later windows
        p["rich"] = True
        for k in r.sample([2, 3, 4, 5, 6, 7, 8, 9], 3):
            p["faults"][f"{r.choice(['map', 'map', 'solve'])}/{k}"] = {"when": "after", "kind": r.choice(KINDS)}
    if style == "npp":
        p["npp"] = r.choice(["delete", "remove", "sample"])
        p["linear"] = p["npp"] != "sample" and r.random() < 0.6
        p["mtype"] = p["mtype"] if p["npp"] != "sample" else "ising"
        p["solver"] = r.choice(["exact", "sa"])
        if alg in ("incremental",) or n > 15:
            p["solver"] = "sa"
        if p["npp"] == "sample":
            p.update(shift=0, own=False, reassign=True, ts=list(range(n)), size=max(2, int(size)), period=max(1, int(period)))
        p["key"] = "attributes.nothing"
    return p


def spec_plan(line, k):
    """A behaviour of StreamMC as a plan; the unit of time is one second."""
    _, alg, time, keep, fault, *kind = line
    p = {"seed": f"spec/{k}", "alg": alg, "style": "token", "ts": time, "own": True, "reassign": None, "data": [f"d{i}" for i in range(len(time))], "size": 2, "period": 1,
         "pre": False, "suf": False, "stamp": True, "mtype": None, "faults": {}, "solver": 1, "filter": ["none", 0], "keep": keep, "key": "attributes.a", "min": 0.5, "npp": "", "linear": False}
    if fault[0] != "none":
        p["faults"][f"{fault[0]}/{fault[1]}"] = {"when": "after" if fault[0] != "unmap" else "before", "kind": kind[0] if kind else "value"}
    if alg == "partial":
        p["filter"] = ["none", 0] if not keep else ["all", 0] if len(keep) == len(time) and len(time) > 1 else ["set", keep]
    return p


# ---- execution -----------------------------------------------------------
_SAMPLE = []


def sample_module():
    if not _SAMPLE:
        path = os.path.join(common.REPO, "sample", "algorithm", "npp_window.py")
        spec = importlib.util.spec_from_file_location("npp_window", path)
        mod = importlib.util.module_from_spec(spec)
        sys.modules["npp_window"] = mod
        spec.loader.exec_module(mod)
        _SAMPLE.append(mod)
    return _SAMPLE[0]


def to_ms(text):
    fmt = "%Y-%m-%d %H:%M:%S.%f" if "." in text else "%Y-%m-%d %H:%M:%S"
    d = datetime.datetime.strptime(text, fmt) - datetime.datetime(1970, 1, 1)
    import streamcb

    return d.total_seconds() * streamcb.CTX["per"]


def parse(text, msgs):
    import streamcb

    out = {"pre": False, "suf": False, "stamp": [], "body": "", "step": "", "msg": False, "outdated": False, "refs": []}
    if not isinstance(text, str):
        out["body"] = "?" + str(text)
        return out
    t = text
    if t.startswith(PRE):
        out["pre"], t = True, t[len(PRE):]
    if t.endswith(SUF):
        out["suf"], t = True, t[:-len(SUF)]
    m = re.match(r"\[(" + DATE + r")\] ", t)
    if m:
        out["stamp"], t = [streamcb.end_of(to_ms(m.group(1)) - streamcb.CTX["shift"])], t[m.end():]
    out["body"] = t
    head = t.split("\n")[0]
    m = re.search(r"\b(map|solve|unmap)\b", head)
    out["step"] = m.group(1) if m else ""
    out["msg"] = any(x in t for x in msgs)
    out["outdated"] = "outdated" in t
    if out["outdated"]:
        out["refs"] = [streamcb.end_of(to_ms(x) - streamcb.CTX["shift"]) for x in re.findall(DATE, t)]
    return out


def execute(tid, plan, prop):
    import apache_beam as beam
    import sawatabi
    import streamcb
    from apache_beam.utils.timestamp import Timestamp
    from streamcb import CTX, LOG

    LOG.clear()
    CTX.clear()
    CTX["per"] = plan.get("per", 1000)
    CTX.update(rich=plan.get("rich", False), extras=random.Random(f"{plan['seed']}/extras").random() < 0.5, alg=plan["alg"], style=plan["style"], seed=plan["seed"], faults=plan["faults"], n={}, key=plan["key"], npp=plan["npp"], linear=plan["linear"], unit=UE, solve_kw={}, base=min(plan["ts"], default=0), ages=plan.get("ages") or [min(plan["ts"], default=0), 1.0], shift=streamcb.ms(plan.get("shift", 0)))
    if plan["npp"] == "sample":
        CTX["sample"] = sample_module()
    cls = {"window": "Window", "attenuation": "Attenuation", "partial": "Partial", "delta": "Delta", "incremental": "Incremental"}[plan["alg"]]
    opt = {}
    if plan["alg"] in ("window", "attenuation", "partial"):
        opt["window.size"], opt["window.period"] = plan["size"], plan["period"]
    elif plan["alg"] == "delta":
        opt["window.size"] = plan["size"]
    else:
        opt["incremental.size"] = plan["size"]
    if plan["alg"] == "attenuation":
        opt["attenuation.key"], opt["attenuation.min_scale"] = plan["key"], plan["min"]
    flt = SetFilter(plan["filter"][1]) if plan["filter"][0] == "set" else streamcb.Filter(*plan["filter"])
    if plan["alg"] == "partial":
        opt["filter_fn"] = flt
    if plan["reassign"] is not None:
        opt["input.reassign_timestamp"] = plan["reassign"]
    if plan["stamp"] is not None:
        opt["output.with_timestamp"] = plan["stamp"]
    if plan["pre"]:
        opt["output.prefix"] = PRE
    if plan["suf"]:
        opt["output.suffix"] = SUF
    kw = {}
    if plan["mtype"]:
        kw["initial_mtype"] = plan["mtype"]
    if plan["solver"] in ("exact", "sa"):
        kw["solver"] = sawatabi.solver.LocalSolver(exact=plan["solver"] == "exact")
        if plan["solver"] == "sa":
            CTX["solve_kw"] = {"num_reads": 1, "num_sweeps": 5, "seed": 1}
    elif plan["solver"] is not None:
        kw["solver"] = streamcb.TagSolver(plan["solver"])
    stoken = {None: "LocalSolverFalse", "exact": "LocalSolverTrue", "sa": "LocalSolverFalse"}.get(plan["solver"], f"tag{plan['solver']}")
    data = plan["data"]
    if plan["own"]:
        inp = beam.Create(list(zip(plan["ts"], data)), reshuffle=False) | beam.Map(streamcb.to_timestamped)
    else:
        inp = beam.Create(data, reshuffle=False)
    if not data:
        inp = beam.Create([])
    clean = True
    exc = ""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = getattr(sawatabi.algorithm, cls).create_pipeline(opt, input_fn=inp, map_fn=streamcb.map_fn, solve_fn=streamcb.solve_fn, unmap_fn=streamcb.unmap_fn,
                                                               output_fn=beam.ParDo(streamcb.OutFn()), **kw)
            p.run().wait_until_finish()
    except Exception as x:  # noqa: BLE001
        clean = False
        exc = f"{type(x).__name__}: {str(x)[:400]}"
    keep = [i for i in range(len(data)) if flt((float(plan["ts"][i]), (i, data[i])))] if plan["alg"] == "partial" else []
    run = {"id": tid, "alg": plan["alg"], "size": streamcb.ms(plan["size"]), "period": streamcb.ms(plan["period"]), "mtype": plan["mtype"] or "ising",
           "times": [int(Timestamp.of(t).micros) - CTX["shift"] if CTX["per"] == 1000000 else streamcb.tm(t) for t in plan["ts"]], "data": [streamcb.data_token(d) for d in data], "keep": keep, "pre": plan["pre"], "suf": plan["suf"], "stamp": bool(plan["stamp"]), "solver": stoken,
           "win": [], "clean": clean, "min": int(round(plan["min"] * streamcb.ONE)), "npp": plan["style"] == "npp", "wt": data if plan["style"] == "npp" else [0] * len(data), "unit": UE, "linear": plan["linear"]}
    cur = {"map": [], "solve": [], "unmap": []}
    msgs = []
    for e in LOG:
        if e["fn"] == "output":
            w = dict(cur, end=streamcb.end_of(e["ts"] * CTX["per"] - CTX["shift"]), text=parse(e["text"], msgs))
            run["win"].append(w)
            cur = {"map": [], "solve": [], "unmap": []}
            msgs = []
        else:
            if f"{e['fn']}/{e['k']}" in plan["faults"] and not e["ok"]:
                msgs.append(f"boom{e['fn'][0]}{e['k']}")
            cur[e["fn"]].append(e)
    if any(cur.values()):
        run["clean"] = False
        exc = exc or "callbacks without an output"
    d = dict(plan)
    if exc:
        d["exc"] = exc
    return run, d


class SetFilter:
    def __init__(self, s):
        self.s = list(s)

    def __call__(self, e):
        return e[1][0] in self.s


def job(args):
    common.setup_env()
    tid, plan, prop = args
    return execute(tid, plan, prop)


def gjob(args):
    common.setup_env()
    tid, seed, prop, big = args
    return execute(tid, gen_plan(prop, seed, big), prop)


def judge(rep, prop, res):
    runs = [x[0] for x in res]
    for k in range(0, len(runs), 800):
        part = res[k:k + 800]
        r = with_trace("StreamTrace", [x[0] for x in part])
        rep.add_tlc(r)
        judge_bad(rep, prop, part, r)
    wins = [(run, w) for run in runs for w in run["win"]]
    rep.cov["windows_judged"] = len(wins)
    rep.cov["windows_outdated"] = sum(1 for _, w in wins if w["text"]["outdated"])
    rep.cov["windows_with_fault"] = sum(1 for _, w in wins if any(not c["ok"] for c in w["map"] + w["solve"] + w["unmap"]))
    for a in ALGS:
        rep.cov["runs_" + a] = sum(1 for run in runs if run["alg"] == a)
    if prop == "C25":
        rep.cov["scales_judged"] = sum(len(w["solve"][0]["rows"]) - 1 for _, w in wins if w["solve"])
    if prop == "C26":
        rep.cov["terms_judged"] = sum(len(w["solve"][0]["terms"]) for _, w in wins if w["solve"])
    rep.cov["samples"].append({k: v for k, v in runs[0].items() if k != "win"} | {"win": runs[0]["win"][:2]})


VARIANTS = {"C20": [("plainpartial", "InvContent")], "C21": [("outdatedstate", ("InvDiff", "InvMaintained")), ("keepout", ("InvDiff", "InvMaintained"))], "C22": [("nooutdated", "InvForward")],
            "C23": [("earlystate", "InvHandOver")], "C24": [("leak", "InvHandOver"), ("forgetsamples", "InvHandOver")], "C25": [], "C26": [("outdatedstate", ("InvDiff", "InvMaintained"))]}


def rejects(rep, prop):
    """C23: an initial model type that does not exist is refused when the pipeline is created."""
    import apache_beam as beam
    import sawatabi
    import streamcb

    for bad in ("another", "", None, 1):
        try:
            sawatabi.algorithm.Delta.create_pipeline({"window.size": 2}, input_fn=beam.Create([1]), map_fn=streamcb.map_fn, solve_fn=streamcb.solve_fn, unmap_fn=streamcb.unmap_fn, initial_mtype=bad)
        except Exception:  # noqa: BLE001
            continue
        rep.violations.append(("C23.mtype", f"initial_mtype={bad!r} is accepted", {"initial_mtype": bad}))


def run(prop, tier, seed):
    rep = common.Report(prop, tier, seed)
    q = tier == "quick"
    r = mc(rep, "StreamMC", [("Emit = FALSE", "Emit = TRUE")])
    for v, inv in VARIANTS[prop]:
        mc(rep, "StreamMC", [('"design"', f'"{v}"'), ("N = 3", "N = 2")], expect=inv)
    if not q:
        mc(rep, "StreamMC", [("N = 3", "N = 4"), ("MaxTime = 3", "MaxTime = 2")])
        mc(rep, "StreamMC", [("Size = 2", "Size = 3")])
    rnd = random.Random(f"{seed}/{prop}")
    jobs = []
    if prop not in ("C25", "C26"):
        plans = [json.loads(x) for x in sorted({json.dumps(x) for x in r.lines if x[0] == "PLAN"})]
        rep.cov["spec_streams"] = len(plans)
        if prop == "C24":
            plans = [x for x in plans if x[4][0] != "none"]
        pick = rnd.sample(plans, min(len(plans), 60 if q else 1200))
        if prop == "C24":  # every kind of exception in every callback
            pick = [rnd.choice([x for x in plans if x[4][0] == step]) + [kind] for step in ("map", "solve", "unmap") for kind in KINDS] + ([] if q else pick)
        jobs = [(f"spec-{k}", spec_plan(x, k), prop) for k, x in enumerate(pick)]
    n = {"C25": 110, "C26": 130}.get(prop, 120)
    gjobs = [(f"run-{seed}-{k}", f"{seed}/{prop}/{k}", prop, not q) for k in range(n if q else n * 15)]
    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(job, jobs, chunksize=4) + pool.map(gjob, gjobs, chunksize=4)
    if prop == "C23":
        rejects(rep, prop)
    judge(rep, prop, res)
    rep.assumptions = ["Beam's DirectRunner on one machine; arrival orders of windows are those it produces for the generated element orders (the specification explores all of them)",
                       "callbacks do not change the lists they are given"]
    return rep.finish()


def replay(path):
    common.setup_env()
    j = json.load(open(path))
    d = j["replay"]
    rep = common.Report(j["property"], "quick", 0)
    res = execute("replay", d, j["property"])
    judge(rep, j["property"], [res])
    if res[1].get("exc"):
        print(res[1]["exc"])
    for v in rep.violations:
        print(v[0], v[1])
    return 1 if rep.violations else 0
