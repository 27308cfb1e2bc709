"""Checks of C01..C13: exhaustive model (ModelMC), replay of its behaviours and random histories on the real code (ModelTrace)."""
import json
import multiprocessing as mp
import os
import random
import shutil

import common
import modeldrv
import modelgen

# property -> (exhaustive focus or None, [(profile, quick, thorough)])
PLAN = {
    "C01": ("C01", [("C01", 90, 1500), ("mix", 50, 800), ("C10", 20, 200), ("big", 16, 240), ("many", 6, 60)]),
    "C02": ("C02", [("C02", 90, 1200), ("C02s", 50, 800), ("mix", 20, 300), ("big", 16, 240), ("many", 6, 60)]),
    "C03": ("C03", [("C03", 110, 1500), ("mix", 40, 600), ("C09", 20, 200), ("big", 16, 240), ("many", 6, 60)]),
    "C04": ("C04", [("C04", 150, 2500), ("mix", 40, 500), ("big", 16, 240), ("many", 6, 60)]),
    "C05": ("C05", [("C05", 130, 2000), ("C08", 30, 400), ("big", 16, 240), ("many", 6, 60)]),
    "C06": ("C06", [("C06", 130, 2000), ("mix", 30, 400), ("big", 16, 240), ("many", 6, 60)]),
    "C07": ("C07", [("C07", 130, 2000), ("mix", 30, 400), ("big", 16, 240), ("many", 6, 60)]),
    "C08": ("C08", [("C08", 140, 2000), ("mix", 20, 300), ("big", 16, 240), ("many", 6, 60)]),
    "C09": ("C09", [("C09", 140, 2000), ("C07", 20, 300), ("big", 16, 240), ("many", 6, 60)]),
    "C10": (None, [("C10", 80, 1200), ("C10b", 50, 800), ("C02s", 30, 400), ("C11s", 60, 800)]),
    "C11": (None, [("C11", 350, 5000), ("C11s", 200, 3000)]),
    "C12": ("C12", [("C12", 140, 2000), ("mix", 30, 400), ("big", 16, 240), ("many", 6, 60)]),
    "C13": ("C13", [("C13", 150, 2200), ("C08", 20, 200), ("big", 16, 240), ("many", 6, 60)]),
    "C29": ("C29", [("C29", 150, 2000), ("C29s", 40, 400), ("mix", 20, 300), ("big", 10, 160)]),
}
DEPTH = {"quick": 3, "thorough": 4}
PATHS = {"quick": 400, "thorough": 6000}

# findings of ModelTrace that are violations of a property unless they are listed in KNOWN-FINDINGS.md
FINDINGS = {"K06": "C06"}


class Rec:
    """What remains of a Recorder after its process."""

    def __init__(self, r):
        self.tid, self.envname, self.events, self.plan, self.rowtab = r.tid, r.envname, r.events, r.plan, r.rowtab
        self.cut = r.cut


def _gen(job):
    common.setup_env()
    prefix, seed, profile, k = job
    r = modelgen.Gen(f"{prefix}-{profile}-{seed}-{k}", f"{seed}/{profile}/{k}", modelgen.PROFILES[profile]).run()
    out = [Rec(r)]
    if prefix == "C10":  # the same history with the values instead of the placeholders
        out.append(Rec(modeldrv.run_plan(r.tid + "-values", r.plan, r.envname, concrete=True)))
        mag = r.envname.partition("@")[2]
        out[1].envname = "@" + mag if mag else ""
    return out


def _path(job):
    common.setup_env()
    tid, plan, env = job
    return Rec(modeldrv.run_plan(tid, plan, env))


def undict(x):
    return x if isinstance(x, dict) else {}


def plan_op(o, rng, peek):
    """An operation of ModelMC as a plan step for the Recorder."""
    a, op = o["a"], o["op"]
    out = {}
    if op in ("add", "update", "remove"):
        out["tk"] = a["tk"]
        if a["tk"] == "lin":
            out["ta"] = a["k0"]
        elif a["tk"] == "quad":
            out["ta"], out["tb"] = (a["k0"], a["k1"]) if rng.random() < 0.5 else (a["k1"], a["k0"])
        if a["name"]:
            out["name"] = a["name"]
        if op != "remove":
            if a["hc"]:
                out["c"] = a["c"] / modeldrv.UC
            if a["hs"]:
                out["s"] = a["s"] / modeldrv.US
            if a["t"] != -1:
                out["t"] = a["t"] / 2
            if undict(a["at"]):
                out["at"] = {k: v / 2 for k, v in a["at"].items()}
    elif op == "offset":
        out["c"] = a["c"] / modeldrv.UE
    elif op in ("delete", "fix"):
        out["v"] = a["v"]
        if op == "fix":
            out["val"] = a["val"]
    elif op == "copy":
        out = {"how": rng.choice(["deep", "pickle"])}
    elif op in ("vars", "append"):
        out = {"name": a["name"], "sh": a["sh"]}
    elif op == "addcons":
        k = a["con"]
        out = {"label": a["label"], "con": {"kind": k["kind"], "v1": k["v1"], "v2": k["v2"], "n": k["n"], "str": k["str"] / modeldrv.UE}, "how": rng.choice(["list", "set", "grow"])}
    elif op == "remcons":
        out = {"label": a["label"]}
    elif op in ("consadd", "consrem"):
        out = {"label": a["label"], "side": a["side"], "vs": a["vs"]}
    return {"op": op, "i": o["i"] - 1, "j": o["j"] - 1, "peek": peek, "look": rng.random() < 0.3, "a": out}


def exhaustive(rep, focus, tier, rng):
    """TLC explores every operation sequence of the focus; returns replayable plans."""
    work = common.scratch()
    try:
        with open(os.path.join(common.SPEC, "ModelMC.cfg")) as f:
            cfg = f.read().replace('Focus = "C01"', f'Focus = "{focus}"').replace("Depth = 3", f"Depth = {DEPTH[tier]}")
        path = os.path.join(work, "mc.cfg")
        with open(path, "w") as f:
            f.write(cfg)
        r = common.tlc("ModelMC", cfg=path)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if r.violated:
        raise common.Machinery(f"the design violates {r.violated} in ModelMC ({focus})\n" + r.out[-3000:])
    rep.add_tlc(r)
    tab = json.loads([x for x in r.lines if x[0] == "TABLES"][0][1])
    paths = {(x[1], tuple(x[2])) for x in r.lines if x[0] == "PLAN"}
    prefixes = {(f, h[:k]) for f, h in paths for k in range(1, len(h))}
    leaves = sorted(paths - prefixes)
    short = [p for p in leaves if len(p[1]) < DEPTH[tier]]
    pick = leaves if len(leaves) <= PATHS[tier] else rng.sample(leaves, PATHS[tier])
    rep.cov["model_transitions"] = len(paths)
    rep.cov["behaviours_of_model"] = len(leaves)
    # every pair of consecutive operations from every fixture is covered, then a sample of the rest
    need = {(f, h[:2]) for f, h in leaves}
    have = {(f, h[:2]) for f, h in pick}
    left = {}
    for f, h in leaves:
        if (f, h[:2]) in need - have:
            left.setdefault((f, h[:2]), (f, h))
    pick = pick + sorted(left.values())[: PATHS[tier]]
    jobs = []
    for n, (f, h) in enumerate(pick):
        fxt = tab["fixtures"][f - 1]
        plan = [{"op": "new", "i": k, "j": -1, "peek": False, "a": {"mtype": mt}} for k, mt in enumerate(fxt["mt"])]
        plan += [plan_op(o, rng, False) for o in fxt["ops"]]
        for k, idx in enumerate(h):
            plan.append(plan_op(tab["ops"][idx - 1], rng, k == len(h) - 1 or rng.random() < 0.5))
        jobs.append((f"mc-{focus}-{f}-" + ".".join(map(str, h)), plan, ""))
    return jobs


def judge1(part):
    work = common.scratch()
    try:
        path = os.path.join(work, "trace.json")
        with open(path, "w") as f:
            json.dump(modeldrv.bundle(part), f)
        r = common.tlc("ModelTrace", env={"TRACE": path})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if r.violated:
        raise common.Machinery("ModelTrace: " + r.violated)
    return r


def judge(recs, batch=400):
    """Runs ModelTrace over recorded executions."""
    bad, known, skip, done = [], [], set(), set()
    states = gen = 0
    for b in range(0, len(recs), batch):
        part = recs[b:b + batch]
        try:
            r = judge1(part)
        except common.Unjudgeable as e:
            x, _ = common.first_unjudgeable(part, judge1, e)
            bad.append((x.tid, len(x.events), "recording", ["*"]))
            continue
        states += r.distinct
        gen += r.generated
        for x in r.lines:
            if x[0] == "BAD":
                bad.append((x[1], x[2], x[3], x[4]))
            elif x[0] == "KNOWN":
                known.append((x[1], x[2], x[3], x[4]))
            elif x[0] == "SKIP":
                skip.add(x[1])
            elif x[0] == "DONE":
                done.add(x[1])
        missing = {x.tid for x in part} - done
        if missing:
            raise common.Machinery(f"{len(missing)} executions were not followed to their end, e.g. {sorted(missing)[:3]}")
    return dict(bad=bad, known=known, skip=skip, states=states, gen=gen)


def run(prop, tier, seed):
    rep = common.Report(prop, tier, seed)
    rng = random.Random(f"{seed}/{prop}")
    focus, profiles = PLAN[prop]
    jobs = exhaustive(rep, focus, tier, rng) if focus else []
    gjobs = [(prop, seed, p, k) for p, q, t in profiles for k in range(q if tier == "quick" else t)]
    with mp.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        recs = pool.map(_path, jobs, chunksize=4) + [r for rs in pool.map(_gen, gjobs, chunksize=4) for r in rs]
    out = judge(recs)
    rep.cov["states"] += out["states"]
    rep.cov["transitions"] += out["gen"]
    rep.cov["traces_validated_against_impl"] += len(recs) - len(out["skip"])
    rep.cov["replayed_model_behaviours"] = len(jobs)
    rep.cov["random_histories"] = len(gjobs)
    rep.cov["calls_judged"] = sum(len(r.events) for r in recs)
    rep.cov["physical_models_judged"] = sum(len(e["pk"]) for r in recs for e in r.events)
    rep.cov["rejected_calls"] = sum(1 for r in recs for e in r.events if not e["ok"])
    rep.cov["histories_cut_short"] = sum(1 for r in recs if r.cut)
    ops = {}
    for r in recs:
        for e in r.events:
            ops[e["op"]] = ops.get(e["op"], 0) + 1
    rep.cov["calls_by_operation"] = ops
    rep.cov["unjudged_executions"] = len(out["skip"])
    for r in (recs[0], recs[-1]):
        rep.cov["samples"].append({"id": r.tid, "plan": r.plan[:12]})
    rep.assumptions = ["numbers are multiples of 1/1024 (coefficients), 1/4 (scales), 1/4096 (energies) and small, so that arithmetic is exact",
                       "the projection in drv/modeldrv.py reads the public table (select_interaction), getters and to_bqm/to_polynomial"]
    byid = {r.tid: r for r in recs}
    first = {}
    for tid, l, op, tags in out["bad"]:
        first[tid] = min(l, first.get(tid, l))
    for tid, l, op, tags in out["bad"]:
        mine = [prop + ".outside"] if tags == ["*"] else sorted(t for t in tags if t.startswith(prop + "."))
        if prop == "C10":
            # a failure that only occurs with placeholders, not with their values
            mine = [] if tid.endswith("-values") or first.get(tid + "-values", l + 1) <= l else mine or ["C10.differs (" + sorted(tags)[0] + ")"]
        for t in mine:
            r = byid[tid]
            e = r.events[l - 1]
            rep.violations.append((t, f"history {tid}, call {l} ({op}) {e['exc']}", {"env": r.envname, "plan": r.plan[:l], "event": e}))
    listed = common.known_findings(prop)
    for tid, l, op, ks in out["known"]:
        for k in ks:
            if FINDINGS.get(k) != prop:
                continue
            if k in listed:
                rep.known.append((k, listed[k]))
            else:
                r = byid[tid]
                rep.violations.append((k, f"history {tid}, call {l} ({op})", {"env": r.envname, "plan": r.plan[:l], "event": r.events[l - 1]}))
    return rep.finish()


def replay(path):
    """Re-executes a recorded violation and prints the verdict."""
    common.setup_env()
    d = json.load(open(path))["replay"]
    r = modeldrv.run_plan("replay", d["plan"], d["env"])
    out = judge([r])
    for b in out["bad"]:
        print(b)
    return 1 if out["bad"] else 0
