"""C16, C17, C18: the built-in annealer against Anneal.tla and Repro.tla."""
import copy
import hashlib
import json
import math
import multiprocessing as mp
import os
import random
import warnings

import common
from modeldrv import UE, Odd, units

COEFS = [1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -1.5]


# ---- problems -----------------------------------------------------------
def problem(r, n, mtype, distinct=False):
    """A random problem over n variables, as plan data (JSON)."""
    names = [("x", 12, [0, 1, 2, 10, 11]), ("y", 3, [0, 1, 2]), ("a", 2, [0, 1])]
    r.shuffle(names)
    pool = [f"{nm}[{k}]" for nm, _, ks in names for k in ks]
    while True:
        vs = r.sample(pool, n)
        terms = {}
        for i, v in enumerate(vs):
            if r.random() < 0.7 or n == 1:
                terms[(v,)] = r.choice(COEFS)
        for i in range(n):
            for j in range(i + 1, n):
                if r.random() < 0.6:
                    terms[tuple(sorted((vs[i], vs[j])))] = r.choice(COEFS)
        used = {v for t in terms for v in t}
        if len(used) != n:
            continue
        pr = {"mtype": mtype, "arrays": [[nm, sz] for nm, sz, _ in names], "terms": [[list(t), c] for t, c in terms.items()], "off": r.choice([0.0, 0.0, 3.5, -2.0, 10.0])}
        if distinct:
            es = [energy(pr, x) for x in assignments(sorted(used), mtype)]
            if len(set(es)) != len(es):
                continue
        return pr


def wide(r, n, mtype, size=3):
    """A problem over n variables (up to 40) which falls apart into components of at most size variables."""
    names = [("x", 24), ("y", 11), ("a", 3), ("x1", 4)]
    r.shuffle(names)
    pool = [f"{nm}[{k}]" for nm, sz in names for k in range(sz)]
    vs = r.sample(pool, n)
    terms, k = [], 0
    while k < n:
        part = vs[k:k + r.randint(1, size)]
        k += len(part)
        for i, v in enumerate(part):
            if len(part) == 1 or r.random() < 0.7:
                terms.append([[v], r.choice(COEFS)])
            if i > 0:
                terms.append([sorted([part[i - 1], v]), r.choice(COEFS)])
    r.shuffle(terms)
    return {"mtype": mtype, "arrays": [list(x) for x in names], "terms": terms, "off": r.choice([0.0, 3.5, -2.0])}


def hub(r, n, mtype):
    """A problem over n variables, one of which is coupled with all others."""
    pr = wide(r, n, mtype, 1)
    vs = sorted({v for t, _ in pr["terms"] for v in t})
    h = r.choice(vs)
    pr["terms"] = [x for x in pr["terms"] if x[0] == [h] or r.random() < 0.6] + [[sorted([h, v]), r.choice(COEFS)] for v in vs if v != h]
    r.shuffle(pr["terms"])
    return pr


def components(pr):
    comp = {v: {v} for t, _ in pr["terms"] for v in t}
    for t, _ in pr["terms"]:
        if len(t) == 2:
            c = comp[t[0]] | comp[t[1]]
            for v in c:
                comp[v] = c
    out = []
    for v in sorted(comp):
        c = sorted(comp[v])
        if c not in out:
            out.append(c)
    return out


def magnify(r, pr, chance=0.3):
    """The problem in other units: every energy is given to the code times pr["mag"]."""
    if r.random() < chance:
        pr["mag"] = 2.0 ** r.choice([-30, -14, 14, 30])
    return pr


def mag(pr):
    return pr.get("mag", 1.0)


def assignments(vs, mtype):
    lo = -1 if mtype == "ising" else 0
    for k in range(2 ** len(vs)):
        yield {v: 1 if (k >> i) & 1 else lo for i, v in enumerate(vs)}


def energy(pr, x):
    return pr["off"] - sum(c * math.prod(x[v] for v in t) for t, c in pr["terms"])


def build(pr):
    import sawatabi

    m = sawatabi.model.LogicalModel(mtype=pr["mtype"])
    arr = {}
    for nm, sz in pr["arrays"]:
        arr[nm] = m.variables(nm, shape=(sz,))

    def var(label):
        nm, k = label[:-1].split("[")
        return arr[nm][int(k)]
    for t, c in pr["terms"]:
        m.add_interaction(var(t[0]) if len(t) == 1 else (var(t[0]), var(t[1])), coefficient=c * mag(pr))
    m.offset(pr["off"] * mag(pr))
    return m.to_physical()


def poly(pr):
    out = [{"m": list(t), "v": units(-c, UE)} for t, c in pr["terms"]]
    return out + [{"m": [], "v": units(pr["off"], UE)}]


def order_of(ph):
    return [ph._index_to_label[k] for k in range(len(ph._index_to_label))]


def spin(v):
    return 1 if int(v) == 1 else -1


def native(mtype, s):
    return s if mtype == "ising" else (s + 1) // 2


# ---- C16: chains --------------------------------------------------------
def chain_job(job):
    common.setup_env()
    import sawatabi

    tid, seed, big = job
    r = random.Random(seed)
    mode = r.choice(["sequential", "random"])
    n = r.randint(1, (7 if big else 5) if mode == "sequential" else (5 if big else 4))
    sweeps = r.randint(1, 8 if big else 6)
    reads = r.choice([1, 1, 2, 3])
    many = r.random() < 0.35  # many variables: one sweep from a given state, or a cold chain
    cold = False
    if many:
        n = r.choice([6, 10, 17, 24, 33, 40])
        pr = wide(r, n, r.choice(["ising", "qubo"]), r.choice([1, 2, 3]))
        cold = r.random() < 0.4
        sweeps, reads = (r.choice([2, 5, 30]), 1) if cold else (1, 1)
        if cold:
            mode = "sequential"
        if r.random() < 0.35:  # the order of the tries matters: it must be known
            n, mode = r.choice([9, 14, 20, 25]), "sequential"
            pr = hub(r, n, pr["mtype"])
    else:
        pr = problem(r, n, r.choice(["ising", "qubo"]))
    if r.random() < 0.04:
        sweeps, cold = 0, False
    magnify(r, pr)
    opt = {"num_reads": reads, "num_sweeps": sweeps, "cooling_rate": r.choice([0.5, 0.9, 0.75, 1.0]), "initial_temperature": r.choice([0.01, 0.25, 1.0, 3.0, 100.0]),
           "pickup_mode": mode, "seed": r.choice([0, 1, r.randrange(10 ** 6)]), "need_stats": True}
    opt["initial_temperature"] *= mag(pr)
    if cold:
        opt["initial_temperature"] = 2.0 ** -12 * mag(pr)
    elif mode == "random" and r.random() < 0.15:
        opt.pop("pickup_mode")  # the default
    if r.random() < 0.3 and not cold:
        opt["reverse_options"] = {"reverse_period": r.randint(0, sweeps), "reverse_temperature": r.choice([0.5, 2.0, 10.0]) * mag(pr)}
    vs = sorted({v for t, _ in pr["terms"] for v in t})
    if many or r.random() < 0.5:
        opt["initial_states"] = initial(r, pr, vs, reads)
    d = {"problem": pr, "options": copy.deepcopy(opt)}
    return chain(tid, pr, opt, d)


def initial(r, pr, vs, reads):
    """Initial states; sometimes they have values for variables which are not in the model, too."""
    more = [f"{nm}[{k}]" for nm, sz in pr["arrays"] for k in range(sz) if f"{nm}[{k}]" not in vs][:r.choice([0, 0, 1, 3])]
    order = vs + more
    if r.random() < 0.5:
        r.shuffle(order)
    return [{v: native(pr["mtype"], r.choice([-1, 1])) for v in order} for _ in range(reads)]


def chain(tid, pr, opt, d):
    import sawatabi

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ph = build(pr)
            sol = sawatabi.solver.SawatabiSolver()
            init = copy.deepcopy(opt.get("initial_states"))
            ss, stats = sol.solve(ph, **opt)
            run = {"id": tid, "mtype": pr["mtype"], "poly": poly(pr), "order": order_of(ph), "mode": opt.get("pickup_mode", "random"), "comp": components(pr), "reads": [], "final": []}
            own = set(run["order"])
            for k, st in enumerate(stats):
                run["reads"].append({"init": {v: spin(x) for v, x in init[k].items() if v in own} if init else {},
                                     "en": [units(e / mag(pr), UE, "C16") for e in st["energy_history"]], "acc": [int(a) for a in st["acceptance_history"]],
                                     "thr": [int(min(1e9, 34.5 * t / mag(pr) * UE)) for t in st["temperature_history"]]})
            for rec in ss.data(fields=["sample", "energy", "num_occurrences"]):
                s = {str(k): spin(v) for k, v in rec.sample.items()}
                e = units(rec.energy / mag(pr), UE, "C16")
                if e != units(energy(pr, {k: native(pr["mtype"], v) for k, v in s.items()}), UE):
                    return None, ("C16.final", f"{tid}: the energy of a returned sample is not its energy", d)
                run["final"].append({"s": s, "n": int(rec.num_occurrences)})
            ns = opt["num_sweeps"]
            if len(run["reads"]) != opt["num_reads"] or any(len(q["en"]) != ns or len(q["acc"]) != ns or len(q["thr"]) != ns for q in run["reads"]):
                return None, ("C16.length", f"{tid}: the statistics do not have one entry per sweep and read", d)
            if set(run["order"]) != {v for t, _ in pr["terms"] for v in t}:
                return None, ("C16.variables", f"{tid}: variables {run['order']}", d)
            return run, d
    except Odd:
        return None, ("C16.value", f"{tid}: an energy that no state has", d)
    except Exception as x:  # noqa: BLE001
        return None, ("C16.raised", f"{tid}: {type(x).__name__}: {x}", d)


def check_chains(rep, seed, count, big):
    jobs = [(f"chain-{seed}-{k}", f"{seed}/chain/{k}", big) for k in range(count)]
    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(chain_job, jobs, chunksize=4)
    judge_chains(rep, res)
    return res


def judge_chains(rep, res):
    runs, data = [], {}
    for run, d in res:
        if run is None:
            rep.violations.append(d)
        else:
            runs.append(run)
            data[run["id"]] = d
    if not runs:
        return
    r = with_trace("AnnealTrace", runs)
    rep.add_tlc(r)
    done = {x[1] for x in r.lines if x[0] == "DONE"}
    far = {}
    for x in r.lines:
        if x[0] == "BAD":
            rep.violations.append(("C16.outside", f"{x[1]}: {x[3]}", data[x[1]]))
        if x[0] == "AT":
            far[x[1]] = max(far.get(x[1], (0, 0)), (x[2], x[3]))
    for run in runs:
        if run["id"] not in done:
            at = far.get(run["id"], (0, 0))
            rep.violations.append(("C16.chain", f"{run['id']}: no Metropolis chain explains the run beyond read {at[0]} sweep {at[1]}", dict(data[run["id"]], run=run)))
    rep.cov["traces_validated_against_impl"] += len(runs)
    rep.cov["chains_explained"] = len(done)
    rep.cov["sweeps_explained"] = sum(len(q["en"]) for run in runs for q in run["reads"])
    rep.cov["samples"].append(runs[0])


def with_trace(module, runs, **kw):
    try:
        return with_trace1(module, runs, **kw)
    except common.Unjudgeable as e:
        run, err = common.first_unjudgeable(runs, lambda part: with_trace1(module, part, **kw), e)
        r = common.TlcResult()
        r.lines = [["DONE", x["id"]] for x in runs] + [["BAD", run["id"], 0, "what was recorded is outside the specification: " + str(err)[-300:], ["*"]]]
        return r


def with_trace1(module, runs, **kw):
    work = common.scratch()
    try:
        path = os.path.join(work, "trace.json")
        with open(path, "w") as f:
            json.dump(runs, f)
        r = common.tlc(module, env={"TRACE": path}, **kw)
    finally:
        import shutil

        shutil.rmtree(work, ignore_errors=True)
    if r.violated:
        raise common.Machinery(f"{module}: {r.violated}")
    return r


# ---- C16: acceptance rates ----------------------------------------------
def rate_job(job):
    common.setup_env()
    import sawatabi

    tid, seed, sweeps = job
    r = random.Random(seed)
    n = r.choice([1, 1, 2, 3, 3])
    pr = magnify(r, problem(r, n, r.choice(["ising", "qubo"]), distinct=True), 0.4)
    mode = "sequential" if n > 1 else r.choice(["sequential", "random"])
    T = r.choice([1.0, 2.0, 3.0, 5.0])
    opt = {"num_reads": 1, "num_sweeps": sweeps, "cooling_rate": 1.0, "initial_temperature": T * mag(pr), "pickup_mode": mode, "seed": r.randrange(10 ** 6), "need_stats": True}
    d = {"problem": pr, "options": opt}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ph = build(pr)
            _, stats = sawatabi.solver.SawatabiSolver().solve(ph, **opt)
            order = order_of(ph)
            vs = sorted(order)
            ds = set()
            for x in assignments(vs, pr["mtype"]):
                for v in vs:
                    y = dict(x)
                    y[v] = (-x[v]) if pr["mtype"] == "ising" else 1 - x[v]
                    ds.add(units(energy(pr, y) - energy(pr, x), UE))
            ps = [{"d": q, "p4": round(10000 * math.exp(-q / UE / T))} for q in sorted(ds) if q > 0]
            return {"id": tid, "kind": "rate", "mtype": pr["mtype"], "poly": poly(pr), "order": order, "en": [units(e / mag(pr), UE, "C16") for e in stats[0]["energy_history"]], "ps": ps}, d
    except Odd:
        return None, ("C16.value", f"{tid}: an energy that no state has", d)
    except Exception as x:  # noqa: BLE001
        return None, ("C16.raised", f"{tid}: {type(x).__name__}: {x}", d)


def flips_job(job):
    """Many reads of one sweep from one state: how often does each variable flip?"""
    common.setup_env()
    import sawatabi

    tid, seed, reads = job
    r = random.Random(seed)
    pr = magnify(r, wide(r, r.choice([2, 5, 12, 20]), r.choice(["ising", "qubo"]), 1), 0.4)
    T = r.choice([1.0, 2.0, 3.0, 5.0])
    vs = sorted({v for t, _ in pr["terms"] for v in t})
    st = {v: native(pr["mtype"], r.choice([-1, 1])) for v in vs}
    opt = {"num_reads": reads, "num_sweeps": 1, "cooling_rate": 0.5, "initial_temperature": T * mag(pr), "pickup_mode": r.choice(["sequential", "random"]), "seed": r.randrange(10 ** 6)}
    d = {"problem": pr, "options": opt, "state": st}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ss = sawatabi.solver.SawatabiSolver().solve(build(pr), initial_states=[dict(st) for _ in range(reads)], **opt)
        n, k = 0, {v: 0 for v in vs}
        for rec in ss.data(fields=["sample", "num_occurrences"]):
            n += int(rec.num_occurrences)
            for v in vs:
                k[v] += int(rec.num_occurrences) if int(rec.sample[v]) != st[v] else 0
        ds = sorted({units(energy(pr, dict(st, **{v: -st[v] if pr["mtype"] == "ising" else 1 - st[v]})) - energy(pr, st), UE) for v in vs})
        return {"id": tid, "kind": "flips", "mtype": pr["mtype"], "poly": poly(pr), "order": vs, "init": {v: spin(x) for v, x in st.items()}, "n": n, "flips": k, "reads": reads,
                "ps": [{"d": q, "p4": round(10000 * math.exp(-q / UE / T))} for q in ds if q > 0]}, d
    except Odd:
        return None, ("C16.value", f"{tid}: an energy that no state has", d)
    except Exception as x:  # noqa: BLE001
        return None, ("C16.raised", f"{tid}: {type(x).__name__}: {x}", d)


def judge_bad(rep, prop, res, r):
    data = {run["id"]: d for run, d in res if run is not None}
    for run, d in res:
        if run is None:
            rep.violations.append(d)
    done = {x[1] for x in r.lines if x[0] == "DONE"}
    for x in r.lines:
        if x[0] == "BAD":
            for t in x[4]:
                if t == "*":
                    t = prop + ".outside"
                if t.startswith(prop):
                    rep.violations.append((t, f"{x[1]}, step {x[2]} {x[3]}", data[x[1]]))
    bad = {x[1] for x in r.lines if x[0] == "BAD"}
    missing = set(data) - done - bad
    if missing:
        raise common.Machinery(f"not followed to the end: {sorted(missing)[:3]}")
    rep.cov["traces_validated_against_impl"] += len(data)


def check_rates(rep, seed, count, sweeps):
    jobs = [(f"rate-{seed}-{k}", f"{seed}/rate/{k}", sweeps) for k in range(count)]
    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(rate_job, jobs, chunksize=1)
        res += pool.map(flips_job, [(f"flips-{seed}-{k}", f"{seed}/flips/{k}", sweeps) for k in range(count)], chunksize=1)
    runs = [x[0] for x in res if x[0] is not None]
    if runs:
        r = with_trace("SchedTrace", runs)
        rep.add_tlc(r)
        rep.cov["acceptance_counts"] = sum(len(x[2]) for x in r.lines if x[0] == "RATE")
        rep.cov["uphill_tries_counted"] = sum(c[2] for x in r.lines if x[0] == "RATE" for c in x[2])
        judge_bad(rep, "C16", res, r)
    else:
        for _, d in res:
            rep.violations.append(d)


# ---- C18: schedules -----------------------------------------------------
CHUNK = 20
RATES = [(1, 2), (3, 4), (9, 10), (1, 1), (99, 100), (1, 4), (11, 10)]


def sched_job(job):
    common.setup_env()
    import sawatabi

    tid, seed = job
    r = random.Random(seed)
    pr = problem(r, r.randint(1, 3), r.choice(["ising", "qubo"]))
    cp, cq = r.choice(RATES)
    sweeps = r.choice([1, 2, 3, 5, 8, 12, 20, 20, 60, 110, 300])
    reads = r.choice([1, 1, 2, 3, 7])
    T0 = r.choice([100.0, 8.0, 0.5, 37.0, 1, 1e-7, 1e7])
    opt = {"num_reads": reads, "num_sweeps": sweeps, "cooling_rate": cp / cq, "initial_temperature": T0, "pickup_mode": r.choice(["sequential", "random"]), "seed": r.randrange(1000), "need_stats": True}
    R, period = 0, -1
    k = r.random()
    if k < 0.55 and cp <= cq:
        R = r.choice([10.0, 2.5, 100, 1.0, 1e7])
        period = r.choice([0, 1, 2, 3, sweeps - 1, sweeps, sweeps + 3])
        opt["reverse_options"] = {"reverse_period": period, "reverse_temperature": R}
    elif k < 0.65:
        opt["reverse_options"] = {}
    elif k < 0.7:
        opt["reverse_options"] = None
    if r.random() < 0.4:
        vs = sorted({v for t, _ in pr["terms"] for v in t})
        opt["initial_states"] = [{v: native(pr["mtype"], r.choice([-1, 1])) for v in vs} for _ in range(reads)]
    d = {"problem": pr, "options": copy.deepcopy(opt)}
    return sched(tid, pr, opt, cp, cq, R, period, d)


def sched(tid, pr, opt, cp, cq, R, period, d):
    import sawatabi

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ph = build(pr)
            _, stats = sawatabi.solver.SawatabiSolver().solve(ph, **opt)
        # The history is judged in overlapping chunks, each in its own unit: a chunk starts at the temperature where the previous one ended.
        L = opt["num_sweeps"]
        if any(len(st[k]) != L for st in stats for k in ("temperature_history", "energy_history", "acceptance_history")) or len(stats) != opt["num_reads"]:
            return None, ("C18.length", f"{tid}: not one temperature, energy and acceptance count per sweep and read", d)
        head = min(L, CHUNK if period < 0 else max(0, min(period, L)) + CHUNK)
        cuts = [(0, head)]
        while cuts[-1][1] < L:
            cuts.append((cuts[-1][1] - 1, min(L, cuts[-1][1] - 1 + CHUNK)))
        runs = []
        for n, (a, b) in enumerate(cuts):
            first = n == 0
            T0 = float(opt["initial_temperature"] if first else stats[0]["temperature_history"][a])
            top = float(R) if first and period >= 0 else T0
            u = (top or 1.0) * max(1.0, (cp / cq) ** (b - a)) / 2 ** 23

            def enc(t):
                t = float(t) / u
                if math.isnan(t) or abs(t) > 2 ** 30:
                    raise Odd("C18")
                return int(round(t))
            reads = [{"th": [enc(t) for t in st["temperature_history"][a:b]], "nen": b - a, "nac": b - a} for st in stats]
            runs.append({"id": f"{tid}/{a}", "kind": "temp", "T0": enc(T0) if not first or period < 0 else 0, "R": enc(R) if first else 0, "period": period if first else -1, "cp": cp, "cq": cq,
                         "sweeps": b - a, "nreads": opt["num_reads"], "reads": reads})
        return runs, d
    except Odd:
        return None, ("C18.value", f"{tid}: a temperature that is not on the schedule", d)
    except Exception as x:  # noqa: BLE001
        return None, ("C18.raised", f"{tid}: {type(x).__name__}: {x}", d)


def check_sched(rep, seed, count):
    jobs = [(f"sched-{seed}-{k}", f"{seed}/sched/{k}") for k in range(count)]
    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(sched_job, jobs, chunksize=8)
    res = [(run, d) for runs, d in res for run in (runs if runs is not None else [None])]
    runs = [x[0] for x in res if x[0] is not None]
    if runs:
        r = with_trace("SchedTrace", runs)
        rep.add_tlc(r)
        judge_bad(rep, "C18", res, r)
        rep.cov["samples"].append(runs[0])
        rep.cov["temperatures_checked"] = sum(len(q["th"]) for run in runs for q in run["reads"])
    else:
        for _, d in res:
            rep.violations.append(d)


# ---- C17: sessions ------------------------------------------------------
def tok(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


def gens():
    import numpy as np

    s = np.random.get_state()
    return tok([random.getstate(), s[0], [int(k) for k in s[1]], int(s[2]), int(s[3]), float(s[4])])


def ph_token(ph):
    b = ph.to_bqm()
    return [sorted((str(k), float(v)) for k, v in b.linear.items()), sorted((sorted(map(str, k)), float(v)) for k, v in b.quadratic.items()), float(b.offset), b.vartype.name,
            sorted(ph._label_to_index.items()), ph.to_polynomial()]


def session_job(job):
    common.setup_env()
    import numpy as np
    import sawatabi

    tid, seed, length = job
    r = random.Random(seed)
    probs = [magnify(r, problem(r, r.randint(1, 5), r.choice(["ising", "qubo"])) if r.random() < 0.7 else wide(r, r.choice([9, 20]), r.choice(["ising", "qubo"]))) for _ in range(r.choice([1, 2, 2]))]
    plan = []
    opts = []
    for _ in range(r.choice([1, 2, 3])):
        pi = r.randrange(len(probs))
        reads = r.choice([1, 2, 3, 12])
        o = {"num_reads": reads, "num_sweeps": r.choice([1, 3, 10, 60]), "cooling_rate": r.choice([0.5, 0.9]), "initial_temperature": r.choice([1.0, 10.0]), "pickup_mode": r.choice(["sequential", "random"])}
        if r.random() < 0.35:
            o["reverse_options"] = {"reverse_period": 2, "reverse_temperature": 5.0}
        if r.random() < 0.5:
            vs = sorted({v for t, _ in probs[pi]["terms"] for v in t})
            o["initial_states"] = initial(r, probs[pi], vs, reads)
        if r.random() < 0.2:  # the defaults
            o = {k: v for k, v in o.items() if k in ("initial_states", "num_reads")}
        opts.append((pi, o))
    seeds = r.sample([0, 1, 5, 12345, 2 ** 31, 2 ** 40], 2)
    if r.random() < 0.6 and 0 not in seeds:
        seeds[0] = 0
    for _ in range(length):
        k = r.random()
        if k < 0.2:
            plan.append({"op": "draw", "how": r.choice(["np", "py", "npseed", "pyseed"])})
        elif k < 0.3:
            plan.append({"op": "local", "pi": r.randrange(len(probs)), "exact": r.random() < 0.5})
        else:
            plan.append({"op": "solve", "o": r.randrange(len(opts)), "seed": r.choice(seeds + seeds + [None]), "obj": r.choice([0, 1, -1]), "stats": r.random() < 0.5})
    return session(tid, probs, opts, plan)


def session(tid, probs, opts, plan):
    import numpy as np
    import sawatabi

    d = {"problems": probs, "options": copy.deepcopy(opts), "plan": plan}
    opts = copy.deepcopy(opts)
    ev = []
    objs = [sawatabi.solver.SawatabiSolver(), sawatabi.solver.SawatabiSolver()]
    random.seed(7)
    np.random.seed(7)
    try:
        phs = [build(p) for p in probs]
        for p in plan:
            if p["op"] == "draw":
                {"np": lambda: np.random.random(3), "py": lambda: random.random(), "npseed": lambda: np.random.seed(11), "pyseed": lambda: random.seed(11)}[p["how"]]()
                ev.append({"op": "draw"})
                continue
            e = {"op": "solve", "ok": True}
            if p["op"] == "local":
                ph = phs[p["pi"]]
                kw = {} if p["exact"] else {"num_reads": 2, "seed": 3, "num_sweeps": 10}
                i0 = tok([ph_token(ph), kw])
                e.update(key="", seeded=False, own=False, g0="", g1="", res="", in0=i0)
                try:
                    sawatabi.solver.LocalSolver(exact=p["exact"]).solve(ph, **kw)
                except Exception:  # noqa: BLE001
                    e["ok"] = False
                e["in1"] = tok([ph_token(ph), kw])
                ev.append(e)
                continue
            pi, o = opts[p["o"]]
            ph = phs[pi]
            sol = objs[p["obj"]] if p["obj"] >= 0 else sawatabi.solver.SawatabiSolver()
            e.update(key=f"{p['o']}/{p['seed']}/{p['stats']}", seeded=p["seed"] is not None, own=True, g0=gens(), in0=tok([ph_token(ph), o]), res="")
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    out = sol.solve(ph, seed=p["seed"], need_stats=p["stats"], **o)
                ss = out[0] if p["stats"] else out
                recs = sorted([sorted((str(k), int(v)) for k, v in x.sample.items()), float(x.energy), int(x.num_occurrences)] for x in ss.data())
                st = [[list(map(float, q[k])) for k in ("energy_history", "temperature_history", "acceptance_history")] for q in out[1]] if p["stats"] else 0
                e["res"] = tok([recs, st])
            except Exception as x:  # noqa: BLE001
                e["ok"] = False
                e["exc"] = str(x)
            e["g1"] = gens()
            e["in1"] = tok([ph_token(ph), o])
            ev.append(e)
    except Exception as x:  # noqa: BLE001
        return None, ("C17.raised", f"{tid}: {type(x).__name__}: {x}", d)
    return {"id": tid, "ev": ev}, d


def check_sessions(rep, seed, count, length):
    jobs = [(f"session-{seed}-{k}", f"{seed}/session/{k}", length) for k in range(count)]
    with mp.get_context("fork").Pool(8) as pool:
        res = pool.map(session_job, jobs, chunksize=4)
    runs = [x[0] for x in res if x[0] is not None]
    if runs:
        r = with_trace("ReproTrace", runs)
        rep.add_tlc(r)
        judge_bad(rep, "C17", res, r)
        rep.cov["samples"].append(runs[0])
        rep.cov["solves_judged"] = sum(1 for run in runs for e in run["ev"] if e["op"] == "solve")
    else:
        for _, d in res:
            rep.violations.append(d)


def mc(rep, module, repl=(), expect=None):
    """Exhaustive exploration; expect: the invariant that a refuted design variant must violate."""
    work = common.scratch()
    try:
        with open(os.path.join(common.SPEC, module + ".cfg")) as f:
            cfg = f.read()
        for a, b in repl:
            if a not in cfg:
                raise common.Machinery(f"{module}.cfg does not contain {a}")
            cfg = cfg.replace(a, b)
        path = os.path.join(work, "mc.cfg")
        with open(path, "w") as f:
            f.write(cfg)
        r = common.tlc(module, cfg=path)
    finally:
        import shutil

        shutil.rmtree(work, ignore_errors=True)
    if r.violated not in (expect if isinstance(expect, tuple) else (expect,)):
        raise common.Machinery(f"{module}: expected {expect}, TLC says {r.violated}\n{r.out[-2500:]}")
    if expect is None:
        rep.add_tlc(r)
    else:
        rep.cov["refuted_designs"] = rep.cov.get("refuted_designs", 0) + 1
    return r


def run(prop, tier, seed):
    rep = common.Report(prop, tier, seed)
    q = tier == "quick"
    rep.assumptions = ["coefficients are multiples of 1/2, so that energies are exact in binary floating point",
                       "index order of the physical model is taken as the order of sequential pickup"]
    if prop == "C16":
        mc(rep, "AnnealMC", [] if q else [("Sweeps = 2", "Sweeps = 3")])
        mc(rep, "AnnealMC", [("sequential", "random")])
        check_chains(rep, seed, 300 if q else 800, not q)
        check_rates(rep, seed, 16 if q else 60, 3000 if q else 8000)
        rep.assumptions.append("acceptance probabilities: counts within 6.7 standard deviations; increases with probability below 1e-15 count as impossible")
    elif prop == "C18":
        mc(rep, "AnnealMC")
        check_sched(rep, seed, 600 if q else 6000)
    elif prop == "C17":
        mc(rep, "ReproMC", [] if q else [("Len_ = 4", "Len_ = 5")])
        for v in ("shared", "global", "falsy"):
            mc(rep, "ReproMC", [('"design"', f'"{v}"')], expect="Reproducible")
        check_sessions(rep, seed, 250 if q else 1500, 12)
    return rep.finish()


def replay(path):
    common.setup_env()
    j = json.load(open(path))
    d = j["replay"]
    rep = common.Report(j["property"], "quick", 0)
    if "plan" in d:
        res = session("replay", d["problems"], d["options"], d["plan"])
        if res[0] is not None:
            judge_bad(rep, "C17", [res], with_trace("ReproTrace", [res[0]]))
    elif j["property"] == "C16" and "rate" not in j["clause"]:
        judge_chains(rep, [chain("replay", d["problem"], d["options"], d)])
    else:
        print(json.dumps(d)[:2000])
    for v in rep.violations:
        print(v[0], v[1])
    return 1 if rep.violations else 0
