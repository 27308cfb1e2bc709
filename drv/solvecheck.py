"""C14, C15, C19: the solvers against Solve.tla."""
import copy
import gzip
import http.server
import json
import multiprocessing as mp
import os
import random
import shutil
import threading
import warnings

import common
from annealcheck import build, components, energy, initial, judge_bad, mag, magnify, mc, poly, problem, wide, with_trace  # noqa: F401
from modeldrv import UE, Odd, units


# ---- problems with a history --------------------------------------------
def decorate(r, pr):
    """The same problem, stated by several interactions, with scales, removed and cancelling ones."""
    ops, used = [], {v for t, _ in pr["terms"] for v in t}
    pool = [f"{nm}[{k}]" for nm, sz in pr["arrays"] for k in range(sz)]
    others = [v for v in pool if v not in used]
    n = [0]

    def name():
        n[0] += 1
        return r.choice([f"n{n[0]}", f"a b{n[0]}", f"{n[0]}"])

    for t, c in pr["terms"]:
        k = r.random()
        t = list(t)
        if len(t) == 2 and r.random() < 0.5:
            t.reverse()
        if k < 0.2:
            ops.append(["add", t, c / 2, 2.0, name()])
        elif k < 0.3:
            ops.append(["add", t, -c, -1.0, name()])
        elif k < 0.5:
            ops.append(["add", t, c - 1.5, 1.0, name()])
            ops.append(["add", t[::-1], 1.5, 1.0, name()])
        elif k < 0.6:
            nm = name()
            ops.append(["add", t, 7.0, 1.0, nm])
            ops.append(["update", nm, c])
        else:
            ops.append(["add", t, c, 1.0, None])
    for _ in range(r.choice([0, 0, 1, 2])):
        v, w = r.choice(pool), r.choice(others)
        if v == w:
            continue
        t = r.choice([[w], [v, w], [w, v]])
        if r.random() < 0.5:
            nm = name()
            ops.append(["add", t, r.choice([1.0, -2.0]), 1.0, nm])
            ops.append(["remove", nm])
        else:
            c = r.choice([1.0, 0.5, -2.0])
            ops.append(["add", t, c, 1.0, name()])
            ops.append(["add", t[::-1], -c, 1.0, name()])
    head = [o for o in ops if o[0] == "add"]
    r.shuffle(head)
    pr = dict(pr, ops=head + [o for o in ops if o[0] != "add"])
    return pr


def build2(pr):
    if "ops" not in pr:
        return build(pr)
    import sawatabi

    m = sawatabi.model.LogicalModel(mtype=pr["mtype"])
    arr = {nm: m.variables(nm, shape=(sz,)) for nm, sz in pr["arrays"]}

    def var(label):
        nm, k = label[:-1].split("[")
        return arr[nm][int(k)]
    for o in pr["ops"]:
        if o[0] == "add":
            t = var(o[1][0]) if len(o[1]) == 1 else (var(o[1][0]), var(o[1][1]))
            kw = {"name": o[4]} if o[4] else {}
            m.add_interaction(t, coefficient=o[2] * mag(pr), scale=o[3], **kw)
        elif o[0] == "update":
            m.update_interaction(name=o[1], coefficient=o[2] * mag(pr))
        else:
            m.remove_interaction(name=o[1])
    m.offset(pr["off"] * mag(pr))
    return m.to_physical()


def build_logical(pr):
    import sawatabi

    m = sawatabi.model.LogicalModel(mtype=pr["mtype"])
    x = m.variables("x", shape=(2,))
    m.add_interaction(x[0], coefficient=1.0)
    return m


def empties(mtype):
    """Models without any term."""
    import sawatabi

    L = sawatabi.model.LogicalModel

    def none():
        return L(mtype=mtype).to_physical()

    def offset():
        m = L(mtype=mtype)
        m.variables("x", shape=(2,))
        m.offset(3.0)
        return m.to_physical()

    def cancelled():
        m = L(mtype=mtype)
        x = m.variables("x", shape=(2,))
        m.add_interaction((x[0], x[1]), name="a", coefficient=1.0)
        m.add_interaction((x[1], x[0]), name="b", coefficient=-1.0)
        return m.to_physical()

    def removed():
        m = L(mtype=mtype)
        x = m.variables("x", shape=(2,))
        m.add_interaction(x[0], name="a", coefficient=1.0)
        m.remove_interaction(name="a")
        return m.to_physical()

    def direct():
        return sawatabi.model.PhysicalModel(mtype=mtype)
    return {"empty": none, "offset": offset, "cancelled": cancelled, "removed": removed, "direct": direct}


def answer(ss, P="C14", g=1.0):
    ans = []
    for rec in ss.data(fields=["sample", "energy", "num_occurrences"], sorted_by=None):
        ans.append({"s": {str(k): int(v) for k, v in rec.sample.items()}, "e": units(rec.energy / g, UE, P), "n": int(rec.num_occurrences)})
    return ans


def first(ss, g=1.0):
    f = ss.first
    return {"s": {str(k): int(v) for k, v in f.sample.items()}, "e": units(f.energy / g, UE, "C15")}


# ---- stand-in for the quantum annealer ----------------------------------
QPU = {"seed": 0, "samples": 0}


def fake_qpu():
    """Replaces the remote part of DWaveSampler; the embedding is the real one."""
    import dimod
    import numpy as np
    from dwave.system.samplers import DWaveSampler

    nodes = list(range(24))

    def init(self, *a, **kw):
        pass

    def sample(self, bqm, num_reads=1, **kw):
        QPU["samples"] += 1
        rng = np.random.RandomState(QPU["seed"])
        vs = list(bqm.variables)
        lo = -1 if bqm.vartype is dimod.SPIN else 0
        st = np.where(rng.rand(num_reads, len(vs)) < 0.5, lo, 1)
        return dimod.SampleSet.from_samples_bqm((st, vs), bqm, info={"problem_id": "stand-in"})
    DWaveSampler.__init__ = init
    DWaveSampler.sample = sample
    DWaveSampler.sample_ising = lambda self, h, J, **kw: sample(self, dimod.BQM.from_ising(h, J), **kw)
    DWaveSampler.sample_qubo = lambda self, Q, **kw: sample(self, dimod.BQM.from_qubo(Q), **kw)
    DWaveSampler.nodelist = nodes
    DWaveSampler.edgelist = [(i, j) for i in nodes for j in nodes if i < j]
    DWaveSampler.adjacency = {i: [j for j in nodes if j != i] for i in nodes}
    DWaveSampler.properties = {"category": "qpu", "topology": {"type": "stand-in", "shape": [24]}}
    DWaveSampler.parameters = {"num_reads": [], "annealing_time": []}


# ---- stand-in for the remote annealer -----------------------------------
class Server:
    def __init__(self):
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            def do_POST(self):
                body = self.rfile.read(int(self.headers.get("Content-Length", 0)))
                status, out, gz, extra = outer.handle(self.path, dict(self.headers.items()), body)
                data = out if isinstance(out, bytes) else json.dumps(out).encode()
                if gz:
                    data = gzip.compress(data)
                self.send_response(status)
                if gz:
                    self.send_header("Content-Encoding", "gzip")
                self.send_header("Content-Type", "application/json")
                self.send_header("Content-Length", str(len(data)))
                self.end_headers()
                self.wfile.write(data)

            def do_GET(self):
                outer.net.append(None)
                self.send_response(405)
                self.end_headers()

            def log_message(self, *a):
                pass
        self.net = []
        self.script = None
        self.mag = 1.0
        self.httpd = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.httpd.daemon_threads = True
        threading.Thread(target=self.httpd.serve_forever, args=(0.01,), daemon=True).start()
        self.base = f"http://127.0.0.1:{self.httpd.server_address[1]}"

    def handle(self, path, headers, body):
        h = {k.lower(): v for k, v in headers.items()}
        gz = body[:2] == b"\x1f\x8b"
        raw = gzip.decompress(body) if gz else body
        try:
            p = json.loads(raw.decode("utf-8"))
            q = {"target": path, "token": h.get("authorization", ""), "steps": p.get("num_unit_steps"), "timeout": p.get("timeout"),
                 "dup": p.get("outputs") is not None and p["outputs"].get("duplicate") is True and p["outputs"].get("num_outputs") == 0, "ce": h.get("content-encoding") == "gzip", "gz": gz,
                 "acc": "gzip" in h.get("accept-encoding", ""), "poly": [[int(i), int(j), units(v / self.mag, UE, "C19")] for i, j, v in p["polynomial"]]}
        except (Odd, ValueError, KeyError, TypeError):
            q = None
        self.net.append(q)
        s = self.script
        if q is None:
            return 400, {"error": "scripted"}, False, {}
        if s["status"] != 200 and not s.get("body"):
            return s["status"], {"error": "scripted"}, False, {}
        es = []
        for row in s["rows"]:
            try:
                es.append(sum(v * row[i] * row[j] for i, j, v in q["poly"]))
            except IndexError:
                es.append(0)
        s["es"] = es
        out = {"spins": s["rows"], "energies": [e / UE * self.mag for e in es], "feasibilities": [True] * len(es), "annealing_time": 12.5}
        s["out"] = out
        return s["status"], out, s["gzip"] and q["acc"], {}

    def close(self):
        self.httpd.shutdown()
        self.httpd.server_close()


# ---- one run ------------------------------------------------------------
def plan_job(r, prop, big):
    mtype = r.choice(["ising", "qubo"])
    if prop == "C19":
        mtype = "qubo" if r.random() < 0.8 else "ising"
    n = r.randint(1, 9 if big and prop == "C15" else 7 if prop == "C15" else 6)
    if prop != "C15" and r.random() < 0.25:
        n = r.choice([9, 12, 20, 33])
        pr = wide(r, n, mtype)
    else:
        pr = problem(r, n, mtype)
    magnify(r, pr)
    if r.random() < 0.7:
        pr = decorate(r, pr)
    calls = []

    def remote():
        k = r.choice([1, 1, 2, 3, 5, 40])
        rows = [[r.choice([0, 1]) for _ in range(n)] for _ in range(k)]
        if r.random() < 0.5:
            rows.append(list(rows[0]))
        if r.random() < 0.3:
            rows.insert(1, list(rows[-1]))
        return {"kind": "remote", "via": r.choice(["args", "config", "home", "both"]), "rows": rows, "status": r.choice([200] * 6 + [300, 302, 303, 400, 401, 404, 418, 429, 500, 502, 503, 599]), "body": r.random() < 0.7, "gzip": r.random() < 0.5,
                "kw": {k: v for k, v in {"num_unit_steps": r.choice([1, 20, 1000, 2000000]), "timeout": r.choice([0, 1, 500, 60000, 3600000]), "duplicate": r.random() < 0.5,
                                         "gzip_request": r.random() < 0.5, "gzip_response": r.random() < 0.5}.items() if r.random() < 0.7}}
    kinds = {"C14": ["exact", "sa", "sawatabi", "dwave", "remote"], "C15": ["exact"], "C19": ["remote"] * 3}[prop]
    for k in kinds:
        reads = r.choice([1, 2, 5, 20, 150])
        if k == "remote":
            if mtype == "qubo":
                calls.append(remote())
        elif k == "exact":
            if n > 9:
                continue
            calls.append({"kind": k, "reads": 2 ** n, "kw": {}})
        elif k == "sa":
            calls.append({"kind": k, "reads": reads, "kw": {"num_reads": reads, "num_sweeps": r.choice([1, 10]), "seed": r.randrange(1000)}})
        elif k == "sawatabi":
            o = {"num_reads": reads, "num_sweeps": r.choice([0, 1, 5, 5, 40]), "cooling_rate": 0.9, "initial_temperature": r.choice([1.0, 100.0]), "seed": r.randrange(1000),
                 "pickup_mode": r.choice(["sequential", "random"])}
            if r.random() < 0.4:
                vs = sorted({v for t, _ in pr["terms"] for v in t})
                o["initial_states"] = initial(r, pr, vs, reads)
            calls.append({"kind": k, "reads": reads, "kw": o})
        elif k == "dwave":
            if n > 20:
                continue
            calls.append({"kind": k, "reads": reads, "kw": {"num_reads": reads}, "seed": r.randrange(1000),
                          "init": r.choice([{}, {"endpoint": "https://e", "token": "t"}, {"embedding_parameters": {"tries": 2}}])})
    r.shuffle(calls)
    if prop in ("C14", "C19"):
        whos = ["exact", "sa", "sawatabi", "dwave", "remote"] if prop == "C14" else ["remote"]
        for _ in range(1 if prop == "C14" else 2):
            what = r.choice(["empty", "offset", "cancelled", "removed", "direct", "logical", "none", "dict"])
            calls.insert(r.randrange(len(calls) + 1), {"kind": "reject", "who": r.choice(whos), "what": what, "mtype": r.choice(["ising", "qubo"])})
        if prop == "C19" and mtype == "ising":
            calls.append({"kind": "reject", "who": "remote", "what": "ising", "mtype": "ising"})
    if prop == "C15" and r.random() < 0.2:
        pass
    return {"problem": pr, "calls": calls}


def job(args):
    common.setup_env()
    if isinstance(args[1], dict):
        return execute(*args)
    tid, seed, prop, big = args
    r = random.Random(seed)
    return execute(tid, plan_job(r, prop, big), prop)


def solver_of(kind, call, home):
    import sawatabi

    S = sawatabi.solver
    if kind == "exact":
        return S.LocalSolver(exact=True)
    if kind == "sa":
        return S.LocalSolver() if call.get("seed", 0) == 0 else S.LocalSolver(exact=False)
    if kind == "sawatabi":
        return S.SawatabiSolver()
    if kind == "dwave":
        return S.DWaveSolver(**call.get("init", {}))


def execute(tid, plan, prop):
    """Runs the calls of a plan; returns (run, plan) or (None, violation)."""
    import sawatabi

    pr = plan["problem"]
    d = copy.deepcopy(plan)
    work = common.scratch("opt")
    old = os.environ.get("HOME")
    os.environ["HOME"] = work
    srv = Server()
    srv.mag = mag(pr)
    ev = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ph = build2(pr)
            run = {"id": tid, "mtype": pr["mtype"], "poly": poly(pr), "ev": ev}

            def remote_solver(via, k):
                def conf(name, tgt, tok):
                    with open(os.path.join(work, name), "w") as f:
                        f.write(f"api:\n    endpoint: {srv.base}{tgt}\n    token: {tok}\n")
                    return os.path.join(work, name)
                tgt, tok = f"/call{k}", f"token{k}"
                for f in (".optigan.yml", "conf.yml"):
                    if os.path.exists(os.path.join(work, f)):
                        os.unlink(os.path.join(work, f))
                if via == "args":
                    return sawatabi.solver.OptiganSolver(endpoint=srv.base + tgt, token=tok), tgt, tok
                if via == "both":
                    conf(".optigan.yml", "/decoy", "decoy")
                    return sawatabi.solver.OptiganSolver(endpoint=srv.base + tgt, token=tok, config=conf("conf.yml", "/decoy2", "decoy2")), tgt, tok
                if via == "config":
                    conf(".optigan.yml", "/decoy", "decoy")
                    return sawatabi.solver.OptiganSolver(config=conf("conf.yml", tgt, tok)), tgt, tok
                conf(".optigan.yml", tgt, tok)
                return sawatabi.solver.OptiganSolver(), tgt, tok

            for k, c in enumerate(plan["calls"]):
                srv.net = []
                srv.script = {"status": 200, "rows": [], "gzip": False}
                e = {"op": "solve", "kind": c["kind"], "ok": True, "reads": c.get("reads", 0), "ans": [], "first": {"s": {"-": 0}, "e": 0}}
                if c["kind"] == "reject":
                    e = {"op": "reject", "what": c["what"], "raised": False, "net": []}
                    try:
                        if c["what"] == "logical":
                            m = build_logical(dict(pr, mtype=c["mtype"]))
                        elif c["what"] == "none":
                            m = None
                        elif c["what"] == "dict":
                            m = {"x[0]": 1.0}
                        elif c["what"] == "ising":
                            m = ph
                        else:
                            m = empties(c["mtype"])[c["what"]]()
                        sol = remote_solver("args", k)[0] if c["who"] == "remote" else solver_of(c["who"], c, work)
                    except Exception as x:  # noqa: BLE001
                        return None, ("C14.raised", f"{tid}: {type(x).__name__}: {x}", d)
                    kw = {"num_reads": 1, "num_sweeps": 1} if c["who"] in ("sa", "sawatabi") else {}
                    q0 = QPU["samples"]
                    try:
                        sol.solve(m, **kw)
                    except Exception:  # noqa: BLE001
                        e["raised"] = True
                    e["net"] = [x or {} for x in srv.net] + [{}] * (QPU["samples"] - q0)
                    ev.append(e)
                    continue
                try:
                    if c["kind"] == "remote":
                        sol, tgt, tok = remote_solver(c["via"], k)
                        srv.script = {"status": c["status"], "rows": c["rows"], "gzip": c["gzip"], "body": c.get("body", False), "es": [], "out": None}
                        kw = dict(c["kw"])
                        e["call"] = {"target": tgt, "token": f"Bearer {tok}", "steps": kw.get("num_unit_steps", 10), "timeout": kw.get("timeout", 10000), "dup": kw.get("duplicate", False),
                                     "gzreq": kw.get("gzip_request", True), "gzresp": kw.get("gzip_response", True)}
                        e["idx"] = {str(a): int(b) for a, b in ph._label_to_index.items()}
                        e["info"] = False
                        e["reads"] = len(c["rows"])
                        try:
                            ss = sol.solve(ph, **kw)
                            e["ans"] = answer(ss, "C19", mag(pr))
                            e["info"] = dict(ss.info) == srv.script["out"]
                        except Odd:
                            raise
                        except Exception as x:  # noqa: BLE001
                            e["ok"] = False
                            e["exc"] = f"{type(x).__name__}: {x}"
                        e["net"] = [x if x is not None else {"target": "", "token": "", "steps": -1, "timeout": -1, "dup": False, "ce": False, "gz": True, "acc": False, "poly": []} for x in srv.net]
                        e["reply"] = {"status": c["status"], "rows": c["rows"], "es": srv.script["es"]}
                        if c["status"] == 200 and len(srv.script["es"]) != len(c["rows"]):
                            e["reply"]["es"] = [0] * len(c["rows"])
                    else:
                        QPU["seed"] = c.get("seed", 0)
                        sol = solver_of(c["kind"], c, work)
                        try:
                            ss = sol.solve(ph, **copy.deepcopy(c["kw"]))
                            e["ans"] = answer(ss, g=mag(pr))
                            if c["kind"] == "exact":
                                e["first"] = first(ss, mag(pr))
                        except Odd:
                            raise
                        except Exception as x:  # noqa: BLE001
                            e["ok"] = False
                            e["exc"] = f"{type(x).__name__}: {x}"
                except Odd:
                    return None, (f"{prop}.value", f"{tid}: call {k} ({c['kind']}) reports an energy that no assignment has", d)
                ev.append(e)
        return run, d
    except Exception as x:  # noqa: BLE001
        return None, (f"{prop}.raised", f"{tid}: {type(x).__name__}: {x}", d)
    finally:
        srv.close()
        if old is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = old
        shutil.rmtree(work, ignore_errors=True)


def judge(rep, prop, res):
    runs = [x[0] for x in res if x[0] is not None]
    if not runs:
        rep.violations.extend(d for _, d in res)
        return
    for part in range(0, len(runs), 1500):
        chunk = runs[part:part + 1500]
        ids = {x["id"] for x in chunk}
        r = with_trace("SolveTrace", chunk)
        rep.add_tlc(r)
        judge_bad(rep, prop, [x for x in res if x[0] is not None and x[0]["id"] in ids], r)
    rep.violations.extend(d for run, d in res if run is None)
    kinds = {}
    for run in runs:
        for e in run["ev"]:
            k = e.get("kind", "reject")
            kinds[k] = kinds.get(k, 0) + 1
    for k, v in kinds.items():
        rep.cov["calls_" + k] = rep.cov.get("calls_" + k, 0) + v
    rep.cov["samples_judged"] = rep.cov.get("samples_judged", 0) + sum(len(e.get("ans", [])) for run in runs for e in run["ev"])
    rep.cov["samples"].append(runs[0])


def plan_problem(terms, mtype):
    arr = [["x", 12]]
    return {"mtype": mtype, "arrays": arr, "terms": [[m, -v / 2] for m, v in terms if m], "off": sum(v / 2 for m, v in terms if not m)}


def plan_exec(args):
    common.setup_env()
    tid, plan, prop = args
    return execute(tid, plan, prop)


def from_spec(rep, prop, seed, count):
    """Behaviours of SolveMC replayed on the real solvers."""
    kind = "exact" if prop in ("C14", "C15") else "remote"
    r = mc(rep, "SolveMC", [("Emit = FALSE", "Emit = TRUE"), ('"remote"', f'"{kind}"')])
    plans = [json.loads(x) for x in sorted({json.dumps(x) for x in r.lines if x[0] == "PLAN"})]
    rep.cov["spec_behaviours"] = len(plans)
    rnd = random.Random(f"{seed}/{prop}")
    if len(plans) > count:
        plans = rnd.sample(plans, count)
    jobs = []
    for k, (_, terms, mtype, rows, status) in enumerate(plans):
        pr = plan_problem(terms, mtype)
        if kind == "exact":
            n = len({v for t, _ in pr["terms"] for v in t})
            calls = [{"kind": "exact", "reads": 2 ** n, "kw": {}}]
        else:
            calls = [{"kind": "remote", "via": "args", "rows": rows, "status": status, "gzip": bool(k % 2), "kw": {}}]
        jobs.append((f"spec-{k}", {"problem": pr, "calls": calls}, prop))
    return pool_map(plan_exec, jobs)


def pool_map(f, jobs):
    fake_qpu()
    with mp.get_context("fork").Pool(8) as pool:
        return pool.map(f, jobs, chunksize=4)


def run(prop, tier, seed):
    rep = common.Report(prop, tier, seed)
    q = tier == "quick"
    rep.assumptions = ["coefficients are multiples of 1/2, so that energies are exact in binary floating point"]
    res = from_spec(rep, prop, seed, 150 if q else 3000)
    if prop == "C14":
        rep.assumptions.append("the remote annealer is a loopback HTTP server, the quantum processor a stand-in below the real embedding composite; both return arbitrary samples of the problem they were sent")
        mc(rep, "SolveMC", [('"design"', '"nooffset"')], expect=("InvTrue", "InvBag"))
        mc(rep, "SolveMC", [('"design"', '"wrongdiff"'), ('"remote"', '"exact"')], expect="InvTrue")
        jobs = [(f"solve-{seed}-{k}", f"{seed}/C14/{k}", prop, not q) for k in range(150 if q else 2500)]
    elif prop == "C15":
        for v in ("twice", "worst"):
            mc(rep, "SolveMC", [('"design"', f'"{v}"'), ('"remote"', '"exact"')], expect=("InvExact", "InvTrue"))
        jobs = [(f"exact-{seed}-{k}", f"{seed}/C15/{k}", prop, not q) for k in range(250 if q else 3000)]
    else:
        for v, inv in (("labels", ("InvBag", "InvTrue")), ("ignorestatus", "InvStatus"), ("retry", "InvOne"), ("noagg", "InvReads"), ("lostcount", ("InvReads", "InvBag")), ("late", "InvNone")):
            mc(rep, "SolveMC", [('"design"', f'"{v}"')], expect=inv)
        jobs = [(f"remote-{seed}-{k}", f"{seed}/C19/{k}", prop, not q) for k in range(250 if q else 4000)]
    if prop == "C15":  # many variables
        r = random.Random(f"{seed}/wide")
        for k, n in enumerate([10, 13, 13] if q else [10, 12, 13, 14, 15]):
            pr = magnify(r, wide(r, n, r.choice(["ising", "qubo"])))
            jobs.append((f"wide-{seed}-{k}", {"problem": pr, "calls": [{"kind": "exact", "reads": 2 ** n, "kw": {}}]}, prop))
    if prop == "C19":  # a request of more than 64 KB
        r = random.Random(f"{seed}/dense")
        for k in range(1 if q else 4):
            vs = [f"{nm}[{i}]" for nm, sz in (("x", 40), ("y", 26)) for i in range(sz)]
            terms = [[[a], r.choice([1.0, -2.5, 0.5])] for a in vs if r.random() < 0.5] + [[[a, b], r.choice([1.0, -2.5, 0.5])] for i, a in enumerate(vs) for b in vs[i + 1:]]
            r.shuffle(terms)
            pr = {"mtype": "qubo", "arrays": [["x", 40], ["y", 26]], "terms": terms, "off": 1.5, "mag": 2.0 ** -30}
            jobs.append((f"dense-{seed}-{k}", {"problem": pr, "calls": [{"kind": "remote", "via": "args", "rows": [[r.choice([0, 1]) for _ in vs] for _ in range(2)], "status": 200, "gzip": True, "kw": {"gzip_request": z}} for z in (True, False)]}, prop))
    res += pool_map(job, jobs)
    judge(rep, prop, res)
    return rep.finish()


def replay(path):
    common.setup_env()
    fake_qpu()
    j = json.load(open(path))
    rep = common.Report(j["property"], "quick", 0)
    judge(rep, j["property"], [execute("replay", j["replay"], j["property"])])
    for v in rep.violations:
        print(v[0], v[1])
    return 1 if rep.violations else 0
