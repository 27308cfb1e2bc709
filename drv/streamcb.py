"""Callbacks and stand-ins that run inside the pipelines (importable, so that Beam pickles them by name)."""
import copy
import hashlib
import json
import math
import random

import apache_beam as beam

CTX = {"per": 1000}
LOG = []
ONE = 100000


class Boom(Exception):
    pass


def ms(t):
    """A time in ticks: milliseconds, or microseconds in runs with times that fine."""
    return int(round(float(t) * CTX["per"]))


def tm(t):
    """A time, counted from the start of the trace."""
    return ms(t) - CTX["shift"]


def end_of(t_ms):
    """End of the window with this timestamp (Beam: just before the end)."""
    grid = CTX["per"] // 4
    return int(math.ceil(t_ms / grid - 1e-9)) * grid


def data_token(d):
    return json.dumps(d, sort_keys=True)


def elems(seq):
    return [{"i": int(e[1][0]), "t": tm(e[0]), "d": data_token(e[1][1])} for e in seq]


def h(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


def num(v):
    return float(v) if isinstance(v, (int, float)) else str(v)


def txt(v):
    return str(num(v))


def live(model):
    df = model.select_interaction("removed == False")
    out = []
    for rec in df.to_dict("records"):
        at = {k: (v if not hasattr(v, "item") else v.item()) for k, v in rec.items() if isinstance(k, str) and k.startswith("attributes.") and v == v}
        out.append((rec, at))
    return out


def constraints(model):
    """Content of the constraints of a model."""
    out = []
    for label, c in sorted(model.get_constraints().items()):
        sets = [c.get_variables()] if hasattr(c, "get_variables") else [c.get_variables_1(), c.get_variables_2()]
        out.append([label, type(c).__name__, [sorted(v.label for v in s) for s in sets], num(c.get_strength()), num(c.get_n()) if hasattr(c, "get_n") else 0])
    return out


def digest(model):
    """Token of the content of a logical model: everything but what to_physical() may clean up."""
    model = copy.deepcopy(model)
    withscale = CTX["alg"] != "attenuation"
    rows = sorted([str(r["name"]), str(r["key"]), num(r["coefficient"]), num(r["scale"]) if withscale else 0, float(r["timestamp"]), sorted((k, txt(v)) for k, v in at.items())] for r, at in live(model))
    return h([rows, num(model.get_offset()), model.get_mtype(), {n: list(map(int, a.shape)) for n, a in model.get_variables().items()}, constraints(model),
              sorted(model.get_deleted_array()), sorted(model.get_fixed_array())])


def age(t):
    """The age attribute for a time: in other units, from another start."""
    b, f = CTX["ages"]
    return b + (t - CTX["base"]) * f


def rows(model):
    key = CTX["key"]
    b, f = CTX["ages"]
    model = copy.deepcopy(model)  # reading must not change what comes next
    out = {"_": {"key": False, "t": 0, "s": 0, "rest": ""}}
    for r, at in live(model):
        k = key in at
        out[str(r["name"])] = {"key": k, "t": int(round((at[key] - b) / f * 4)) if k else 0, "s": int(round(float(r["scale"]) * ONE)),
                               "rest": h([str(r["key"]), num(r["coefficient"]), float(r["timestamp"]), sorted((a, txt(v)) for a, v in at.items())])}
    rest = h([num(model.get_offset()), model.get_mtype(), {n: list(map(int, a.shape)) for n, a in model.get_variables().items()}, constraints(model), sorted(model.get_deleted_array()), sorted(model.get_fixed_array())])
    return out, rest


def smp_token(s):
    if s is None:
        return ""
    if hasattr(s, "info"):
        return f"S{s.info.get('tok')}/{h([float(e) for e in s.record.energy])}"
    return json.dumps(s)


def boom(step, k, when):
    f = CTX["faults"].get(f"{step}/{k}")
    if f and f["when"] == when:
        msg = f"boom{step[0]}{k}"
        if f["kind"] == "args":
            raise Boom(1, msg)
        raise {"conn": ConnectionError, "os": OSError, "assert": AssertionError, "attr": AttributeError, "index": IndexError, "over": OverflowError, "runtime": RuntimeError, "impl": NotImplementedError,
               "lookup": LookupError, "exc": Exception, "import": ImportError, "memory": MemoryError, "eof": EOFError, "name": NameError, "buffer": BufferError, "system": SystemError, "warn": UserWarning, "float": FloatingPointError, "timeout": TimeoutError, "recursion": RecursionError, "value": ValueError, "key": KeyError, "own": Boom, "type": TypeError, "stop": StopIteration, "zero": ZeroDivisionError}[f["kind"]](msg)


def count(step):
    CTX["n"][step] = CTX["n"].get(step, 0) + 1
    return CTX["n"][step]


# ---- mapping -------------------------------------------------------------
def map_fn(prev_model, prev_sampleset, elements, incoming, outgoing):
    k = count("map")
    c = {"fn": "map", "k": k, "el": elems(elements), "inc": elems(incoming), "out": elems(outgoing), "ok": False, "msg": "", "ret": "", "rows": {"_": 0}, "rest": "",
         "model": digest(prev_model), "mtype": prev_model.get_mtype(), "smp": smp_token(prev_sampleset),
         "empty": not live(copy.deepcopy(prev_model)) and num(prev_model.get_offset()) == 0.0 and not prev_model.get_variables() and not prev_model.get_constraints()}
    LOG.append(c)
    boom("map", k, "before")
    model = MAPS[CTX["style"]](prev_model, prev_sampleset, elements, incoming, outgoing, k)
    boom("map", k, "after")
    c["ret"] = digest(model)
    if CTX["alg"] == "attenuation":
        c["rows"], c["rest"] = rows(model)
    c["ok"] = True
    return model


def map_token(m, smp, elements, incoming, outgoing, k):
    import sawatabi

    r = random.Random(f"{CTX['seed']}/map/{k}")
    how = r.random() if not CTX["rich"] else 1.0
    if how < 0.2:
        m = m.empty()
    elif how < 0.35:
        m = sawatabi.model.LogicalModel(mtype=m.get_mtype())
    x = m.append("x", (1,))
    n = x.shape[0]
    names = [str(rec["name"]) for rec, _ in live(m)]
    if names and r.random() < 0.4:
        m.remove_interaction(name=r.choice(names))
    m.add_interaction(x[n - 1], name=f"i{k}", coefficient=float(r.choice([1, 2, -3])), scale=r.choice([1.0, 0.5]), attributes={"a": k}, timestamp=float(k))
    if n > 1 and r.random() < 0.5:
        m.add_interaction((x[0], x[n - 1]), name=f"q{k}", coefficient=0.5)
    boom("map", k, "middle")
    m.offset(float(1000 + k))
    extras(m, x, k, r)
    if r.random() < 0.1:  # the model may be of another type than the first one
        m.to_ising() if m.get_mtype() == "qubo" else m.to_qubo()
    return m


FEED = {"P": 2.0, "Q": -0.5}


def extras(m, x, k, r):
    """The rest of what a model can hold: constraints, deleted and fixed variables, placeholders."""
    import pyqubo
    from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint

    n = x.shape[0]
    some = [x[i] for i in range(n) if r.random() < 0.6]
    some = some if len(some) > 1 or n < 2 else [x[0], x[n - 1]]
    if n > 1 and r.random() < (0.25 if not CTX["rich"] else 0.7):
        kind, strength, label = r.random(), float(r.choice([1, 3, 0.5])), f"c{r.randrange(3)}"
        if kind < 0.4:
            m.add_constraint(NHotConstraint(variables=some, n=r.choice([1, 2]), strength=strength, label=label))
        elif kind < 0.7:
            m.add_constraint(EqualityConstraint(variables_1=some[::2], variables_2=some[1::2], strength=strength, label=label))
        else:
            m.add_constraint(ZeroOrOneHotConstraint(variables=some, strength=strength, label=label))
    if m.get_constraints() and r.random() < 0.15:
        m.remove_constraint(sorted(m.get_constraints())[0])
    if n > 1 and r.random() < 0.15:
        m.delete_variable(x[r.randrange(n)])
    if n > 1 and CTX["alg"] != "attenuation" and r.random() < 0.1:
        m.fix_variable(x[r.randrange(n)], 1)
    if n > 1 and r.random() < 0.25:
        m.add_interaction(x[r.randrange(n)], name=f"p{k}", coefficient=pyqubo.Placeholder(r.choice(["P", "Q"])) * float(r.choice([1, -2])) + r.choice([0.0, 1.0]))


def map_att(m, smp, elements, incoming, outgoing, k):
    r = random.Random(f"{CTX['seed']}/att/{k}")
    key = CTX["key"][len("attributes."):]
    top = max([e[1][0] for e in incoming], default=-1)
    size = m.get_all_size()
    if top >= size:
        x = m.append("x", (top - size + 1,))
    else:
        x = m.get_variables_by_name("x")
    first = r.random() < 0.5

    def leave():
        for o in outgoing:
            i = o[1][0]
            if r.random() < 0.5:
                m.delete_variable(x[i])
            else:
                for rec, _ in live(m):
                    if f"x[{i}]" in (rec["key_0"], rec["key_1"]):
                        m.remove_interaction(name=rec["name"])
    if first:
        leave()
    cur = [e[1][0] for e in elements]
    for e in incoming:
        i, t = e[1][0], float(e[0])
        p = r.random()
        at = {key: age(t)} if p < 0.6 else {"other": 3.0} if p < 0.8 else {key: age(t + r.choice([0.0, 0.25, -1.5])), "other": "o"} if p < 0.9 else None
        kw = {"attributes": at} if at else {}
        m.add_interaction(x[i], name=f"l{i}", coefficient=float(r.choice([1, -2, 1, -2, 0, 1e-9])), scale=r.choice([1.0, 1.0, 0.5, 2.0]), **kw)
        for j in cur:
            if j != i and r.random() < 0.4:
                m.add_interaction((x[i], x[j]), name=f"q{i}_{j}_{k}", coefficient=1.5, attributes={key: age(t - r.choice([0.0, 0.5, 2.0]))} if r.random() < 0.7 else {"z": 1})
    for rec, at in live(m):
        if r.random() < 0.08:
            m.update_interaction(name=rec["name"], attributes={key: age(CTX["base"] + float(r.choice([0, 1, 2.5, 40])))})
    if not first:
        leave()
    if CTX["extras"]:
        extras(m, x, k, r)
    return m


def map_npp(m, smp, elements, incoming, outgoing, k):
    if CTX["npp"] == "sample":
        return CTX["sample"].npp_mapping(m, smp, elements, incoming, outgoing)
    r = random.Random(f"{CTX['seed']}/npp/{k}")
    top = max([e[1][0] for e in incoming], default=-1)
    size = m.get_all_size()
    if top >= size:
        x = m.append("x", (top - size + 1,))
    else:
        x = m.get_variables_by_name("x")

    def leave():
        gone = {o[1][0] for o in outgoing}
        if CTX["npp"] == "delete":
            for o in outgoing:
                m.delete_variable(x[o[1][0]])
        else:
            for rec, _ in live(m):
                if any(f"x[{i}]" in (rec["key_0"], rec["key_1"]) for i in gone):
                    m.remove_interaction(name=rec["name"])
    first = r.random() < 0.5
    if first:
        leave()
    new = {e[1][0] for e in incoming}
    for e in incoming:
        i, w = e[1][0], e[1][1]
        if CTX["linear"]:
            m.add_interaction(x[i], coefficient=float(w))
        for f in elements:
            j, v = f[1][0], f[1][1]
            if j == i or (j in new and j > i):
                continue
            t = (x[i], x[j]) if r.random() < 0.5 else (x[j], x[i])
            m.add_interaction(t, coefficient=-1.0 * w * v)
    if not first:
        leave()
    return m


MAPS = {"token": map_token, "att": map_att, "npp": map_npp}


# ---- solving -------------------------------------------------------------
class TagSolver:
    def __init__(self, tag):
        self.tag = tag


def solver_token(s):
    return f"tag{s.tag}" if isinstance(s, TagSolver) else type(s).__name__ + str(getattr(s, "_exact", ""))


def solve_fn(solver, model, prev_sampleset, elements, incoming, outgoing):
    import dimod

    k = count("solve")
    c = {"fn": "solve", "k": k, "el": elems(elements), "inc": elems(incoming), "out": elems(outgoing), "ok": False, "msg": "", "ret": "", "rows": {"_": 0}, "rest": "", "terms": [],
         "model": digest(model), "smp": smp_token(prev_sampleset), "solver": solver_token(solver), "left": ""}
    c["left"] = c["model"]
    LOG.append(c)
    if CTX["alg"] == "attenuation":
        c["rows"], c["rest"] = rows(model)
    boom("solve", k, "before")
    r = random.Random(f"{CTX['seed']}/solve/{k}")
    if CTX["style"] == "npp":
        ph = model.to_physical()
        b = ph.to_bqm()
        u = CTX["unit"]
        for a, v in b.linear.items():
            if v != 0:
                c["terms"].append({"p": [int(str(a)[2:-1])], "v": int(round(v * u))})
        for (a, d), v in b.quadratic.items():
            if v != 0:
                c["terms"].append({"p": [int(str(a)[2:-1]), int(str(d)[2:-1])], "v": int(round(v * u))})
        if not c["terms"]:
            out = None
        else:
            out = solver.solve(ph, **CTX["solve_kw"])
    else:
        if r.random() < 0.6:
            model.to_physical(placeholder=dict(FEED))
        what = r.random()
        if what < 0.7:
            out = dimod.SampleSet.from_samples([{"x[0]": 1}, {"x[0]": 1}], vartype="BINARY", energy=[float(k), float(k)])
            out.info["tok"] = k
        elif what < 0.85:
            out = [k]
        else:
            out = []
    boom("solve", k, "after")
    c["left"] = digest(model)
    c["ret"] = smp_token(out)
    c["ok"] = True
    return out


def unmap_fn(sampleset, elements, incoming, outgoing):
    k = count("unmap")
    c = {"fn": "unmap", "k": k, "el": elems(elements), "inc": elems(incoming), "out": elems(outgoing), "ok": False, "msg": "", "ret": "", "smp": smp_token(sampleset)}
    LOG.append(c)
    boom("unmap", k, "before")
    c["ret"] = f"U{k} {len(elements)}" if k % 5 else ""
    c["ok"] = True
    return c["ret"]


class OutFn(beam.DoFn):
    def process(self, x, timestamp=beam.DoFn.TimestampParam):
        LOG.append({"fn": "output", "text": x, "ts": float(timestamp)})
        yield x


def to_timestamped(x):
    return beam.window.TimestampedValue(x[1], x[0])


class Filter:
    """filter_fn of Partial, and what it means."""

    def __init__(self, kind, a):
        self.kind, self.a = kind, a

    def __call__(self, e):
        return {"mod": lambda: e[1][0] % self.a == 0, "late": lambda: e[0] >= self.a, "early": lambda: e[0] < self.a, "none": lambda: False, "all": lambda: True,
                "data": lambda: len(data_token(e[1][1])) % 2 == 0}[self.kind]()
