"""Drives the real LogicalModel, records what it does, for ModelTrace.tla."""
import copy
import json
import math
import pickle
import time
import warnings

UC, US = 1024, 4
UE = UC * US
ENVS = {"": {}, "E1": {"P": 2.0, "Q": -1.5, "R": 0.5}, "E2": {"P": -1.0, "Q": 3.0, "R": 2.0}, "E3": {"P": 0.0, "Q": 1.0, "R": -2.0}}
BIG = 40_000_000


class Odd(Exception):
    def __init__(self, prop):
        self.prop = prop


def ev_sym(e, env):
    """Value of a coefficient / scale / offset under the placeholder values."""
    import pyqubo

    if isinstance(e, (int, float)) or hasattr(e, "dtype"):
        return float(e)
    n = type(e).__name__
    if n == "Num":
        return float(e.value)
    if n == "Placeholder":
        return env[e.label]
    if n == "Mul":
        return ev_sym(e.left, env) * ev_sym(e.right, env)
    if n == "Add":
        return ev_sym(e.left, env) + ev_sym(e.right, env)
    if n == "AddList":
        return sum(ev_sym(t, env) for t in e.terms)
    if n == "Coefficient":
        return e.evaluate(feed_dict=env)
    if isinstance(e, pyqubo.Express):
        return (e + pyqubo.Binary("vf-dummy")).compile().to_qubo(feed_dict=env)[1]
    raise Odd("C01")


def is_sym(e):
    import pyqubo

    if isinstance(e, pyqubo.core.Coefficient):
        return True
    if not isinstance(e, pyqubo.Express):
        return False
    n = type(e).__name__
    if n == "Num":
        return False
    if n in ("Mul", "Add"):
        return is_sym(e.left) or is_sym(e.right)
    if n == "AddList":
        return any(is_sym(t) for t in e.terms)
    return True


def units(v, u, prop="C01"):
    try:
        x = float(v) * u
    except (TypeError, ValueError):
        raise Odd(prop)
    if math.isnan(x) or math.isinf(x):
        raise Odd(prop)
    r = round(x)
    if abs(x - r) > 1e-6 or abs(r) > BIG:
        raise Odd(prop)
    return int(r)


def flat_vars(x):
    return [z for y in x for z in (flat_vars(y) if isinstance(y, list) else [y])]


class Recorder:
    def __init__(self, tid, env="", concrete=False):
        self.tid = tid
        self.concrete = concrete  # pass the values instead of the placeholders
        # "E1@-30": placeholder values E1; every energy is given to the code times 2**-30 and read back times 2**30
        self.envname = env
        # "@0~stop": while the code is called, the clock of the machine stands still ("slow": mostly, "back": it runs backwards)
        base, _, mag = env.partition("@")
        mag, _, self.clock = mag.partition("~")
        self.T, self.now = 1.6e9 + 0.25, 0
        self.env = ENVS[base]
        self.mag = 2.0 ** int(mag or 0)
        self.models = []
        self.events = []
        self.plan = []
        self.rowtab = []
        self.rowidx = {}
        self.last = []  # last snapshot json per model
        self.tcode = {}
        self.strs = {}
        self.dead = False
        self.cut = False
        self.stale = {}
        self.view = []  # last snapshot per model, for generators
        self.viewrows = []
        self.held = []  # physical models returned so far: they must stay as they are
        self.readings = {}
        self.look = lambda: False  # whether the next observation reads the model itself, not a copy of it

    # ---- encoding -------------------------------------------------------
    def attr(self, v):
        if isinstance(v, str):
            return self.strs.setdefault(v, 500000 + len(self.strs))
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (list, tuple, dict)):
            return self.strs.setdefault("\0" + repr(v), 500000 + len(self.strs))
        return units(v, 2, "C12")

    def ts(self, raw, t0, t1, l):
        raw = float(raw)
        if abs(raw) < 1e6:
            return units(raw, 2, "C12")
        if raw in self.tcode:
            return self.tcode[raw]
        if t0 - 1e-3 <= raw <= t1 + 1e-3:  # the clock that is told to stand still may not be the one that is read
            self.tcode[raw] = self.now
            return self.tcode[raw]
        return 999999  # neither given nor the time of a call

    def snapshot(self, m, t0, t1, l):
        df = m.select_interaction("body > 0")
        rows = []
        ok_get = True
        names = list(df["name"]) if len(df) else []
        uniq = len(set(names)) == len(names)
        cols = {c: df[c].tolist() for c in df.columns}
        dec = {y.label: y for arr in m.get_variables().values() for y in flat_vars(arr.bit_list)} if uniq else {}
        for n in range(len(names)):
            rec = {c: cols[c][n] for c in cols}
            at = {}
            for k, v in rec.items():
                if isinstance(k, str) and k.startswith("attributes."):
                    if isinstance(v, float) and math.isnan(v):
                        continue
                    at[k[len("attributes."):]] = self.attr(v)
            if uniq:
                try:
                    g = m.get_attributes(name=rec["name"])
                    g = {k[len("attributes."):]: self.attr(v) for k, v in g.items() if not (isinstance(v, float) and math.isnan(v))}
                    if g != at:
                        ok_get = False
                    h = m.get_attributes(name=rec["name"])
                    h.clear()
                    tg = (dec.get(rec["key_0"]), dec.get(rec["key_1"])) if rec["body"] == 2 else dec.get(rec["key_0"])
                    if rec["name"] == (rec["key_0"] if rec["body"] == 1 else f"{rec['key_0']}*{rec['key_1']}") and tg and tg != (None, None):
                        h = m.get_attributes(target=tg[::-1] if rec["body"] == 2 and n % 2 else tg)
                        if {k[len("attributes."):]: self.attr(v) for k, v in h.items() if not (isinstance(v, float) and math.isnan(v))} != at:
                            ok_get = False
                    for k in at:
                        if self.attr(m.get_attribute(name=rec["name"], key="attributes." + k)) != at[k]:
                            ok_get = False
                except Odd:
                    raise
                except Exception:
                    ok_get = False
            k1 = rec["key_1"]
            b = int(rec["body"])
            key = rec["key"]
            okkey = (key == rec["key_0"] and b == 1) or (b == 2 and tuple(key) == (rec["key_0"], k1))
            row = {"name": rec["name"], "b": b if okkey else 9, "k0": rec["key_0"], "k1": k1 if isinstance(k1, str) else "",
                   "c": units(ev_sym(rec["coefficient"], self.env) / self.mag, UC), "s": units(ev_sym(rec["scale"], self.env), US),
                   "t": self.ts(rec["timestamp"], t0, t1, l), "d": bool(rec["dirty"]), "r": bool(rec["removed"]), "a": at}
            rows.append(row)
        cons = {}
        for label, c in m.get_constraints().items():
            cons[label] = self.con(c)
        labels = {}
        for n, arr in m.get_variables().items():
            labels[n] = [y.label for y in flat_vars(arr.bit_list)]
        st = {"mtype": m.get_mtype(), "vars": {n: [int(k) for k in a.shape] for n, a in m.get_variables().items()}, "rows": rows,
              "off": self.en(ev_sym(m.get_offset(), self.env)), "cons": cons, "del": sorted(m.get_deleted_array()), "fix": sorted(m.get_fixed_array())}
        for y in (m.get_deleted_array(), m.get_fixed_array()):
            y.clear()
        df["coefficient"], df["removed"] = 77.0, True
        x = {"size": int(m.get_size()), "all": int(m.get_all_size()), "nd": int(m.get_deleted_size()), "nf": int(m.get_fixed_size()), "labels": labels, "gat": ok_get}
        return {"st": st, "x": x}

    def con(self, c):
        k = type(c).__name__
        n = 0
        if k == "NHotConstraint":
            kind, v1, v2, n = "nhot", c.get_variables(), set(), c.get_n()
        elif k == "ZeroOrOneHotConstraint":
            kind, v1, v2 = "zoh", c.get_variables(), set()
        else:
            kind, v1, v2 = "eq", c.get_variables_1(), c.get_variables_2()
        return {"kind": kind, "v1": sorted(v.label for v in v1), "v2": sorted(v.label for v in v2), "n": int(n), "str": self.en(c.get_strength())}

    def phys(self, ph, kc=0):
        bqm = ph.to_bqm()
        neg = ph.to_bqm(sign=1.0)

        def lin(b):
            return [{"k": k, "v": self.en(v)} for k, v in b.linear.items() if v != 0]

        def quad(b):
            return [{"a": k[0], "b": k[1], "v": self.en(v)} for k, v in b.quadratic.items() if v != 0]
        q = {"lin": lin(bqm), "quad": quad(bqm), "off": self.en(bqm.offset), "vars": list(bqm.variables), "mtype": {"SPIN": "ising", "BINARY": "qubo"}.get(bqm.vartype.name, "?")}
        bqm.add_offset(7.0)  # what was exported is the reader's
        for v in q["vars"]:
            bqm.add_variable(v, 5.0)
        try:
            poly = [{"i": int(i), "j": int(j), "v": self.en(v)} for i, j, v in ph.to_polynomial()]
        except KeyError:
            poly = [{"i": -1, "j": -1, "v": 0}]
        return dict(q, ok=True, kc=kc, nlin=lin(neg), nquad=quad(neg), poly=poly,
                    l2i={k: int(v) for k, v in ph._label_to_index.items()}, i2l=[{"i": int(k), "l": v} for k, v in ph._index_to_label.items()])

    def en(self, v):
        """An energy read from the code."""
        if not isinstance(v, (int, float)) and not hasattr(v, "dtype"):
            return units(v, UE)
        return units(v / self.mag, UE)

    # ---- arguments ------------------------------------------------------
    def out(self, v):
        """An energy given to the code."""
        return v if self.mag == 1 else v * self.mag

    def num(self, v):
        """Plan number -> Python value for the API."""
        if isinstance(v, dict) and self.concrete:
            return self.val(v)
        if isinstance(v, dict):
            import pyqubo

            e = None
            for t in v["t"]:
                x = pyqubo.Placeholder(t[1])
                for nm in t[2:]:
                    x = x * pyqubo.Placeholder(nm)
                if t[0] != 1:
                    x = x * t[0]
                e = x if e is None else e + x
            return e + v["b"] if v["b"] != 0 else e
        return v

    def val(self, v):
        """Plan number -> value under the placeholder values (computed here, not by the code)."""
        if isinstance(v, dict):
            s = v["b"]
            for t in v["t"]:
                p = t[0]
                for nm in t[1:]:
                    p *= self.env[nm]
                s += p
            return s
        return v

    def var(self, i, label, stale=False):
        if stale and label in self.stale:
            return self.stale[label]
        name, idx = label.split("[", 1)
        idx = tuple(int(k) for k in idx[:-1].split("]["))
        arr = self.models[i].get_variables()[name]
        v = arr[idx if len(idx) > 1 else idx[0]]
        self.stale.setdefault(label, v)
        return v

    def target(self, i, a):
        k = a.get("tk", "none")
        st = a.get("stale", False)
        if k == "lin":
            return self.var(i, a["ta"], st)
        if k in ("quad", "self"):
            return (self.var(i, a["ta"], st), self.var(i, a["tb"], st))
        if k == "junk":
            return {0: "x[0]", 1: (self.var(i, a["ta"]),), 2: (self.var(i, a["ta"]), "x"), 3: 5}[a.get("junk", 0)]
        return None

    def targ(self, a):
        """Encoded target for the trace."""
        k = a.get("tk", "none")
        k0, k1 = "", ""
        if k == "lin":
            k0 = a["ta"]
        elif k == "quad":
            k0, k1 = sorted([a["ta"], a["tb"]])
        return {"tk": k, "k0": k0, "k1": k1}

    # ---- execution ------------------------------------------------------
    def do(self, op, i=0, j=-1, peek=True, look=None, **a):
        """Executes one operation on the real model and records the event. Model numbers are 0-based here."""
        if self.dead:
            return None
        look = self.look() if look is None else look
        self.plan.append({"op": op, "i": i, "j": j, "peek": peek, "look": look, "a": a})
        l = len(self.events) + 1
        e = {"op": op, "i": i + 1, "j": j + 1, "a": {}, "ok": True, "exc": "", "sts": [], "pk": [], "num": [], "args": True, "hr": [], "peq": [], "eq": []}
        m = self.models[i] if i < len(self.models) and op != "new" else None
        self.given = []
        self.now = 1000000 + l
        if self.clock:
            self.T += {"stop": 0.0, "slow": 1.0 if l % 5 == 0 else 0.0, "back": -100.0}[self.clock]
            self.now = self.tcode.setdefault(self.T, self.now)
        e["now"] = self.now
        real = time.time
        t0 = real()
        res = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if self.clock:
                    time.time = lambda: self.T
                res = self._call(op, i, j, a, m, e)
        except Odd as o:
            e["num"].append(o.prop)
        except Exception as x:  # noqa: BLE001  (whatever the code raises is its answer)
            e["ok"] = False
            e["exc"] = type(x).__name__ + ": " + str(x)[:80]
        finally:
            time.time = real
        t1 = real()
        if op == "new":
            if not e["ok"]:
                raise RuntimeError("cannot create a model: " + e["exc"])
        if op == "new" or (op == "copy" and e["ok"]):
            self.models.append(res)
            self.last.append(None)
            self.view.append(None)
            self.viewrows.append([])
        # the arguments belong to the caller: they are as they were, and what happens to them now is nobody's business
        if self.given and m is not None:
            try:
                before = self.digest(m, t0, t1, l)
                for x, y in self.given:
                    if x != y:
                        e["args"] = False
                    x.clear()
                e["args"] = e["args"] and self.digest(m, t0, t1, l) == before
            except Exception:  # noqa: BLE001  (the observation below reports it)
                pass
        # observed states
        for k, mm in enumerate(self.models):
            try:
                # reading must not be needed for, nor change, what comes next: mostly a copy is read
                s = self.snapshot(mm if look else copy.deepcopy(mm), t0, t1, l)
                d = json.dumps(s, sort_keys=True)
                if look and self.digest(mm, t0, t1, l) != d:
                    e["args"] = False  # what was read and then changed by the reader was not the reader's
                if d != self.last[k]:
                    self.last[k] = d
                    self.view[k], self.viewrows[k] = s, s["st"]["rows"]
                    s["st"]["rows"] = [self.row(r) for r in s["st"]["rows"]]
                    e["sts"].append({"i": k + 1, "st": s["st"], "x": s["x"]})
            except Odd as o:
                e["num"].append(o.prop)
            except Exception as x:  # noqa: BLE001
                e["num"].append("C12")
                e["exc"] += " | unreadable: " + type(x).__name__ + ": " + str(x)[:80]
        try:
            self.observe_held(e, res if op == "phys" else None)
        except Exception as x:  # noqa: BLE001
            e["num"].append("C29")
            e["exc"] += " | incomparable: " + type(x).__name__ + ": " + str(x)[:80]
        # physical model
        try:
            if op == "phys" and e["ok"] and res is not None:
                e["pk"].append(self.phys(res, self.kc(i)))
            if peek and op != "new" and not e["num"]:
                e["pk"].append(self.peek(i))
        except Odd as o:
            e["num"].append(o.prop)
        except Exception as x:  # noqa: BLE001
            e["exc"] += " | " + type(x).__name__ + ": " + str(x)[:80]
            e["pk"].append({"ok": False})
        if e["num"]:
            self.dead = True
        self.events.append(e)
        return e

    def observe_held(self, e, new):
        """Physical models created earlier are read again; all of them and all models are compared with ==."""
        if new is not None and e["ok"] and len(self.held) < 5:
            self.held.append(new)
        for ph in self.held:
            try:
                d = self.phys(ph)
                for k in d:
                    if isinstance(d[k], list):
                        d[k] = sorted(json.dumps(dict(x, a=min(x["a"], x["b"]), b=max(x["a"], x["b"])) if isinstance(x, dict) and "a" in x else x, sort_keys=True) for x in d[k])
                d["get"] = self.en(ph.get_offset())
                code = self.readings.setdefault(json.dumps(d, sort_keys=True), len(self.readings) + 1)
            except Exception:  # noqa: BLE001
                code = 0
            e["hr"].append(code)
        for a in range(len(self.held)):
            for b in range(a + 1, len(self.held)):
                v, w = self.held[a] == self.held[b], self.held[a] != self.held[b]
                e["peq"].append({"a": a + 1, "b": b + 1, "v": bool(v), "w": bool(w)})
        for a in range(len(self.models)):
            for b in range(a + 1, len(self.models)):
                v, w = self.models[a] == self.models[b], self.models[a] != self.models[b]
                e["eq"].append({"a": a + 1, "b": b + 1, "v": bool(v), "w": bool(w)})

    def digest(self, m, t0, t1, l):
        return json.dumps(self.snapshot(copy.deepcopy(m), t0, t1, l), sort_keys=True)

    def own(self, x):
        """Notes a mutable argument."""
        self.given.append((x, copy.copy(x)))
        return x

    def peek(self, i):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return self.phys(copy.deepcopy(self.models[i]).to_physical(placeholder=dict(self.env)), self.kc(i))

    def kc(self, i):
        """Constant of the penalties alone: the same model with offset 0."""
        if not self.models[i].get_constraints():
            return 0
        m = copy.deepcopy(self.models[i])
        m.offset(0.0)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return self.en(m.to_physical(placeholder=dict(self.env)).get_offset())

    def row(self, r):
        d = json.dumps(r, sort_keys=True)
        if d not in self.rowidx:
            self.rowtab.append(r)
            self.rowidx[d] = len(self.rowtab)
        return self.rowidx[d]

    def _call(self, op, i, j, a, m, e):
        import pyqubo

        import sawatabi
        from sawatabi.model.constraint import EqualityConstraint, NHotConstraint, ZeroOrOneHotConstraint

        if op == "new":
            e["i"] = len(self.models) + 1
            if "of" in a:
                mt = self.models[a["of"]].get_mtype()
                e["a"] = {"mtype": mt}
                return self.models[a["of"]].empty()
            e["a"] = {"mtype": a["mtype"]}
            return sawatabi.model.LogicalModel(mtype=a["mtype"])
        if op == "copy":
            e["a"] = {"how": a["how"]}
            e["j"] = 0
            return pickle.loads(pickle.dumps(m)) if a["how"] == "pickle" else copy.deepcopy(m)
        if op in ("vars", "append"):
            typ = not a.get("bad")
            e["a"] = {"name": a["name"], "sh": list(a["sh"]), "typ": typ}
            sh = tuple(a["sh"])
            if a.get("bad") == "list":
                sh = list(sh)
            elif a.get("bad") == "empty":
                sh = ()
            elif a.get("bad") == "float":
                sh = tuple(float(x) for x in sh)
            if op == "vars" and a.get("arr") and typ:
                vt = "SPIN" if m.get_mtype() == "ising" else "BINARY"
                return m.variables(pyqubo.Array.create(a["name"], shape=sh, vartype=vt)) and None
            (m.variables if op == "vars" else m.append)(a["name"], shape=sh)
            return None
        if op in ("add", "update"):
            at = a.get("at") or {}
            t = a.get("t")
            bad = a.get("bad")
            hc, hs = ("c" in a), ("s" in a)
            e["a"] = dict(self.targ(a), name=a.get("name", ""), c=units(self.val(a.get("c", 0.0)), UC), s=units(self.val(a.get("s", 1.0)), US),
                          hc=hc, hs=hs, t=-1 if t is None else units(t, 2), at={k: self.attr(v) for k, v in at.items()}, typ=not bad)
            kw = {}
            if hc:
                kw["coefficient"] = self.out(self.num(a["c"]))
            if hs:
                kw["scale"] = self.num(a["s"]) if a["s"] != a.get("c") or not isinstance(a["s"], dict) or self.mag != 1 else kw["coefficient"]
            if at or a.get("emptyat"):
                kw["attributes"] = self.own(dict(at))
            if t is not None:
                kw["timestamp"] = t
            if a.get("name"):
                kw["name"] = a["name"]
            if bad == "c":
                kw["coefficient"] = "one"
            elif bad == "s":
                kw["scale"] = "one"
            elif bad == "at":
                kw["attributes"] = [1]
            elif bad == "t":
                kw["timestamp"] = "now"
            elif bad == "name":
                kw["name"] = 12345
                e["a"]["name"] = "12345"
            tg = self.target(i, a)
            (m.add_interaction if op == "add" else m.update_interaction)(target=tg, **kw)
            return None
        if op == "remove":
            e["a"] = dict(self.targ(a), name=a.get("name", ""))
            m.remove_interaction(target=self.target(i, a), name=a.get("name", ""))
            return None
        if op == "offset":
            e["a"] = {"c": units(self.val(a["c"]), UE)}
            m.offset(self.out(self.num(a["c"])))
            return None
        if op == "select":
            q = a.get("q", "var")
            e["a"] = {"v": a["v"], "names": [], "q": q}
            if q != "var":
                query = {"live": "removed == False", "pending": "dirty == True", "lin": "body == 1", "quad": "body == 2", "name": f'name == "{a["v"]}"',
                         "key": f'key_0 == "{a["v"]}" or key_1 == "{a["v"]}"', "scaled": "scale != 1.0", "old": "timestamp < 1000000"}[q]
                res = m.select_interaction(query, fmt="dict") if a.get("dict") else m.select_interaction(query)
                e["a"]["names"] = [x["name"] for x in res.values()] if a.get("dict") else list(res["name"])
                return None
            e["a"]["names"] = [str(x) for x in m.select_interactions_by_variable(self.var(i, a["v"], a.get("stale", False)))]
            return None
        if op in ("delete", "fix"):
            bad = a.get("bad")
            e["a"] = {"v": a["v"], "typ": not bad}
            tg = self.var(i, a["v"], a.get("stale", False))
            if bad == "none":
                tg = None
            elif bad == "str":
                tg = a["v"]
            if op == "fix":
                e["a"]["val"] = a["val"]
                m.fix_variable(tg, self.fixval(a["val"], a.get("form", "")))
            else:
                m.delete_variable(tg)
            return None
        if op == "addcons":
            k = a["con"]
            e["a"] = {"label": a["label"], "typ": not a.get("bad"),
                      "con": {"kind": k["kind"], "v1": sorted(set(k["v1"])), "v2": sorted(set(k["v2"])), "n": k["n"], "str": units(k["str"], UE)}}
            v1 = [self.var(i, x) for x in k["v1"]]
            v2 = [self.var(i, x) for x in k["v2"]]
            how = a.get("how", "list")

            def mk(v):
                if v and how == "array":  # the whole array, or its first row / plane
                    arr = m.get_variables()[a["arr"]]
                    return arr[0] if a.get("row") else arr
                if not v:
                    return None
                return v[0] if how == "one" and len(v) == 1 else self.own(set(v) if how == "set" else list(v))
            if a.get("bad") == "obj":
                m.add_constraint("constraint")
                return None
            kw = {"label": a["label"], "strength": self.out(k["str"])}
            if how == "grow":
                if k["kind"] == "nhot":
                    c = NHotConstraint(n=k["n"], **kw)
                elif k["kind"] == "zoh":
                    c = ZeroOrOneHotConstraint(**kw)
                else:
                    c = EqualityConstraint(**kw)
                m.add_constraint(c)
                for v in v1:
                    (c.add_variable_to_1 if k["kind"] == "eq" else c.add_variable)(v)
                for v in v2:
                    c.add_variable_to_2([v])
                return None
            if k["kind"] == "nhot":
                c = NHotConstraint(variables=mk(v1), n=k["n"], **kw)
            elif k["kind"] == "zoh":
                c = ZeroOrOneHotConstraint(variables=mk(v1), **kw)
            else:
                c = EqualityConstraint(variables_1=mk(v1), variables_2=mk(v2), **kw)
            m.add_constraint(c)
            return None
        if op == "remcons":
            e["a"] = {"label": a["label"]}
            m.remove_constraint(a["label"])
            return None
        if op in ("consadd", "consrem"):
            e["a"] = {"label": a["label"], "side": a["side"], "vs": sorted(set(a["vs"])), "typ": not a.get("bad")}
            c = m.get_constraints_by_label(a["label"])
            vs = [self.var(i, x, a.get("stale", False)) for x in a["vs"]]
            if a.get("bad"):
                vs = ["x[0]"]
            elif a.get("how") == "set":
                vs = self.own(set(vs))
            elif a.get("how") == "one":
                vs = vs[0]
            verb = "add_variable" if op == "consadd" else "remove_variable"
            if type(c).__name__ == "EqualityConstraint":
                verb += ("_to_" if op == "consadd" else "_from_") + str(a["side"])
            getattr(c, verb)(vs)
            return None
        if op in ("ising", "qubo"):
            (m.to_ising if op == "ising" else m.to_qubo)()
            return None
        if op == "merge":
            m.merge(self.models[j])
            return None
        if op == "phys":
            return m.to_physical(placeholder=self.own(dict(self.env))) if self.env else m.to_physical()
        if op == "physother":
            other = ENVS[{"E1": "E2", "E2": "E3", "E3": "E1"}[self.envname[:2]] if self.envname[:1] == "E" else "E1"]
            m.to_physical(placeholder=self.own(dict(other)))
            return None
        if op == "physmissing":
            arr = copy.deepcopy(m).select_interaction("removed == False")
            need = any(is_sym(c) for c in arr["coefficient"]) or any(is_sym(c) for c in arr["scale"]) or is_sym(m.get_offset())
            e["a"] = {"need": bool(need)}
            m.to_physical()
            return None
        if op == "pyqubo":
            ex = self.expr(i, a)
            e["a"] = {"k": units(self.val(a["k"]), UE), "lin": [{"v": v, "c": units(self.val(c), UE)} for v, c in a["lin"]],
                      "quad": [{"v": v, "w": w, "c": units(self.val(c), UE)} for v, w, c in a["quad"]],
                      "sq": [{"ts": [{"v": v, "c": c} for v, c in q["ts"]], "k": q["k"], "c": units(self.val(q["c"]), UE)} for q in a["sq"]],
                      "vt": a.get("vt") or m.get_mtype(), "und": bool(a.get("und"))}
            sym = [c for _, c in a["lin"]] + [c for _, _, c in a["quad"]] + [q["c"] for q in a["sq"]]
            if any(isinstance(c, dict) for c in sym) and not self.concrete:
                ex = self.compiled(i, a)  # the installed dimod cannot compile placeholders in terms
            elif not a.get("compile"):
                m.from_pyqubo(ex)
                return None
            else:
                ex = ex.compile()

            def value():
                b = ex.to_dimod_bqm(feed_dict=dict(self.env))
                return dict(b.linear), dict(b.quadratic), b.offset
            before = value()
            if a.get("twice"):  # the expression is loaded into another model first
                copy.deepcopy(m).from_pyqubo(ex)
            m.from_pyqubo(ex)
            e["args"] = value() == before
            return None
        raise ValueError(op)

    @staticmethod
    def fixval(v, form):
        """The value of a fixed variable in several types; 99 stands for a value that is none."""
        import numpy as np

        if v == 99:
            return {"": 0.5, "none": None, "str": "1", "list": [1], "nan": float("nan"), "half": -0.5, "big": 10}[form]
        return {"": v, "float": float(v), "np": np.int64(v), "npf": np.float64(v), "np8": np.int8(v), "bool": bool(v) if v in (0, 1) else v}[form]

    def expr(self, i, a):
        import pyqubo

        ex = None
        own = {}

        def var(v):
            """The variable of the model, or one of the same name in an expression of the user."""
            if not a.get("vt"):
                return self.var(i, v)
            name, idx = v.split("[", 1)
            if name not in own:
                own[name] = pyqubo.Array.create(name, shape=self.models[i].get_variables()[name].shape, vartype="SPIN" if a["vt"] == "ising" else "BINARY")
            idx = tuple(int(k) for k in idx[:-1].split("]["))
            return own[name][idx if len(idx) > 1 else idx[0]]

        def plus(t):
            nonlocal ex
            ex = t if ex is None else ex + t
        for v, c in a["lin"]:
            plus(self.out(self.num(c)) * var(v))
        for v, w, c in a["quad"]:
            plus(self.out(self.num(c)) * var(v) * var(w))
        for n, q in enumerate(a["sq"]):
            s = q["k"]
            for v, c in q["ts"]:
                s = s + c * var(v)
            f = int(q.get("form", 0))
            if f == 2:
                plus(self.out(self.num(q["c"])) * pyqubo.Constraint(s ** 2, label=f"sq{n}"))
            elif f == 3:
                plus(self.out(self.num(q["c"])) * (pyqubo.Sum(0, len(q["ts"]), lambda k: q["ts"][k][1] * var(q["ts"][k][0])) + q["k"]) ** 2)
            else:
                plus(self.out(self.num(q["c"])) * s * s if f else self.out(self.num(q["c"])) * s ** 2)
        if a["k"] != 0:
            ex = ex + self.out(self.num(a["k"]))
        if a.get("und"):  # a variable the model does not have: of another array, or beyond the end of one
            vs = self.models[i].get_variables()
            name = next(iter(vs))
            vt = "SPIN" if (a.get("vt") or self.models[i].get_mtype()) == "ising" else "BINARY"
            if a["und"] == "array":
                u = pyqubo.Array.create("undeclared", shape=(2,), vartype=vt)[1]
            else:
                sh = tuple(int(k) for k in vs[name].shape)
                u = pyqubo.Array.create(name, shape=(sh[0] + 1,) + sh[1:], vartype=vt)[(sh[0],) + (0,) * (len(sh) - 1) if len(sh) > 1 else sh[0]]
            ex = ex + 1.5 * u if a.get("compile") else 1.5 * u + ex
        return ex

    def compiled(self, i, a):
        """The compiled pyqubo.Model of an expression with placeholders."""
        import collections

        import pyqubo
        from pyqubo.core.compiled_qubo import CompiledQubo

        def lift(v):  # {placeholders: number}
            if not isinstance(v, dict):
                return {(): v * self.mag}
            out = {(): v["b"] * self.mag} if v["b"] else {}
            for t in v["t"]:
                k = tuple(sorted(t[1:]))
                out[k] = out.get(k, 0) + t[0] * self.mag
            return out
        spin = (a.get("vt") or self.models[i].get_mtype()) == "ising"
        one = {frozenset(): 1.0}

        def mul(p, q):
            out = {}
            for k, x in p.items():
                for j, y in q.items():
                    out[k | j] = out.get(k | j, 0) + x * y
            return out

        def var(v):
            return {frozenset([v]): 2.0, frozenset(): -1.0} if spin else {frozenset([v]): 1.0}
        poly = {}

        def plus(c, p):
            for k, x in p.items():
                for m, y in lift(c).items():
                    poly.setdefault(k, {})
                    poly[k][m] = poly[k].get(m, 0) + x * y
        for v, c in a["lin"]:
            plus(c, var(v))
        for v, w, c in a["quad"]:
            plus(c, mul(var(v), var(w)))
        for q in a["sq"]:
            s = {frozenset(): float(q["k"])}
            for v, c in q["ts"]:
                for k, x in var(v).items():
                    s[k] = s.get(k, 0) + c * x
            plus(q["c"], mul(s, s))
        plus(a["k"], one)

        def coef(d):
            if set(d) <= {()}:
                return d.get((), 0.0)
            return pyqubo.Coefficient(collections.defaultdict(float, {pyqubo.core.PlaceholderProd(dict(collections.Counter(k))): x for k, x in d.items()}))
        structure, qubo = {}, {}
        for k, d in poly.items():
            for v in k:
                name, idx = v.split("[", 1)
                structure[v] = (name,) + tuple(int(x) for x in idx[:-1].split("]["))
            if k:
                l = sorted(k)
                qubo[(l[0], l[-1])] = coef(d)
        return pyqubo.Model(CompiledQubo(qubo, coef(poly.get(frozenset(), {(): 0.0}))), structure, {})

    def trace(self):
        return {"id": self.tid, "sym": bool(self.env), "ev": self.events}


def run_plan(tid, plan, env="", concrete=False):
    r = Recorder(tid, env, concrete)
    for p in plan:
        if r.do(p["op"], p["i"], p["j"], p["peek"], p.get("look", False), **p["a"]) is None:
            break
    return r


def bundle(recs):
    """One JSON for TLC out of several recorders, sharing the row table."""
    tab, idx, traces = [], {}, []
    for r in recs:
        mp = {}
        for k, row in enumerate(r.rowtab, 1):
            d = json.dumps(row, sort_keys=True)
            if d not in idx:
                tab.append(row)
                idx[d] = len(tab)
            mp[k] = idx[d]
        ev = []
        for e in r.events:
            e2 = dict(e)
            e2.pop("exc", None)
            e2["sts"] = [dict(s, st=dict(s["st"], rows=[mp[x] for x in s["st"]["rows"]])) for s in e["sts"]]
            ev.append(e2)
        traces.append({"id": r.tid, "sym": r.envname.partition("@")[0] != "", "ev": ev})
    return {"rowtab": tab, "traces": traces}
