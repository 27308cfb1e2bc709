"""Seeded random histories of operations on logical models (plans), one Recorder per history."""
import random

from modeldrv import ENVS, Recorder

COEFS = [1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 1.5, -3.0, 3.0, 4.0, 0.0]
SCALES = [2.0, 0.5, 0.25, -1.0, 0.0, -0.5, 3.0, 1.0]
ARRAYS = [("x", [(3,), (4,), (12,)]), ("y", [(2, 2), (2, 3), (1, 12)]), ("z", [(2,), (1,), (2, 1, 2), (1, 2, 3), (2, 1, 1, 2)])]
NAMES = ["n0", "n1", "n2", "x[0]", "y*z", "my name"]
KEYS = ["a", "b", "key", "a.b", "a b", "name", "attributes.a"]
AVALS = [0, 1, 2.5, -3, "s", "t", 7, True, "", "x[0]", [1, 2], (3,), {"k": 1}, []]
TIMES = [0, 1, 2, 3, 10.5, 20, 100, 0.5, -3, 99999]
# the names a history gives to its arrays
RENAME = [("x", "y", "z"), ("x", "xx", "x_x"), ("x1", "x", "x11"), ("z", "y", "x"), ("spin", "s p i n", "Spin"), ("a.b", "a", "b"), ("\u03b1", "0", "x-1"), ("name", "body", "offset"), ("x", "xx", "yx"), ("x", "xx", "xy")]

BASE = dict(add=10, update=5, remove=3, offset=1.2, select=1, delete=1.2, fix=1.2, addcons=1.0, remcons=0.4, consadd=0.7, consrem=0.5,
            conv=0.8, merge=0.8, phys=1.5, physother=0, physmissing=0, vars=0.5, append=0.7, new=0.4, pyqubo=0, refix=0, missing=0, share=0, roundtrip=0, reuse=0, rephys=1.5, copy=0.3, apart=0, twin=0, swap=0.3)


REPHYS = ("add", "update", "remove", "offset", "delete", "fix", "addcons", "remcons", "consadd", "consrem", "conv", "merge", "append", "vars", "physother", "physmissing")


def prof(length=14, peek=0.4, env="", nmodels=(1, 2), maxconv=3, bad=0.06, stale=0.15, attrs=0.35, only=None, seedrows=3, mag=0.25, bulk=0, bigcons=0.08, **kw):
    w = dict(BASE)
    if only:
        w = {k: 0 for k in w}
        w.update(only)
    w.update(kw)
    return dict(w=w, length=length, peek=peek, env=env, nmodels=nmodels, maxconv=maxconv, bad=bad, stale=stale, attrs=attrs, seedrows=seedrows, mag=mag, bulk=bulk, bigcons=bigcons)


PROFILES = {
    "mix": prof(),
    "big": prof(length=46, peek=0.12, seedrows=8, nmodels=(1, 3), addcons=0.6, maxconv=2),
    "many": prof(length=12, peek=0.15, nmodels=(1, 1), bulk=110, maxconv=1, conv=0.3, merge=0.3, update=9, remove=6, phys=2, select=2),
    "C01": prof(rephys=4, swap=1.5, peek=0.9, add=14, remove=4, phys=3, length=16),
    "C02": prof(rephys=4, swap=1, peek=0.3, phys=8, remove=5, addcons=2, length=16, attrs=0.5),
    "C02s": prof(rephys=3, peek=0.3, missing=4, phys=5, physmissing=4, physother=2, remove=5, addcons=1.5, env="E1", maxconv=2, length=14),
    "C03": prof(rephys=4, peek=1.0, add=14, phys=3, delete=2, append=2, addcons=2, length=12),
    "C04": prof(peek=0.1, only=dict(add=10, update=9, remove=6, offset=0.6, select=2, phys=1.5, delete=0.4, fix=0.3, vars=0.3), bad=0.15, stale=0.25, length=22),
    "C05": prof(peek=0.5, roundtrip=3, conv=7, merge=1.5, maxconv=4, addcons=1.5, length=14, seedrows=4),
    "C06": prof(peek=0.5, refix=1.5, fix=6, delete=0.8, addcons=0.3, phys=1, length=14, seedrows=6),
    "C07": prof(peek=0.5, reuse=2, delete=6, addcons=4, consadd=2, phys=1, conv=1.2, length=14, seedrows=5),
    "C08": prof(peek=0.5, share=3, merge=7, new=2, nmodels=(2, 3), addcons=2, consadd=1, delete=1.5, fix=1.5, append=1.5, length=16),
    "C09": prof(rephys=3, peek=0.8, bigcons=0.3, only=dict(swap=2, add=2, addcons=6, remcons=2, consadd=5, consrem=5, conv=0.8, delete=1, phys=1, merge=0.5, update=0.5, remove=0.5), length=14, seedrows=1),
    "C10": prof(rephys=3, peek=0.6, missing=0.7, roundtrip=0.7, env="E1", physother=1.5, physmissing=1.5, phys=2, update=6, fix=2, maxconv=2, conv=1.5, merge=1.5, offset=2, length=14),
    "C10b": prof(peek=0.6, missing=0.7, roundtrip=0.7, env="E2", physother=1.5, physmissing=1.5, phys=2, update=6, fix=2, maxconv=2, conv=1.5, merge=1.5, offset=2, length=14),
    "C11": prof(peek=1.0, only=dict(pyqubo=6, add=0.7, conv=0.3, fix=0.4, update=0.6, delete=0.3, phys=0.6, remove=0.3), length=5, seedrows=0, nmodels=(1, 1)),
    "C11s": prof(peek=1.0, only=dict(pyqubo=8, add=0.7, conv=0.7, fix=0.7, update=0.6, delete=0.5, phys=0.6, remove=0.3, addcons=0.7, merge=0.7, copy=0.4, physother=0.4, physmissing=0.6), length=7, seedrows=0, nmodels=(1, 2), env="E1"),
    "C12": prof(peek=0.1, attrs=0.8, update=9, remove=4, phys=3, conv=1.5, merge=2, fix=1, delete=1, length=20),
    "C29": prof(peek=0.15, near=6, share=2.5, rephys=5, twin=4, apart=4, copy=1, phys=4, new=0.2, addcons=2, consadd=2, conv=1.5, length=12, seedrows=4, attrs=0.5),
    "C29s": prof(peek=0.15, near=3, rephys=4, twin=3, apart=3, copy=1, phys=4, physother=1, new=0.2, env="E1", maxconv=2, length=10, seedrows=3),
    "C13": prof(peek=0.2, only=dict(append=6, vars=3, add=4, merge=2, delete=2, fix=2, conv=0.8, phys=0.5, remove=0.5, update=0.5), length=16, seedrows=2),
}


class Gen:
    def __init__(self, tid, seed, p):
        self.r = random.Random(seed)
        self.p = p
        mag = self.r.choice([-40, -24, -10, 20, 32]) if self.r.random() < p["mag"] else 0
        clock = self.r.choice(["stop", "stop", "slow", "back"]) if self.r.random() < 0.2 else ""
        env = "E3" if p["env"] and self.r.random() < 0.25 else p["env"]
        self.rec = Recorder(tid, env + (f"@{mag}" if mag or clock else "") + (f"~{clock}" if clock else ""))
        names = self.r.choice(RENAME) if self.r.random() < 0.6 else RENAME[0]
        shapes = [sh for _, sh in ARRAYS]
        if self.r.random() < 0.5:  # arrays of the same shapes, so that labels only differ in the name of the array
            shapes = [self.r.choice([[(2,), (3,), (12,)], [(2, 2), (1, 12), (2, 1)], [(2, 1, 2), (1, 2, 3), (2, 2, 1)]])] * 3
        self.arrays = list(zip(names, shapes))
        q = self.r.choice([0, 0.2, 0.6, 1])
        self.rec.look = lambda: self.r.random() < q
        self.conv = 0
        self.loaded = set()

    # -- views ------------------------------------------------------------
    def st(self, i):
        return self.rec.view[i]["st"]

    def rows(self, i):
        return self.rec.viewrows[i]

    def label(self, i, bias=True):
        r = self.r
        st = self.st(i)
        n = r.choice(list(st["vars"]))
        sh = st["vars"][n]
        idx = []
        for d in sh:
            if d > 4 and bias:
                idx.append(r.choice([0, 1, 2, min(10, d - 1), d - 1]))
            else:
                idx.append(r.randrange(d))
        return n + "".join(f"[{k}]" for k in idx)

    def pair(self, i):
        a = self.label(i)
        for _ in range(20):
            b = self.label(i)
            if b != a:
                return a, b
        return None

    def coef(self):
        r = self.r
        if self.rec.env and r.random() < 0.45:
            t = [[r.choice([1, 1, 2, -1, 0.5]), r.choice(list(self.rec.env))]]
            if r.random() < 0.25:
                t.append([r.choice([1, -2]), r.choice(list(self.rec.env))])
            return {"b": r.choice([0, 0, 1.0, -0.5]), "t": t}
        return r.choice(COEFS)

    def scale(self):
        r = self.r
        if self.rec.env and r.random() < 0.35:
            return {"b": r.choice([0, 0, 1.0]), "t": [[1, r.choice(list(self.rec.env))]]}
        return r.choice(SCALES)

    # -- operations ---------------------------------------------------------
    def interaction_args(self, i, exist):
        """Target or name, biased to existing interactions if exist."""
        r = self.r
        a = {}
        rows = self.rows(i)
        if exist and rows and r.random() < 0.85:
            row = r.choice(rows)
            d = row["k0"] if row["b"] == 1 else row["k0"] + "*" + row["k1"]
            if r.random() < (0.6 if row["name"] == d else 0.15):
                a["tk"] = "lin" if row["b"] == 1 else "quad"
                a["ta"] = row["k0"]
                if row["b"] == 2:
                    a["tb"] = row["k1"]
                    if r.random() < 0.5:
                        a["ta"], a["tb"] = a["tb"], a["ta"]
            else:
                a["name"] = row["name"]
            return a
        if exist and r.random() < 0.3:
            a["name"] = r.choice(NAMES + ["nope"])
            return a
        pr = self.pair(i)
        if r.random() < 0.5 or pr is None:
            a["tk"], a["ta"] = "lin", self.label(i)
        else:
            a["tk"], a["ta"], a["tb"] = "quad", pr[0], pr[1]
        return a

    def step(self, op, i):
        r, p, rec = self.r, self.p, self.rec
        st = self.st(i)
        pk = r.random() < p["peek"]
        n = len(rec.models)
        bad = r.random() < p["bad"]
        stale = r.random() < p["stale"]
        if op == "new":
            if n >= 3:
                return
            if r.random() < 0.2:
                return rec.do("new", n, of=i)
            return self.create(r.choice(["ising", "qubo"]), r.randint(0, p["seedrows"]))
        if op in ("vars", "append"):
            name, shapes = r.choice(self.arrays)
            sh = r.choice(shapes)
            a = {"name": name}
            if op == "append" and name in st["vars"]:
                sh = tuple(r.choice([0, 1, 2]) for _ in st["vars"][name])
            elif op == "vars":
                # redeclaring must not orphan variables in use: only new arrays or enlarging ones
                if name in st["vars"]:
                    cur = st["vars"][name]
                    sh = tuple(c + r.choice([0, 1]) for c in cur)
                if r.random() < 0.25:
                    a["arr"] = True
            if bad:
                a["bad"] = r.choice(["list", "empty", "float"] if op == "vars" else ["list", "float"])
                if a["bad"] == "empty":
                    a["bad"] = "list"
                a.pop("arr", None)
            a["sh"] = list(sh)
            return rec.do(op, i, peek=pk, **a)
        if op == "add":
            a = self.interaction_args(i, False)
            if r.random() < 0.4:
                a["name"] = r.choice(NAMES + [f"u{r.randrange(1000)}"])
            cs = sorted((v, w, c) for c, d in st["cons"].items() for v in d["v1"] + d["v2"] for w in d["v1"] + d["v2"])
            if cs and not bad and r.random() < 0.15:  # named like a term of a constraint, and perhaps removed at once
                v, w, c = r.choice(cs)
                a["name"] = f"{v} ({c})" if r.random() < 0.5 else f"{v}*{w} ({c})"
                rec.do(op, i, peek=False, c=self.coef(), **a)
                if r.random() < 0.6 and not rec.dead:
                    rec.do("remove", i, peek=False, name=a["name"])
                return None if rec.dead else rec.do("phys", i, peek=pk)
            if r.random() < 0.95:
                a["c"] = self.coef()
            if r.random() < 0.4:
                a["s"] = self.scale() if r.random() < 0.85 or not isinstance(a.get("c"), dict) else a["c"]
            if a.get("tk") == "quad" and "name" not in a and r.random() < 0.1:  # looks like the name of the pair in the other order
                a["name"] = "*".join(sorted([a["ta"], a["tb"]], reverse=True))
            rows = [x for x in self.rows(i) if not x["r"]]
            if rows and r.random() < 0.12 and not rec.env:  # a term that cancels another one
                row = r.choice(rows)
                a = {"tk": "lin" if row["b"] == 1 else "quad", "ta": row["k0"], "name": f"u{r.randrange(1000)}", "c": -row["c"] / 1024, "s": row["s"] / 4}
                if row["b"] == 2:
                    a["tb"] = row["k1"]
            if r.random() < p["attrs"]:
                a["at"] = {k: r.choice(AVALS) for k in r.sample(KEYS, r.randint(1, 2))}
            if r.random() < 0.5:
                a["t"] = r.choice(TIMES)
            if stale:
                a["stale"] = True
            if bad:
                k = r.random()
                if k < 0.5:
                    a["bad"] = r.choice(["c", "s", "at", "t", "name"])
                elif k < 0.7 and "ta" in a:
                    a["tk"], a["tb"] = "self", a["ta"]
                elif k < 0.9:
                    a["tk"], a["junk"], a["ta"] = "junk", r.randrange(4), self.label(i)
                else:
                    a = {"tk": "none", "c": 1.0}
            return rec.do(op, i, peek=pk, **a)
        if op == "update":
            a = self.interaction_args(i, True)
            if r.random() < 0.6:
                a["c"] = self.coef()
            if r.random() < 0.4:
                a["s"] = self.scale() if r.random() < 0.85 or not isinstance(a.get("c"), dict) else a["c"]
            if r.random() < p["attrs"]:
                a["at"] = {k: r.choice(AVALS) for k in r.sample(KEYS, r.randint(1, 2))}
            if r.random() < 0.5:
                a["t"] = r.choice(TIMES)
            if stale:
                a["stale"] = True
            if bad:
                k = r.random()
                if k < 0.5:
                    a["bad"] = r.choice(["c", "s", "at", "t"])
                elif k < 0.65:
                    a = {"c": 1.0}
                elif k < 0.85 and self.rows(i):
                    a["tk"], a["ta"] = "lin", self.label(i)
                    a.pop("tb", None)
                    a["name"] = r.choice(self.rows(i))["name"]
                else:
                    a.pop("name", None)
                    a["tk"], a["junk"], a["ta"] = "junk", r.randrange(4), self.label(i)
            return rec.do(op, i, peek=pk, **a)
        if op == "remove":
            a = self.interaction_args(i, True)
            if stale:
                a["stale"] = True
            if bad:
                a = r.choice([{}, {"tk": "junk", "junk": r.randrange(4), "ta": self.label(i)}, {"tk": "lin", "ta": self.label(i), "name": "n0"}])
            return rec.do(op, i, peek=pk, **a)
        if op == "offset":
            return rec.do(op, i, peek=pk, c=self.coef() if r.random() < 0.7 else r.choice([10, -7.5, 0.0]))
        if op == "select":
            q = r.choice(["var", "var", "live", "pending", "lin", "quad", "name", "key", "scaled", "old"])
            if q == "name":
                return rec.do(op, i, peek=False, q=q, v=r.choice([x["name"] for x in self.rows(i)] + ["n0"]), dict=r.random() < 0.5)
            return rec.do(op, i, peek=False, v=self.label(i), stale=stale, q="var" if q == "scaled" and rec.env else q, dict=r.random() < 0.5)
        if op in ("delete", "fix"):
            used = [x["k0"] for x in self.rows(i)] + [x["k1"] for x in self.rows(i) if x["b"] == 2]
            used += [v for c in st["cons"].values() for v in c["v1"] + c["v2"]]
            used += st["fix"] + st["del"] if r.random() < 0.2 else []
            v = r.choice(used) if used and r.random() < 0.85 else self.label(i)
            a = {"v": v, "stale": stale}
            if op == "fix":
                a["val"] = r.choice([1, -1] if st["mtype"] == "ising" else [1, 0])
                a["form"] = r.choice(["", "", "float", "np", "npf", "np8", "bool"])
                if bad:
                    a["val"] = r.choice([2, 0, 99, 99, 99] if st["mtype"] == "ising" else [2, -1, 99, 99, 99])
                    a["form"] = r.choice(["", "none", "str", "list", "nan", "half", "big"]) if a["val"] == 99 else ""
            if bad and r.random() < 0.4:
                a["bad"] = r.choice(["none", "str"])
            return rec.do(op, i, peek=pk, **a)
        if op == "addcons":
            kind = r.choice(["nhot", "zoh", "eq"])
            ls = sorted({self.label(i) for _ in range(r.randint(1, 5) if r.random() >= p["bigcons"] else r.randint(8, 14))})
            r.shuffle(ls)
            k = len(ls) if kind != "eq" else r.randint(0, len(ls))
            v1, v2 = ls[:k], ls[k:]
            con = {"kind": kind, "v1": v1, "v2": v2, "n": r.choice([1, 1, 1, 2, 2, 3, 3, 5, 8]) if kind == "nhot" else 0, "str": r.choice([1.0, 1.0, 1.0, 0.5, 2.0, 2.0, 3.0, 10, -1.0, -2.5, 0.0, 100, 250.0, 0.125])}
            a = {"label": r.choice(["c0", "c1", "c2"]), "con": con, "how": r.choice(["list", "set", "one", "grow"])}
            name = r.choice(list(st["vars"]))
            sh = st["vars"][name]
            row = len(sh) > 1 and r.random() < 0.5
            labels = [name + "[0]"] if row else [name]
            for d in sh[1:] if row else sh:
                labels = [x + f"[{k}]" for x in labels for k in range(d)]
            if kind != "eq" and r.random() < 0.25 and 1 <= len(labels) <= 7:
                con["v1"] = labels
                a.update(how="array", arr=name, row=row)
            if bad:
                a["bad"] = "obj"
            return rec.do(op, i, peek=pk, **a)
        if op == "remcons":
            ls = list(st["cons"]) + ["none"]
            return rec.do(op, i, peek=pk, label=r.choice(ls))
        if op in ("consadd", "consrem"):
            if not st["cons"]:
                return
            label = r.choice(list(st["cons"]))
            c = st["cons"][label]
            side = r.choice([1, 2]) if c["kind"] == "eq" else 1
            cur, oth = (c["v1"], c["v2"]) if side == 1 else (c["v2"], c["v1"])
            if op == "consadd":
                vs = [v for v in sorted({self.label(i) for _ in range(r.randint(1, 3))}) if v not in oth]
            else:
                vs = r.sample(cur, r.randint(1, min(2, len(cur)))) if cur and r.random() < 0.8 else [self.label(i)]
                if cur and r.random() < 0.15:
                    vs = list({r.choice(cur), self.label(i)})
            if not vs:
                return
            vs.sort()
            a = {"label": label, "side": side, "vs": vs, "how": "one" if len(vs) == 1 and r.random() < 0.5 else r.choice(["list", "set"]), "stale": stale}
            if bad:
                a["bad"] = True
            return rec.do(op, i, peek=pk, **a)
        if op == "conv":
            to = r.choice(["ising", "qubo"])
            if to == "ising" and st["mtype"] == "qubo":
                if self.conv >= p["maxconv"]:
                    return
                self.conv += 1
            return rec.do(to, i, peek=pk)
        if op == "merge":
            j = r.randrange(n)
            if j == i and r.random() < 0.8:
                return
            sj = self.st(j)
            if len(st["cons"]) + len(sj["cons"]) > 0 and r.random() < 0.5:
                for lab in sorted(set(st["cons"]) & set(sj["cons"])):
                    rec.do("remcons", j, peek=False, label=lab)
                    sj = self.st(j)
            if st["mtype"] == "ising" and sj["mtype"] == "qubo":
                if self.conv >= p["maxconv"]:
                    return
                self.conv += 1
            if len(self.rows(i)) + len(self.rows(j)) > 40:
                return
            return rec.do("merge", i, j, peek=pk)
        if op in ("phys", "physother", "physmissing"):
            return rec.do(op, i, peek=r.random() < 0.3)
        if op == "pyqubo":
            return self.pyqubo(i)
        if op == "copy":
            if n >= 4:
                return
            return rec.do("copy", i, peek=False, how=r.choice(["deep", "pickle"]))
        if op == "apart":  # a copy and the original go different ways
            if n >= 4:
                return
            rec.do("copy", i, peek=False, how=r.choice(["deep", "pickle"]))
            kinds = [k for k, w in p["w"].items() if w > 0 and k in REPHYS]
            for _ in range(r.choice([2, 3, 4])):
                if rec.dead:
                    return
                self.step(r.choice(kinds + ["phys"]), r.choice([i, n]))
            if not rec.dead:
                rec.do("phys", i, peek=False)
            if not rec.dead:
                rec.do("phys", n, peek=True)
            return
        if op == "near":  # a copy and the original change in the same way but for one detail
            if n < 3 and r.random() < 0.1:  # nothing but the type differs
                rec.do("new", n, mtype="ising")
                return rec.do("new", n + 1, mtype="qubo")
            if n >= 4 or not st["vars"]:
                return
            rec.do("copy", i, peek=False, how="deep")
            if rec.dead:
                return
            used = {x["k0"] for x in self.rows(i)} | {x["k1"] for x in self.rows(i) if x["b"] == 2} | {v for c in st["cons"].values() for v in c["v1"] + c["v2"]}
            pool = sorted({self.label(i) for _ in range(25)})
            free = [v for v in pool if v not in used and v not in st["del"] and v not in st["fix"]]
            vs = free if len(free) > 1 and r.random() < 0.7 else pool
            v, w = r.sample(vs, 2) if len(vs) > 1 else (vs[0], vs[0])
            kind = r.choice(["del", "del", "fix", "delfix", "off", "off", "upd", "add", "cons", "vars", "pend", "conv"])
            if kind == "del":
                x, y = ("delete", {"v": v}), ("delete", {"v": w})
            elif kind == "fix":
                x, y = ("fix", {"v": v, "val": 1}), ("fix", {"v": w, "val": 1})
            elif kind == "delfix":
                x, y = ("delete", {"v": v}), ("fix", {"v": v, "val": 1 if st["mtype"] == "ising" else 0})
            elif kind == "off":
                c = r.choice([0.0, 0.5, 1000.0, -3.0, 8000.0])
                x, y = ("offset", {"c": c}), ("offset", {"c": c + r.choice([1, -1, 2, 512]) / 1024})
            elif kind in ("upd", "add", "pend"):
                live = [q for q in self.rows(i) if not q["r"]]
                a = {"c": r.choice([1.0, -2.5, 0.0]), "s": r.choice([1.0, 2.0, 0.5]), "t": TIMES[0], "at": {KEYS[0]: AVALS[0]}}
                a.update({"name": r.choice(live)["name"]} if kind == "upd" and live else {"tk": "lin", "ta": v, "name": f"w{r.randrange(1000)}"})
                b = dict(a)
                d = r.choice(["c", "s", "t", "at"] + (["name", "ta"] if "ta" in a else []))
                if kind != "pend":
                    b[d] = {"c": a["c"] + 1 / 1024, "s": a["s"] + 0.25, "t": TIMES[1], "at": {KEYS[0]: AVALS[1]}, "name": a["name"] + "b", "ta": w}[d]
                x, y = ("add" if "ta" in a else "update", a), ("add" if "ta" in a else "update", b)
            elif kind == "cons":
                con = {"kind": r.choice(["nhot", "zoh"]), "v1": [v], "v2": [], "n": 0, "str": 2.0}
                con["n"] = 1 if con["kind"] == "nhot" else 0
                d, lab = r.choice(["kind", "v1", "str", "label", "n"]), r.choice(["c0", "c1"])
                other = dict(con, **{"kind": {"kind": "zoh" if con["kind"] == "nhot" else "nhot", "n": 0 if con["kind"] == "nhot" else 1}, "v1": {"v1": [w]}, "str": {"str": 2.5}, "label": {}, "n": {"n": 2 if con["kind"] == "nhot" else 0}}[d])
                x, y = ("addcons", {"label": lab, "con": con, "how": "list"}), ("addcons", {"label": lab if d != "label" else "c2", "con": other, "how": "list"})
            elif kind == "vars":
                d = r.choice(["shape", "name"])
                x, y = ("vars", {"name": "q", "sh": [2]}), ("vars", {"name": "q" if d == "shape" else "qq", "sh": [3] if d == "shape" else [2]})
            else:
                if self.conv >= p["maxconv"]:
                    return
                self.conv += 1
                x, y = ("offset", {"c": 1.0}), ("qubo" if st["mtype"] == "ising" else "ising", {})
            first = [(i, x), (n, y)]
            r.shuffle(first)
            for k, (o, a) in first:
                if rec.dead:
                    return
                rec.do(o, k, peek=False, **a)
            if kind == "pend" and not rec.dead:
                rec.do("phys", r.choice([i, n]), peek=False)
            return
        if op == "twin":  # the same interactions over arrays declared in the same or another order
            if n >= 3:
                return
            ars = [(nm, list(shs[0])) for nm, shs in r.sample(self.arrays, r.choice([1, 2, 3]))]
            rec.do("new", n, mtype=st["mtype"])
            for nm, sh in ars:
                rec.do("vars", n, peek=False, name=nm, sh=sh)
            todo = []
            for q in range(r.choice([1, 2, 3, 5])):
                a = self.interaction_args(n, False)
                todo.append(dict(a, name=f"w{q}" if r.random() < 0.5 else "", c=self.coef()))
            todo = [a for q, a in enumerate(todo) if a["name"] or not any(not b["name"] and {a["ta"], a.get("tb")} == {b["ta"], b.get("tb")} for b in todo[:q])]
            for a in todo:
                rec.do("add", n, peek=False, **a)
            rec.do("phys", n, peek=False)
            if rec.dead:
                return
            r.shuffle(ars)
            r.shuffle(todo)
            rec.do("new", n + 1, mtype=st["mtype"])
            for nm, sh in ars:
                rec.do("vars", n + 1, peek=False, name=nm, sh=sh)
            for a in todo:
                rec.do("add", n + 1, peek=False, **a)
            return rec.do("phys", n + 1, peek=pk)
        if op == "swap":  # a variable of a constraint is replaced by another one between two physical models
            if not st["cons"]:
                self.step("addcons", i)
                st = self.st(i)
            full = [k for k, c in st["cons"].items() if c["v1"]]
            if rec.dead or not full:
                return
            label = r.choice(full)
            c = st["cons"][label]
            v = r.choice(c["v1"])
            pool = [x for x in {self.label(i) for _ in range(25)} if x not in c["v1"] and x not in c["v2"]]
            same = [x for x in pool if len(x) == len(v)]
            if not pool:
                return
            w = r.choice(sorted(same or pool))
            rec.do("phys", i, peek=False)
            if r.random() < 0.5 or len(c["v1"]) < 2:
                rec.do("consadd", i, peek=False, label=label, side=1, vs=[w], how="list")
                rec.do("consrem", i, peek=False, label=label, side=1, vs=[v], how="list")
            else:
                rec.do("consrem", i, peek=False, label=label, side=1, vs=[v], how="one")
                rec.do("consadd", i, peek=False, label=label, side=1, vs=[w], how="one")
            if rec.dead:
                return
            return rec.do("phys", i, peek=pk)
        if op == "refix":  # fix, purge, couple again under the same name, fix again
            quads = [x for x in self.rows(i) if x["b"] == 2 and not x["r"]]
            if not quads:
                return
            q = r.choice(quads)
            v, w = (q["k0"], q["k1"]) if r.random() < 0.5 else (q["k1"], q["k0"])
            val = 1 if r.random() < 0.6 else (-1 if st["mtype"] == "ising" else 0)
            rec.do("fix", i, peek=pk, v=v, val=val)
            if r.random() < 0.8:
                rec.do("phys", i, peek=False)
            a = {"tk": "quad", "ta": w, "tb": v, "c": self.coef()}
            if q["name"] != q["k0"] + "*" + q["k1"]:
                a["name"] = q["name"]
            rec.do("add", i, peek=False, **a)
            return rec.do("fix", i, peek=True, v=v, val=1)
        if op == "missing":  # constraints, removed interactions and a missing placeholder value
            if not st["cons"]:
                self.step("addcons", i)
            live = [x for x in self.rows(i) if not x["r"]]
            if live and r.random() < 0.7:
                rec.do("remove", i, peek=False, name=r.choice(live)["name"])
            if r.random() < 0.7:
                rec.do("add", i, peek=False, tk="lin", ta=self.label(i), name=f"u{r.randrange(1000)}", c={"b": 0, "t": [[1, r.choice(list(rec.env))]]})
            elif r.random() < 0.5:
                rec.do("offset", i, peek=False, c={"b": 1.0, "t": [[1, r.choice(list(rec.env))]]})
            return rec.do("physmissing", i, peek=pk)
        if op == "share":  # merge, then change one of the two
            if n < 2:
                return
            j = r.choice([k for k in range(n) if k != i])
            if not self.st(j)["cons"] and self.st(j)["vars"]:
                self.step("addcons", j)
            self.step("merge", i) if r.random() < 0.3 else self.domerge(i, j, pk)
            k = r.choice([i, j])
            if not self.st(k)["vars"]:
                return
            for _ in range(2):
                if rec.dead:
                    return
                self.step(r.choice(["consadd", "consrem", "update", "remove", "delete", "add", "append"]), k)
            return rec.do("phys", i if k == j else j, peek=False)
        if op == "roundtrip":
            if self.conv >= p["maxconv"]:
                return
            self.conv += 1
            first = "qubo" if st["mtype"] == "ising" else "ising"
            rec.do(first, i, peek=pk)
            if r.random() < 0.4:
                self.step(r.choice(["update", "remove", "fix", "delete", "add"]), i)
            return rec.do(st["mtype"], i, peek=True)
        if op == "rephys":  # create the physical model, change one thing, create it again
            rec.do("phys", i, peek=False)
            if r.random() < 0.3:
                rec.do("phys", i, peek=False)
            kinds = [k for k, w in p["w"].items() if w > 0 and k in REPHYS]
            for _ in range(r.choice([1, 1, 2])):
                if rec.dead or not kinds:
                    return
                self.step(r.choice(kinds), i)
            if not rec.dead:
                rec.do("phys", i, peek=r.random() < 0.3)
            return
        if op == "reuse":  # delete a variable and use it again
            used = [x["k0"] for x in self.rows(i)]
            if not used:
                return
            v = r.choice(used)
            rec.do("delete", i, peek=pk, v=v)
            if r.random() < 0.5:
                rec.do("phys", i, peek=False)
            rec.do("add", i, peek=True, tk="lin", ta=v, c=self.coef(), name="" if r.random() < 0.5 else f"u{r.randrange(1000)}")
            return
        raise ValueError(op)

    def domerge(self, i, j, pk):
        rec = self.rec
        si, sj = self.st(i), self.st(j)
        for lab in sorted(set(si["cons"]) & set(sj["cons"])):
            rec.do("remcons", i, peek=False, label=lab)
        if si["mtype"] == "ising" and sj["mtype"] == "qubo":
            if self.conv >= self.p["maxconv"]:
                return
            self.conv += 1
        if len(self.rows(i)) + len(self.rows(j)) > 40:
            return
        return rec.do("merge", i, j, peek=pk)

    def pyqubo(self, i):
        r = self.r
        if self.st(i)["off"] or (i in self.loaded and r.random() < 0.5):
            return
        self.loaded.add(i)
        ls = sorted({self.label(i) for _ in range(r.randint(1, 5))})
        sym = 0.4 if self.rec.env else 0

        def coef(choices):
            if r.random() < sym:
                t = [[r.choice([1, 1, 2, -1, 0.5]), r.choice(list(self.rec.env))]]
                if r.random() < 0.3:
                    t[0].append(r.choice(list(self.rec.env)))
                if r.random() < 0.25:
                    t.append([r.choice([1, -2]), r.choice(list(self.rec.env))])
                return {"b": r.choice([0, 0, 1.0, -0.5]), "t": t}
            return r.choice(choices)
        lin = [(v, coef(COEFS[:-1])) for v in ls if r.random() < 0.6]
        quad = []
        for x in range(len(ls)):
            for y in range(x + 1, len(ls)):
                if r.random() < 0.4:
                    quad.append((ls[x], ls[y], coef(COEFS[:-1])))
        sq = []
        for _ in range(r.choice([0, 1, 1, 2])):
            ts = [(v, r.choice([1, -1, 2])) for v in ls if r.random() < 0.7]
            if len(ts) >= 1:
                sq.append({"ts": ts, "k": r.choice([0, -1, 1, -2]), "c": coef([1.0, 2.0, -0.5]), "form": r.randrange(4)})
        if r.random() < 0.05:  # nothing is left of the variables (of spins) but a constant
            lin, quad, sq = [], [], [{"ts": [(ls[0], r.choice([1, -1, 2]))], "k": 0, "c": r.choice([1.0, 2.0, -0.5]), "form": r.randrange(4)}]
        if not lin and not quad and not sq:
            lin = [(ls[0], 1.0)]
        und = {}
        if r.random() < 0.08 and not any(isinstance(c, dict) for c in [c for _, c in lin] + [c for _, _, c in quad] + [q["c"] for q in sq]):
            und = {"und": r.choice(["array", "index"])}
        return self.rec.do("pyqubo", i, peek=True, **und, k=coef([0, 0, 2.5, -3]), lin=lin, quad=quad, sq=sq, compile=r.random() < 0.4, twice=r.random() < 0.5, vt=r.choice(["", "", "ising", "qubo"]))

    def create(self, mt, rows):
        r, rec = self.r, self.rec
        i = len(rec.models)
        rec.do("new", i, mtype=mt)
        k = r.randint(1, 3)
        for name, shapes in r.sample(self.arrays, k):
            rec.do("vars", i, peek=False, name=name, sh=list(shapes[0] if r.random() < 0.6 else r.choice(shapes)))
        for _ in range(rows):
            self.step("add", i)
        if self.p["bulk"]:
            name = next(n for n, _ in self.arrays if n in self.st(i)["vars"])
            for k in range(r.randint(self.p["bulk"] // 2, self.p["bulk"])):
                a = self.interaction_args(i, False)
                a["name"] = r.choice([f"u{k}", f"u {k}", f"{name}[{k}]"])
                if r.random() < 0.1:
                    a["at"] = {r.choice(KEYS[:3]): r.choice(AVALS)}
                rec.do("add", i, peek=False, c=r.choice(COEFS), t=r.choice(TIMES), **a)

    def run(self):
        r, p, rec = self.r, self.p, self.rec
        for _ in range(r.randint(*p["nmodels"])):
            mt, n = r.choice(["ising", "qubo"]), r.randint(0, p["seedrows"])
            try:
                self.create(mt, n)
            except (IndexError, KeyError, ValueError, TypeError):
                rec.cut = True
            if rec.dead or rec.cut:
                return rec
        ops = [k for k, w in p["w"].items() if w > 0]
        ws = [p["w"][k] for k in ops]
        for _ in range(p["length"]):
            i = r.randrange(len(rec.models))
            if not self.st(i)["vars"]:
                rec.do("vars", i, peek=False, name=self.arrays[0][0], sh=[3])
                continue
            try:
                self.step(r.choices(ops, ws)[0], i)
            except (IndexError, KeyError, ValueError, TypeError):
                rec.cut = True  # the generator cannot continue from this state; what was recorded is still judged
                break
            if rec.dead:
                break
        return rec


def generate(prefix, seed, profile, count):
    out = []
    for k in range(count):
        out.append(Gen(f"{prefix}-{profile}-{seed}-{k}", f"{seed}/{profile}/{k}", PROFILES[profile]).run())
    return out
