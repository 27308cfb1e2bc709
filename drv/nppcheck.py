"""C28: the number-partitioning reference solver against Npp.tla."""
import contextlib
import io
import json
import random

import common
from annealcheck import judge_bad, mc, with_trace


def call(tid, nums, every, as_numpy=False, table=False):
    from sawatabi.utils import solve_npp_with_dp

    d = {"numbers": nums, "all": every, "numpy": as_numpy, "table": table}
    arg = list(nums)
    if as_numpy:
        import numpy as np

        arg = list(np.array(nums, dtype=int))
    run = {"id": tid, "nums": nums, "all": every, "ok": True, "exact": False, "p1": [], "p2": []}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            kw = {"print_dp_table": True} if table else {}
            out = solve_npp_with_dp(arg, enumerate_all=True, **kw) if every else solve_npp_with_dp(arg, **kw)
        run["exact"] = bool(out[0])
        run["p1"] = [[int(i) for i in p] for p in out[1]]
        run["p2"] = [[int(i) for i in p] for p in out[2]]
    except Exception as x:  # noqa: BLE001
        run["ok"] = False
        d["exc"] = f"{type(x).__name__}: {x}"
    return run, d


def judge(rep, res):
    for k in range(0, len(res), 4000):
        part = res[k:k + 4000]
        r = with_trace("NppTrace", [x[0] for x in part])
        rep.add_tlc(r)
        judge_bad(rep, "C28", part, r)


def run(prop, tier, seed):
    rep = common.Report(prop, tier, seed)
    q = tier == "quick"
    mc(rep, "NppMC", [] if q else [("N = 5", "N = 6")])
    for v in ("twice", "strict", "overwrite"):
        mc(rep, "NppMC", [('"design"', f'"{v}"')], expect=("InvPrefix", "InvBest", "InvAll"))
    r = random.Random(f"{seed}/npp")
    res = []
    # every list of the specification
    full = [x for n in range(0, 4 if q else 6) for x in _all(n, 5 if q else 4)]
    for k, nums in enumerate(full):
        res.append(call(f"all-{k}", nums, True))
        res.append(call(f"one-{k}", nums, False))
    for k in range(400 if q else 4000):
        n = r.randint(1, 9)
        m = r.choice([2, 3, 6, 12, 40])
        nums = [r.randint(1, m) for _ in range(n)]
        if r.random() < 0.2:
            nums[r.randrange(n)] = sum(nums) + r.randint(0, 3)
        every = r.random() < 0.6
        res.append(call(f"rnd-{k}", nums, every, r.random() < 0.2, r.random() < 0.1))
    for k in range(20 if q else 200):
        n = r.randint(12, 40)
        res.append(call(f"big-{k}", [r.randint(1, r.choice([3, 30])) for _ in range(n)], False))
    for k in range(50 if q else 400):  # many optimal subsets
        n = r.randint(8, 12)
        nums = [r.randint(1, r.choice([1, 2, 3, 4])) for _ in range(n)]
        if r.random() < 0.5:
            nums[r.choice([-1, 0, n // 2])] = r.randint(2, max(2, sum(nums) // 2))
        if r.random() < 0.3:
            nums.sort(reverse=r.random() < 0.5)
        res.append(call(f"many-{k}", nums, True))
    for k in range(10 if q else 100):  # all the optimal subsets of longer lists
        n = r.randint(13, 15 if q else 17)
        res.append(call(f"allbig-{k}", [r.randint(1, r.choice([30, 60])) for _ in range(n)], True))
    for k in range(8 if q else 60):  # long lists
        n = r.choice([41, 64, 70, 100, 150])
        top = r.choice([1, 2, 3, 9])
        res.append(call(f"long-{k}", [r.randint(1, top) for _ in range(n)] + ([r.randint(1, top * n)] if r.random() < 0.3 else []), False))
    for k in range(6 if q else 40):  # large numbers
        res.append(call(f"large-{k}", [r.randint(1, 3000) for _ in range(r.randint(2, 7))], r.random() < 0.5))
    judge(rep, res)
    rep.cov["calls"] = len(res)
    rep.cov["samples"].append(res[7][0])
    rep.assumptions = ["all optimal subsets are compared one by one for lists of up to 12 numbers; on longer lists they are checked to be optimal, distinct and as many as the dynamic program counts, and the dynamic program equals brute force on all lists of NppMC"]
    return rep.finish()


def _all(n, m):
    out = [[]]
    for _ in range(n):
        out = [x + [k] for x in out for k in range(1, m + 1)]
    return out


def replay(path):
    j = json.load(open(path))
    d = j["replay"]
    rep = common.Report("C28", "quick", 0)
    judge(rep, [call("replay", d["numbers"], d["all"], d["numpy"], d["table"])])
    for v in rep.violations:
        print(v[0], v[1])
    return 1 if rep.violations else 0
