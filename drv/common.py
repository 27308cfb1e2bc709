"""Shared machinery: environment, TLC, verdicts, evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPLAY = os.path.join(EVID, "replay")


class Machinery(Exception):
    """The check itself could not be carried out."""


class Unjudgeable(Machinery):
    """TLC could not evaluate the specification on what was recorded."""


class TlcResult:
    def __init__(self):
        self.out = ""
        self.generated = 0
        self.distinct = 0
        self.depth = 0
        self.lines = []  # printed tuples, parsed
        self.violated = None  # name of a violated invariant / property, or "deadlock", "postcondition"
        self.wall = 0.0


def _unquote(s):
    return s


def parse_tuple(line):
    """Parses a printed TLA+ value made of tuples, sets, strings, ints, booleans."""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(line) and line[pos] in " \n\t":
            pos += 1

    def value():
        nonlocal pos
        ws()
        if line.startswith("<<", pos):
            pos += 2
            return items(">>")
        if line[pos] == "{":
            pos += 1
            return items("}")
        if line[pos] == '"':
            pos += 1
            out = []
            while line[pos] != '"':
                if line[pos] == "\\":
                    pos += 1
                out.append(line[pos])
                pos += 1
            pos += 1
            return "".join(out)
        m = re.compile(r"-?\d+|TRUE|FALSE").match(line, pos)
        if not m:
            raise ValueError(line[pos:pos + 30])
        pos = m.end()
        t = m.group()
        return {"TRUE": True, "FALSE": False}.get(t) if t in ("TRUE", "FALSE") else int(t)

    def items(close):
        nonlocal pos
        out = []
        while True:
            ws()
            if line.startswith(close, pos):
                pos += len(close)
                return out
            out.append(value())
            ws()
            if line.startswith(",", pos):
                pos += 1

    return value()


def tlc(module, cfg=None, env=None, workers=8, extra=(), timeout=800, cwd=None, heap="6g", dfs=False):
    """Runs TLC on spec/<module>.tla.  Raises Machinery if TLC itself fails."""
    cfg = cfg or module + ".cfg"
    meta = tempfile.mkdtemp(prefix="tlc")
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m"]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TlcResult()
    r.wall = time.time() - t0
    r.out = p.stdout.decode("utf-8", "replace")
    buf = None
    for line in r.out.splitlines():
        if buf is None and re.match(r'<<\s*"', line):
            buf = line
        elif buf is not None:
            buf += " " + line
        if buf is not None:
            if buf.count("<<") == buf.count(">>"):
                try:
                    r.lines.append(parse_tuple(buf))
                except (ValueError, IndexError):
                    pass
                buf = None
        m = re.search(r"(\d+) states generated, (\d+) distinct", line)
        if m:
            r.generated, r.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r"The number of states generated: (\d+)", line)
        if m:
            r.generated = int(m.group(1))
        m = re.search(r"depth of the complete state graph search is (\d+)", line)
        if m:
            r.depth = int(m.group(1))
        m = re.search(r"Error: Invariant (\S+) is violated", line)
        if m:
            r.violated = m.group(1)
        m = re.search(r"Error: Action property (\S+)", line)
        if m:
            r.violated = r.violated or m.group(1)
        if "Temporal properties were violated" in line:
            r.violated = r.violated or "temporal"
        if "Deadlock reached" in line:
            r.violated = "deadlock"
    if p.returncode != 0 and r.violated is None:
        i = r.out.find("Error:")
        # a value the specification cannot represent (overflow) or of the wrong kind; not a parse error, time or memory
        evaluated = i >= 0 and (p.returncode in (75, 76, 77) or "Overflow when computing" in r.out) and "OutOfMemory" not in r.out and "StackOverflow" not in r.out
        raise (Unjudgeable if evaluated else Machinery)(f"TLC failed on {module} (exit {p.returncode}):\n{r.out[max(0, i - 200):i + 3000] if i >= 0 else r.out[-3000:]}")
    return r


def first_unjudgeable(items, attempt, err):
    """The first item on which attempt([item]) alone cannot be evaluated."""
    while len(items) > 1:
        half = items[:len(items) // 2]
        try:
            attempt(half)
            items = items[len(items) // 2:]
        except Unjudgeable as e:
            items, err = half, e
    return items[0], err


def setup_env():
    """Environment as in the repository's own test script, import from the working tree."""
    os.environ.setdefault("NO_GCE_CHECK", "true")
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []  # (clause, description, replay data)
        self.known = []  # (id, text)
        self.level = "model_checking"

    def add_tlc(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for kid, text in sorted(set(self.known)):
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        if self.violations:
            os.makedirs(REPLAY, exist_ok=True)
            shown = {}
            for k, (clause, desc, data) in enumerate(self.violations):
                if clause in shown:
                    continue
                path = os.path.join(REPLAY, f"{self.prop}-{len(shown)}.json")
                shown[clause] = path
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "clause": clause, "what": desc, "replay": data}, f, indent=1, default=str)
                print(f"  clause {clause}: {desc}")
                if len(shown) >= 8:
                    break
            path = os.path.join(REPLAY, f"{self.prop}-0.json")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"OK property={self.prop} states={self.cov['states']} traces={self.cov['traces_validated_against_impl']} wall={ev['wall_s']}s")
        return 0


def known_findings(prop):
    """Listed (committed) open findings of a property: id -> text."""
    out = {}
    with open(os.path.join(VERIF, "KNOWN-FINDINGS.md")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) (\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(2) + " " + m.group(3)
    return out


def scratch(prefix="vf"):
    return tempfile.mkdtemp(prefix=prefix)
