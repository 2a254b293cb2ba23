"""Runs TLC on the specification, replays its behaviours in the library, compares, reports."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DOCX_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
TARGET = os.path.join(VERIF, "target")
BIN = os.path.join(TARGET, "debug", "docx-conform")
TLA = "/opt/veriftools/tla"
CORES = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    """The machinery failed (not the code under test)."""


# ---------------------------------------------------------------- build
def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "docx-core", "src"), os.path.join(REPO, "docx-core", "Cargo.toml")]
    for root in roots:
        if os.path.isfile(root):
            h.update(open(root, "rb").read())
            continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def cargo_env():
    e = dict(os.environ)
    e.update(
        RUSTUP_TOOLCHAIN="1.88-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=TARGET,
        CARGO_TERM_COLOR="never",
    )
    e.pop("RUSTFLAGS", None)
    return e


def build():
    """Builds the harness against /repo's current working tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, ".tree")
        h = tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        hd = os.path.join(VERIF, "harness")
        if old != h and old:
            # the content decides, not time stamps
            subprocess.run(["cargo", "clean", "--offline", "-p", "docx-rs"], cwd=hd, env=cargo_env(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=hd, env=cargo_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("harness does not build against the current tree:\n" + p.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(h)


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self):
        self.cases = []
        self.states = 0
        self.transitions = 0
        self.out = ""


def tlc(module, consts=None, invariants=("Emit",), init="Init", nxt="Next", simulate=None, seed=1,
        depth=None, props=(), name=None, workers=None, timeout=600, extra="", expect_ok=True, env=None,
        heap="3g", spec=None):
    """Checks `module` with the given constants; returns the JSON lines it printed.

    simulate=None: exhaustive breadth-first search. simulate=n: n random behaviours from `seed`.
    """
    name = name or module
    wd = os.path.join(WORK, "tlc", f"{name}-{os.getpid()}")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    cfg = os.path.join(wd, "model.cfg")
    lines = []
    if consts:
        lines.append("CONSTANTS")
        lines += [f"  {k} = {tla(v)}" for k, v in consts.items()]
    lines += [f"SPECIFICATION {spec}"] if spec else [f"INIT {init}", f"NEXT {nxt}"]
    lines += [f"INVARIANT {i}" for i in invariants]
    lines += [f"PROPERTY {i}" for i in props]
    lines.append("CHECK_DEADLOCK FALSE")
    if extra:
        lines.append(extra)
    with open(cfg, "w") as f:
        f.write("\n".join(lines) + "\n")
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC",
           "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", wd, "-config", cfg]
    if simulate:
        cmd += ["-simulate", f"num={simulate}", "-seed", str(seed), "-workers", "1"]
        if depth:
            cmd += ["-depth", str(depth)]
    else:
        cmd += ["-workers", str(workers or 4), "-seed", str(seed), "-fp", "1"]
    cmd.append(f"{module}.tla")
    e = dict(os.environ)
    if env:
        e.update(env)
    r = Tlc()
    try:
        p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC timed out on {name}")
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    text = p.stdout.decode("utf-8", "replace")
    rest = []
    for line in text.splitlines():
        if line.startswith('"{'):
            r.cases.append(json.loads(json.loads(line, strict=False)))
        else:
            rest.append(line)
    r.out = "\n".join(rest)
    r.code = p.returncode
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.out)
    if m:
        r.transitions = int(m.group(1).replace(",", ""))
        r.states = int(m.group(2).replace(",", ""))
    m = re.search(r"The number of states generated: ([\d,]+)", r.out)
    if m and simulate:
        r.transitions = r.states = int(m.group(1).replace(",", ""))
    if expect_ok and p.returncode != 0:
        raise ToolError(f"TLC failed on {name} (exit {p.returncode}):\n" + tlc_error(r.out))
    return r


def judge(c, module, records, consts=None, name=None, **kw):
    """TLC judges recorded observations with the specification; returns {index: problems}."""
    if not records:
        return {}
    os.makedirs(WORK, exist_ok=True)
    name = name or module
    path = os.path.join(WORK, f"{name}-{c.prop}-{os.getpid()}.ndjson")
    with open(path, "w") as f:
        for r in records:
            f.write(json.dumps(r) + "\n")
    try:
        r = tlc(module, consts, invariants=("Judge",), name=f"{name}-{c.prop}", env={"RECORDS": path}, **kw)
    finally:
        os.remove(path)
    c.states += r.states
    c.transitions += r.transitions
    c.models.append({"model": name, "states": r.states, "transitions": r.transitions,
                     "records_judged": len(records), "exhaustive": True})
    out = {}
    for x in r.cases:
        out.setdefault(x["bad"] - 1, []).append(x["problems"])
    return out


def tlc_error(out):
    i = max(0, out.find("Error:"))
    if "analysis failed" in out:
        return out[-2500:]
    return out[i:i + 1500] if i >= 0 else out[-3000:]


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    return '"' + str(v).replace("\\", "\\\\").replace('"', '\\"') + '"'


# ---------------------------------------------------------------- replay
def replay(cases, timeout_ms=10000, procs=None):
    """Runs the cases in the real library; returns one observation per case, in order.

    {"panic": m}, {"hang": true} and {"abort": code} are observations of the code under test.
    """
    procs = min(procs or CORES, max(1, len(cases)))
    res = [None] * len(cases)
    errs = []

    def work(w):
        idx = list(range(w, len(cases), procs))
        pos = 0
        env = dict(os.environ, CASE_TIMEOUT_MS=str(timeout_ms), RUST_BACKTRACE="0")
        while pos < len(idx):
            p = subprocess.Popen([BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, env=env)
            chunk = idx[pos:]

            def feed(chunk=chunk, p=p):
                try:
                    for i in chunk:
                        p.stdin.write(json.dumps(cases[i]).encode() + b"\n")
                    p.stdin.close()
                except (BrokenPipeError, OSError):
                    pass

            t = threading.Thread(target=feed, daemon=True)
            t.start()
            for line in p.stdout:
                try:
                    res[idx[pos]] = json.loads(line)
                except ValueError:
                    errs.append("bad worker output: " + line.decode("utf-8", "replace")[:300])
                    res[idx[pos]] = {"harness": "bad output"}
                pos += 1
            code = p.wait()
            t.join()
            if code == 3:  # hang reported, go on after it
                continue
            if code != 0:
                if pos < len(idx):
                    res[idx[pos]] = {"abort": code}
                    pos += 1
                continue
            if pos < len(idx):
                errs.append("worker ended early")
                return

    ts = [threading.Thread(target=work, args=(w,)) for w in range(procs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise ToolError(errs[0])
    for i, r in enumerate(res):
        if r is None:
            raise ToolError(f"no observation for case {i}")
        if "harness" in r:
            raise ToolError(f"harness fault: {r['harness']} on {json.dumps(cases[i])[:1500]}")
    return res


def failed(o):
    """The observation is that the library did not return."""
    for k in ("panic", "hang", "abort", "unreadable"):
        if k in o:
            return f"{k}: {o[k]}"
    return None


def compact(n):
    """Specification node (record) -> [k, v, children] as the harness prints it."""
    return [n["k"], n["v"], [compact(x) for x in n["c"]]]


def first_diff(a, b, path=""):
    """Human-readable first difference of two JSON values."""
    if type(a) != type(b):
        return f"{path}: expected {json.dumps(a)[:200]} got {json.dumps(b)[:200]}"
    if isinstance(a, list):
        for i in range(max(len(a), len(b))):
            if i >= len(a):
                return f"{path}[{i}]: unexpected {json.dumps(b[i])[:200]}"
            if i >= len(b):
                return f"{path}[{i}]: missing {json.dumps(a[i])[:200]}"
            d = first_diff(a[i], b[i], f"{path}/{a[0] if len(a) == 3 and isinstance(a[0], str) else ''}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in b:
                return f"{path}.{k}: missing {json.dumps(a[k])[:200]}"
            if k not in a:
                return f"{path}.{k}: unexpected {json.dumps(b[k])[:200]}"
            d = first_diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    return None if a == b else f"{path}: expected {json.dumps(a)[:200]} got {json.dumps(b)[:200]}"


# ---------------------------------------------------------------- findings and verdict
def known(prop):
    """Open entries of the known-findings file for this property: [(key, text)]."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


class Check:
    """Collects runs, comparisons and violations of one property."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.viol = []
        self.known_hits = {}
        self.models = []
        self.assumptions = []
        self.known = known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def model(self, r, name, exhaustive):
        self.states += r.states
        self.transitions += r.transitions
        self.models.append({"model": name, "states": r.states, "transitions": r.transitions,
                            "behaviours": len(r.cases), "exhaustive": exhaustive})

    def sample(self, x):
        if len(self.samples) < 5:
            s = json.dumps(x)
            self.samples.append(s if len(s) < 600 else s[:600] + "...")

    def bad(self, key, message, case=None, expected=None, observed=None):
        """One violation; key identifies input and failing condition."""
        for k, text in self.known:
            if k == key:
                self.known_hits[k] = text
                return
        self.viol.append({"key": key, "message": message, "case": case, "expected": expected, "observed": observed})

    def finish(self, level="model_checking"):
        wall = time.time() - self.t0
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "samples": self.samples,
                         "models": self.models},
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, text in self.known_hits.items():
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        if not self.viol:
            print(f"{self.prop}: held on {self.traces} replayed behaviours, {self.states} states, {wall:.1f}s")
            return 0
        d = os.path.join(WORK, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{self.tier}-{self.seed}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "count": len(self.viol), "violations": self.viol[:50]}, f, indent=1)
        for v in self.viol[:12]:
            print(f"  {v['key']}: {v['message']}")
        if len(self.viol) > 12:
            print(f"  ... {len(self.viol) - 12} more")
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1
