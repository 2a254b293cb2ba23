import glob
import hashlib
import json
import os

import vlib

RICH = {"flat": os.path.join(vlib.VERIF, "harness", "bases", "rich.xml")}


def fixtures():
    return [{"file": f} for f in sorted(glob.glob(os.path.join(vlib.REPO, "fixtures", "**", "*.docx"), recursive=True))
            if os.path.getsize(f) < 200000]


def shapes(c, bases):
    """Writes the parts and tokens of the bases for TLC; returns the path and the bases it holds."""
    good, out = [], []
    for b, o in zip(bases, vlib.replay([{"mode": "shape", "base": b} for b in bases])):
        f = vlib.failed(o)
        if f:
            c.bad("base-" + hashlib.sha256(json.dumps(b).encode()).hexdigest()[:12], f"reading a base package: {f}", b)
        elif o["reads"]:
            good.append(b)
            out.append(o)
    os.makedirs(vlib.WORK, exist_ok=True)
    path = os.path.join(vlib.WORK, f"shapes-{c.prop}-{os.getpid()}.json")
    with open(path, "w") as f:
        json.dump(out, f)
    return path, good


def chosen(c, n):
    """The rich package and n others, all of them in turn with the seed."""
    fx = fixtures()
    return [RICH] + [fx[(c.seed * n + i) % len(fx)] for i in range(min(n, len(fx)))]


def unfault(e):
    return {k: v for k, v in e.items() if v != -1}


def variants(c, name, path, bases, simulate=None, extra=None, **consts):
    r = vlib.tlc("Variants", dict(Sampled=bool(simulate), **consts), seed=c.seed, name=name, env={"SHAPES": path},
                 simulate=simulate, depth=consts["Edits"] + 2 if simulate else None)
    c.model(r, name, exhaustive=not simulate)
    work = r.cases
    if simulate:
        work = [m for m in work if len(m["edits"]) == consts["Edits"]]
    cases = [dict({"mode": "mutate", "compare": True, "base": bases[m["base"] - 1],
                   "edits": [unfault(e) for e in m["edits"]]}, **(extra or {})) for m in work]
    c.sample(cases[-1])
    for case, o in zip(cases, vlib.replay(cases)):
        f = vlib.failed(o)
        key = "variant-" + hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
        if f:
            c.bad(key, f"reading did not end normally: {f}", case)
            continue
        c.traces += 1
        if "diff" in o:
            c.bad(key, o["diff"], case)


def run(c):
    r = vlib.tlc("MarkupLaw", dict(Edits=3 if c.thorough else 2), invariants=("Kept",), name="MarkupLaw")
    c.model(r, "MarkupLaw", exhaustive=True)
    bases = chosen(c, len(fixtures()) if c.thorough else 5)
    path, good = shapes(c, bases)
    try:
        variants(c, "Variants-rich", path, good, Edits=1, First=1, Every=False)
        variants(c, "Variants-many", path, good, simulate=20000 if c.thorough else 3000, Edits=6, First=len(good), Every=True)
        variants(c, "Variants-one", path, good, simulate=60000 if c.thorough else 8000, Edits=1, First=len(good), Every=True)
    finally:
        os.remove(path)
