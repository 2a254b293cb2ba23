import random

import vlib
from . import common as k

WANT = ["body", "comments", "footnotes", "media", "paraIds", "graph", "read"]
KINDS = {"link", "pic", "fn", "ins"}
DRAWN = ("link", "pic", "fn", "bookmark", "toc")


def same(c, m, case, see, o):
    """What the document shows does not depend on who built it."""
    for part in ("body", "comments"):
        k.compare(c, m, case, part, see[part], o[part])
    k.compare(c, m, case, "stored", see["media"], sorted(o["media"]))
    k.compare(c, m, case, "read", see["read"], o["read"]["body"])
    ids = o["paraIds"]
    ids = [x for p in ids.values() for x in p] if isinstance(ids, dict) else ids
    if len(set(map(str, ids))) != len(ids):
        c.bad(k.key_of(m) + "/ids", "two paragraphs with one id", case, observed=ids)


def laws(c):
    """Drawing in one step is right; TLC finds the clash of the two other ways."""
    for t, n, kinds in ((3, 3, {"link"}), (2, 3, {"link", "pic"}), (4, 2, {"link"})):
        name = f"Draws-{t}x{n}"
        r = vlib.tlc("Draws", dict(Threads=set(range(1, t + 1)), Drawn=kinds, Each=n, Step="one"), invariants=("Distinct", "Resolves"), name=name)
        c.model(r, name, exhaustive=True)
    for step in ("two", "own"):
        r = vlib.tlc("Draws", dict(Threads={1, 2}, Drawn={"link"}, Each=2, Step=step), invariants=("Distinct",), name="Draws-" + step, expect_ok=False)
        if r.code != 12:
            raise vlib.ToolError(f"the model finds no clash for Step = {step}")


def turns(c):
    """All orders in which threads draw, replayed with threads that take turns."""
    for t, n, kinds in ((2, 2, KINDS), (3, 2, {"link", "fn"}) if c.thorough else (3, 2, {"link"}), (3, 3, {"link"})):
        name = f"Turns-{t}x{n}-{len(kinds)}"
        r = vlib.tlc("Draws", dict(Threads=set(range(1, t + 1)), Drawn=kinds, Each=n, Step="one"), seed=c.seed, name=name)
        c.model(r, name, exhaustive=True)
        replay(c, [dict(m, calls=dict(m["calls"], c=[dict(x, t=e["thread"]) for x, e in zip(m["calls"]["c"], m["order"])])) for m in r.cases],
               {"turns": t})


def replay(c, ms, extra):
    cases = [dict({"mode": "tree", "calls": m["calls"], "want": WANT}, **extra) for m in ms]
    c.sample({"threads": extra, "calls": cases[-1]["calls"]["c"][:2]})
    judge(c, ms, cases, vlib.replay(cases))


def judge(c, ms, cases, obs):
    runs = []
    for m, case, o in zip(ms, cases, obs):
        f = vlib.failed(o)
        if f:
            c.bad(k.key_of(m), f"writing did not end in a readable package: {f}", case)
            continue
        if "error" in o["read"]:
            c.bad(k.key_of(m), f"the written package cannot be read: {o['read']['error']}", case)
            continue
        c.traces += 1
        see = {x: [vlib.compact(y) for y in m["see"][x]] for x in ("body", "comments", "read")}
        see["comments"].sort(key=lambda x: x[1])
        see["media"] = sorted(m["see"]["media"])
        same(c, m, case, see, o)
        runs.append((m, case, see, o))
    k.judged(c, "PkgTrace", runs, "graph", dict(Rule="closed"), name="Closed")
    k.judged(c, "PkgTrace", runs, "graph", dict(Rule="changes"), name="ChangeIds")


def spread(rng, n, threads):
    """Some elements of the tree on other threads."""
    n = dict(n, c=[spread(rng, x, threads) for x in n["c"]])
    if n["k"] != "docx" and rng.random() < .5:
        n["t"] = rng.randrange(threads + 1)
    return n


def run(c):
    laws(c)
    turns(c)
    rng = random.Random(c.seed)
    r = vlib.tlc("Build", dict(Depth=2, Width=3, MaxCalls=8), seed=c.seed, name="Build", simulate=6000 if c.thorough else 800, depth=10)
    c.model(r, "Build", exhaustive=False)
    docs = r.cases
    half = len(docs) // 2
    replay(c, [dict(m, calls=spread(rng, m["calls"], 4)) for m in docs[:half]], {"turns": 4})
    replay(c, docs[half:], {"once": 4})
    crowd(c, docs)
    hammer(c)


def crowd(c, docs, size=8):
    """Documents built, written and read at once; each as if it were alone."""
    groups = [docs[i:i + size] for i in range(0, len(docs) - size + 1, size)]
    cases = [{"mode": "crowd", "docs": [m["calls"] for m in g], "again": 6, "want": WANT, "direct": i % 2 == 1} for i, g in enumerate(groups)]
    ms, cs, obs = [], [], []
    for g, case, o in zip(groups, cases, vlib.replay(cases, procs=2, timeout_ms=60000)):
        f = vlib.failed(o)
        if f:
            c.bad("crowd-" + k.key_of(g[0]), f"writing at once did not end: {f}", case)
            continue
        for m, seen in zip(g, o["seen"]):
            for x in seen:
                ms.append(m)
                cs.append(case)
                obs.append(x)
    judge(c, ms, cs, obs)


def hammer(c):
    rounds = 40 if c.thorough else 6
    cases = [{"mode": "hammer", "kind": x, "threads": t, "each": n} for _ in range(rounds) for x in DRAWN for t, n in ((8, 1500), (2, 4000), (64, 40))]
    obs = vlib.replay(cases, procs=1, timeout_ms=60000)
    for case, o in zip(cases, obs):
        if vlib.failed(o):
            c.bad("hammer-" + case["kind"], f"drawing did not end: {vlib.failed(o)}", case)
    good = [(case, o) for case, o in zip(cases, obs) if not vlib.failed(o)]
    c.traces += len(good)
    for i, p in sorted(vlib.judge(c, "DrawTrace", [o for _, o in good]).items()):
        case = good[i][0]
        c.bad(f"hammer-{case['kind']}-{case['threads']}", f"threads drew the same identifier: {p}", case)
