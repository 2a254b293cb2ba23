import hashlib
import json
import random

import vlib

from . import common as k


def histories(c, docs, name, share, simulate=None, **consts):
    """Every history is tried on share sets of documents, and every document has some history."""
    r = vlib.tlc("Session", dict(Sampled=bool(simulate), **consts), seed=c.seed, name=name, simulate=simulate,
                 depth=consts["Max"] + 2 if simulate else None, props=() if simulate else ("Stable",))
    c.model(r, name, exhaustive=not simulate)
    rng = random.Random(c.seed)
    work, todo = [], []
    for m in r.cases:
        for _ in range(share):
            if len(todo) < consts["Docs"]:
                more = list(docs)
                rng.shuffle(more)
                todo += more
            work.append((m, [todo.pop() for _ in range(consts["Docs"])]))
    cases = [{"mode": "session", "docs": [d["calls"] for d in ds], "log": m["log"]} for m, ds in work]
    c.sample({"log": [f"{o['o']} {o['i'] or ''}{o['x']}" for o in cases[0]["log"]], "documents": [k.key_of(d) for d in work[0][1]]})
    for (m, ds), case, o in zip(work, cases, vlib.replay(cases)):
        c.traces += 1
        key = "session-" + hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
        f = vlib.failed(o) or o.get("unreadable")
        if f:
            c.bad(key, f"the history did not end: {f}", case)
            continue
        first = {}
        for n, (origin, parts) in enumerate(zip(m["gave"], o["gave"])):
            was = first.setdefault(tuple(origin), (n, parts))
            if was[1] != parts:
                names = sorted(p for p in set(was[1]) | set(parts) if was[1].get(p) != parts.get(p))
                c.bad(key, f"writes {was[0] + 1} and {n + 1} of the same document differ in {names[:5]}", case, was[1], parts)
                break


def run(c):
    place = vlib.tlc("Place", dict(MaxDepth=1, MaxItems=1, Feats=k.FEATS), seed=c.seed, name="Place")
    c.model(place, "Place", exhaustive=True)
    built = vlib.tlc("Build", dict(Depth=2, Width=3, MaxCalls=8), seed=c.seed, name="Build", simulate=4000 if c.thorough else 400, depth=10)
    c.model(built, "Build", exhaustive=False)
    rich = vlib.tlc("Rich", dict(Counts={2, 6} if c.thorough else {4}, Without=set()), seed=c.seed, name="Rich")
    c.model(rich, "Rich", exhaustive=True)
    docs = place.cases + built.cases + rich.cases
    histories(c, docs, "histories", share=1, Docs=1, Max=3, Hands=3)
    histories(c, docs, "two-documents", share=1, Docs=2, Max=2, Hands=4)
    histories(c, docs, "long", share=1, simulate=6000 if c.thorough else 500, Docs=3, Max=12, Hands=6)
    histories(c, rich.cases, "several", share=2, Docs=1, Max=2, Hands=3)
