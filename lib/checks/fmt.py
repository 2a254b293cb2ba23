"""Formatting: the calls on each host of Fmt.tla / Mixed.tla, replayed many to a document."""
import hashlib
import json
import random

import vlib

WHOLE = {"docx", "document", "docsect", "settings"}  # one of these per document
BATCH = 40


def runs(c, module, hosts, name, simulate=None, places=("",), kinds=False, values="few", max=1, views=None, **consts):
    k = dict(Hosts=set(hosts), Places=set(places), Max=max, Values=values, Sampled=bool(simulate), **consts)
    inv = ("Emit", "LastWins", "Independent")
    if module == "Mixed":
        inv = ("Emit", "OwnCallsOnly", "Apart")
    else:
        k["AllKinds"] = kinds
    if views:
        inv = ("EmitJson",)
    r = vlib.tlc(module, k, invariants=inv, seed=c.seed, name=name, simulate=simulate, depth=max + 2 if simulate else None)
    c.model(r, name, exhaustive=not simulate)
    if not r.cases:
        raise vlib.ToolError(f"{module} produced no behaviours for {sorted(hosts)}")
    c.sample({k: r.cases[0][k] for k in ("host", "at", "kind", "calls")})
    compare(c, r.cases, views)


def item(m):
    host = "style" if m["host"] == "tstyle" else m["host"]
    out = {"host": host, "kind": m["kind"], "calls": m["calls"]}
    if m.get("parts"):
        out["parts"] = m["parts"]
    return out


def key(m):
    what = json.dumps([m["host"], m["at"], m["kind"], m["calls"], m.get("parts")], sort_keys=True)
    return m["host"] + "-" + hashlib.sha256(what.encode()).hexdigest()[:12]


def compare(c, models, views=None):
    models = list(models)
    random.Random(c.seed).shuffle(models)  # so that different hosts are neighbours in a document
    groups, by_place = [], {}
    for m in models:
        if m["host"] in WHOLE:
            groups.append([m])
        else:
            g = by_place.setdefault(m["at"], [])
            g.append(m)
            if len(g) == BATCH:
                groups.append(by_place.pop(m["at"]))
    groups += by_place.values()
    cases = [{"mode": "fmt", "at": g[0]["at"], "items": [item(m) for m in g], **({"json": True} if views else {})} for g in groups]
    for g, case, o in zip(groups, cases, vlib.replay(cases)):
        f = vlib.failed(o) or o.get("unreadable")
        if f:
            c.bad("doc-" + key(g[0]), f"writing did not end in a readable package: {f}", case)
            continue
        c.traces += len(g)
        for m, seen in zip(g, o["items"]):
            for view in views or (("markup",) if m["at"] == "footnote" else ("markup", "read", "again")):
                want, got = set(m[view]), set(seen[view])
                got -= set(m.get("may", ()))
                if want != got or len(seen[view]) != len(set(seen[view])):
                    text = f"{view}: missing {sorted(want - got)[:6]}, unexpected {sorted(got - want)[:6]}"
                    c.bad(f"{key(m)}/{view}", text, {**case, "item": item(m)}, sorted(want), sorted(got))
                    break


EVERYWHERE = ("", "cell", "sdt", "header", "first", "footer", "section", "comment", "footnote")


def explore(c, hosts, pairs=None, mixed=None):
    """Single calls with every value, in every place; pairs of calls; long sequences of calls."""
    n = 10 if c.thorough else 1
    runs(c, "Fmt", hosts, "single", kinds=True, values="all")
    placed = [h for h in hosts if h not in WHOLE and not h.startswith(("style", "tstyle", "sect", "level"))]
    if placed:
        runs(c, "Fmt", placed, "placed", kinds=True, places=EVERYWHERE)
    runs(c, "Fmt", pairs or hosts, "pairs", max=2)
    runs(c, "Fmt", hosts, "long", max=8, values="all", simulate=400 * n * len(hosts), kinds=True, places=EVERYWHERE)
    if mixed:
        runs(c, "Mixed", [mixed], "mixed", max=2 if mixed == "runs" else 1, places=("",), Widest=3, Deepest=2)
        runs(c, "Mixed", [mixed], "mixed-long", max=25, values="all", simulate=800 * n, places=EVERYWHERE, Widest=4, Deepest=3)
