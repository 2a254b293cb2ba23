"""Runs shared by several properties: behaviours of a tree model replayed and compared by projection."""
import hashlib
import json

import vlib

FEATS = {"text", "img", "fn", "cmt", "reply", "link", "anchor", "num", "bm"}
WANT = ["body", "comments", "footnotes", "evenOdd", "media", "paraIds", "hasNumbering"]


def put(x, names):
    """Names of the model replaced by what they stand for."""
    if isinstance(x, dict):
        return {a: b if a == "what" else put(b, names) for a, b in x.items()}
    if isinstance(x, list):
        return [put(y, names) for y in x]
    return names.get(x, x) if isinstance(x, str) else x


def behaviours(c, module, consts, want=WANT, name=None, opts=None, names=None, **kw):
    """TLC enumerates (or samples) behaviours; the library replays them."""
    r = vlib.tlc(module, consts, seed=c.seed, name=name, **kw)
    c.model(r, name or module, exhaustive=not kw.get("simulate"))
    if names:
        r.cases = put(r.cases, names)
    if not r.cases:
        raise vlib.ToolError(f"{module} produced no behaviours")
    cases = [dict({"mode": "tree", "calls": x["calls"], "want": want, "both": True}, **(opts or {})) for x in r.cases]
    obs = vlib.replay(cases)
    c.traces += len(cases)
    c.sample({"what": r.cases[0].get("what"), "calls": vlib.compact(r.cases[0]["calls"])})
    out = []
    # the package is written directly and by building first; the second one is looked at when it is another
    seen = [(m, case, o) for m, case, o in zip(r.cases, cases, obs)]
    seen += [(m, dict(case, direct=True, both=False), o["other"]) for m, case, o in seen if "other" in o]
    for m, case, o in seen:
        f = vlib.failed(o)
        if f:
            c.bad(key_of(m), f"writing did not end in a readable package: {f}", case)
            continue
        see = {"body": [vlib.compact(x) for x in m["see"]["body"]],
               "comments": sorted((vlib.compact(x) for x in m["see"]["comments"]), key=lambda x: x[1]),
               "footnotes": [vlib.compact(x) for x in m["see"]["footnotes"]],
               "read": [vlib.compact(x) for x in m["see"]["read"]],
               "evenOdd": m["see"]["evenOdd"], "media": sorted(m["see"]["media"])}
        if "read" in want and "error" in o["read"]:
            c.bad(key_of(m), f"the written package cannot be read: {o['read']['error']}", case)
            continue
        out.append((m, case, see, o))
    return out


def key_of(m):
    w = m.get("what")
    if w == "b":  # a sampled document: identified by its content
        return "doc-" + hashlib.sha256(json.dumps(m["calls"], sort_keys=True).encode()).hexdigest()[:12]
    return "+".join(w) if isinstance(w, list) else str(w)


def compare(c, m, case, what, expected, observed):
    if expected != observed:
        c.bad(key_of(m) + "/" + what, vlib.first_diff(expected, observed, what) or "differs", case, expected, observed)


def pick(nodes, kinds, keep=True):
    """Nodes of these kinds in document order; keep: with their content."""
    out = []
    for k, v, ch in nodes:
        if k in kinds:
            out.append([k, v, ch if keep else []])
        out += pick(ch, kinds, keep)
    return out


def texts(nodes):
    return [v for k, v, _ in pick(nodes, ("t", "dt"), False)]


def outline(nodes, kinds):
    """Nodes of these kinds, each with the text and kinds below it."""
    return [[k, v, texts(ch)] for k, v, ch in pick(nodes, kinds)]


def place(c, **kw):
    """Every feature in every inline wrapper of every chain of containers, then pairs of placements."""
    runs = [dict(MaxDepth=2, MaxItems=1, Feats=FEATS)]
    if c.thorough:
        runs.append(dict(MaxDepth=3, MaxItems=1, Feats=FEATS))
    for i, k in enumerate(runs):
        yield from behaviours(c, "Place", k, name=f"Place{i}", **kw)
    # the content handed over as a whole
    kw["opts"] = dict(kw.get("opts") or {}, assembled=True)
    yield from behaviours(c, "Place", dict(MaxDepth=1, MaxItems=1, Feats=FEATS), name="PlaceWhole", **kw)


def documents(c, want=WANT, share=1, **kw):
    """Placements, several of everything, then whole documents sampled from everything the builder can express."""
    yield from place(c, want=want, **kw)
    yield from behaviours(c, "Rich", dict(Counts={2, 6, 12} if c.thorough else {3, 11}, Without={"toc"}), want=want, name="Rich", **kw)
    runs = [(2000, 3, 2, 3), (500, 8, 2, 3)]
    if c.thorough:
        runs = [(20000, 3, 2, 3), (6000, 8, 2, 3), (4000, 4, 3, 4)]
    for i, (n, calls, depth, width) in enumerate(runs):
        yield from behaviours(c, "Build", dict(Depth=depth, Width=width, MaxCalls=calls), want=want,
                              name=f"Build{i}", simulate=max(1, n // share), depth=calls + 2, **kw)


def judged(c, module, runs, field, consts=None, name=None):
    """Observations of these runs, judged by a trace specification."""
    recs, owner = [], []
    for m, case, see, o in runs:
        x = o[field]
        for r in x if isinstance(x, list) else [x]:
            recs.append(r)
            owner.append((m, case))
    for i, p in sorted(vlib.judge(c, module, recs, consts, name=name).items()):
        m, case = owner[i]
        c.bad(key_of(m) + "/" + (name or module), "; ".join(json.dumps(x) for x in p)[:600], case, observed=recs[i])
