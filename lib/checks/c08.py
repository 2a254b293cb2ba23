import hashlib
import json

import vlib

from . import common as k
from . import fmt


def numbered(nodes):
    """Numbered paragraphs in document order: their numbering and the text in them."""
    return [[n[1].split("num=")[1].split(";")[0], k.texts([n])] for n in k.pick(nodes, ("p",)) if "num=" in n[1]]


def lists(c, name, simulate=None, **consts):
    r = vlib.tlc("Numbering", dict(Sampled=bool(simulate), **consts), invariants=("Emit", "OneEach"), seed=c.seed, name=name,
                 simulate=simulate, depth=consts["Max"] + 2 if simulate else None)
    c.model(r, name, exhaustive=not simulate)
    cases = [{"mode": "num", "api": m["api"], "steps": m["steps"]} for m in r.cases]
    c.sample(cases[0])
    for m, case, o in zip(r.cases, cases, vlib.replay(cases)):
        key = "lists-" + hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
        f = vlib.failed(o) or o.get("unreadable")
        if f:
            c.bad(key, f"writing did not end in a readable package: {f}", case)
            continue
        c.traces += 1
        for view in ("markup", "read", "again"):
            # the content of the definition the library supplies is its own business
            got = [x for x in o[view] if not (m["given"] and x.startswith("abs(1)/"))]
            want = set(m[view])
            if want != set(got) or len(got) != len(set(got)):
                twice = sorted({x for x in got if got.count(x) > 1})
                text = f"{view}: missing {sorted(want - set(got))[:6]}, unexpected {sorted(set(got) - want)[:6]}, twice {twice[:4]}"
                c.bad(f"{key}/{view}", text, case, sorted(want), sorted(got))
                break


def run(c):
    n = 10 if c.thorough else 1
    for m, case, see, o in k.documents(c, want=["body", "comments", "footnotes", "hasNumbering", "read"], share=2):
        used = []
        for part in ("body", "comments", "footnotes"):
            k.compare(c, m, case, part + "-lists", numbered(see[part]), numbered(o[part] or []))
            used += numbered(see[part])
        k.compare(c, m, case, "read-lists", numbered(see["read"]), numbered(o["read"]["body"]))
        if used:
            k.compare(c, m, case, "numbering part", True, o["hasNumbering"])
    fmt.runs(c, "Fmt", ["level"], "level", kinds=True, values="all")
    fmt.runs(c, "Fmt", ["level"], "level-pairs", kinds=False, max=2)
    fmt.runs(c, "Fmt", ["level"], "level-long", kinds=True, values="all", max=8, simulate=1000 * n)
    lists(c, "lists", AbsIds={"0", "1", "2"}, NumIds={"1", "2"}, Max=3, Rich=False, Values="few")
    lists(c, "lists-long", simulate=2500 * n, AbsIds={"0", "1", "2", "7"}, NumIds={"1", "2", "3", "30"}, Max=14, Rich=True, Values="all")
