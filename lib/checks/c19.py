import hashlib
import itertools
import json
import os
import random

import vlib
from . import c20, common


# text that looks like the markup of the flat form
MARKS = ['a""b', "</pkg:part>", '<pkg:part pkg:name="/word/document.xml">', "</pkg:xmlData>", "<pkg:binaryData>AAAA</pkg:binaryData>",
         'pkg:name="/x"', "<?xml version='1.0'?>", "</pkg:package>", "]]>", "<!--", "<![CDATA[", "  two  spaces  ", "&amp;quot;", "\u00a0\U0001f600"]


def node(kind, value, *children):
    return {"k": kind, "v": value, "o": "", "c": list(children)}


def marked():
    """Such text in the body, a header, a comment, and in attributes."""
    for t in MARKS:
        p = node("p", "", node("r", "", node("t", t)))
        yield node("docx", "", p, node("h", "default", p), node("f", "default", p))
        yield node("docx", "", node("p", "", dict(node("cs", "1", p), o=f"|{t}|2024-01-02T03:04:05Z"), node("r", "", node("t", "x")), node("ce", "1")))
        yield node("docx", "", node("docvar", f"d={t}"), node("p", "", node("bms", f"1:{t}"), node("link", t, node("r", "", node("t", "x"))), node("bme", "1")))


def built(c):
    """Documents of the builder grammar."""
    place = vlib.tlc("Place", dict(MaxDepth=1, MaxItems=1, Feats=common.FEATS), seed=c.seed, name="Place")
    c.model(place, "Place", exhaustive=True)
    build = vlib.tlc("Build", dict(Depth=2, Width=3, MaxCalls=8), seed=c.seed, name="Build",
                     simulate=3000 if c.thorough else 500, depth=10)
    c.model(build, "Build", exhaustive=False)
    docs = [{"calls": m["calls"]} for m in place.cases + build.cases] + [{"calls": d} for d in marked()]
    random.Random(c.seed).shuffle(docs)
    return docs


def flat(c, name, path, bases, simulate=None, **consts):
    r = vlib.tlc("Flat", dict(Sampled=bool(simulate), **consts), invariants=("Emit", "Agree"), seed=c.seed, name=name,
                 env={"SHAPES": path}, simulate=simulate, depth=consts["Edits"] + 4 if simulate else None)
    c.model(r, name, exhaustive=not simulate)
    cases = [{"mode": "mutate", "compare": "zip", "base": bases[m["base"] - 1], "order": m["order"],
              "flat": {k: True for k in m["how"]}, "edits": [c20.unfault(e) for e in m["edits"]]} for m in r.cases]
    c.sample(cases[-1])
    replay(c, cases)
    return cases


def replay(c, cases):
    for case, o in zip(cases, vlib.replay(cases)):
        f = vlib.failed(o)
        key = "flat-" + hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
        if f:
            c.bad(key, f"reading did not end normally: {f}", case)
            continue
        c.traces += 1
        if "diff" in o:
            c.bad(key, o["diff"], case)


def run(c):
    docs = built(c)
    few = 300 if c.thorough else 40
    bases = c20.chosen(c, len(c20.fixtures()) if c.thorough else 12) + docs[:few]
    path, good = c20.shapes(c, bases)
    try:
        flat(c, "Flat-each", path, good, Edits=0, First=min(len(good), 13))
        forms = flat(c, "Flat-edited", path, good, simulate=30000 if c.thorough else 5000, Edits=4, First=len(good))
    finally:
        os.remove(path)
    # every other document in one of the containers that were drawn
    replay(c, [dict(x, base=d, edits=[]) for d, x in zip(docs[few:], itertools.cycle(forms))])
