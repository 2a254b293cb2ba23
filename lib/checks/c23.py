import json

import vlib

KINDS = {"error", "down", "none", "some", "again"}


def laws(c):
    """A writer that follows the law is honest and ends; one that overlooks failures is found out."""
    n = 8 if c.thorough else 6
    r = vlib.tlc("Sink", dict(Units=n, Repeats=2, Careless=False), invariants=("Honest", "Told", "Prefix"), props=("Ended",), spec="Spec", name="Sink")
    c.model(r, "Sink", exhaustive=True)
    r = vlib.tlc("Sink", dict(Units=3, Repeats=1, Careless=True), invariants=("Honest",), name="Sink-careless", expect_ok=False)
    if r.code != 12:
        raise vlib.ToolError("the model finds no dishonest writing by a careless writer")


def writings(c, name, simulate=None, **consts):
    consts = dict(dict(Docs={"", "all"}, Ats=set(), Kinds0=KINDS, Rooms={9999}, Gulps={0}, Kept={False}, Max=0), **consts)
    r = vlib.tlc("SinkPlan", dict(consts, Sampled=bool(simulate)), seed=c.seed, name=name, simulate=simulate, depth=consts["Max"] + 2 if simulate else None)
    c.model(r, name, exhaustive=not simulate)
    if not r.cases:
        raise vlib.ToolError(f"{name} produced no behaviours")
    cases = [dict(mode="sink", calls=m["calls"], direct=m["direct"], faults=m["faults"], room=m["room"] if m["room"] < 9999 else None,
                  gulp=m["gulp"] or None, buffered=m["kept"]) for m in r.cases]
    c.traces += len(cases)
    c.sample({k: r.cases[-1][k] for k in ("what", "direct", "faults", "room", "gulp", "kept")})
    recs, owner = [], []
    for m, case, o in zip(r.cases, cases, vlib.replay(cases)):
        key = "{what}/{0}/{faults}/{room}/{gulp}/{kept}".format("direct" if m["direct"] else "built", **m)
        f = vlib.failed(o)
        if f:
            c.bad(key, f"writing did not end: {f}", case)
            continue
        recs.append({k: o[k] for k in ("result", "answers", "whole", "again")})
        owner.append((key, case, o))
    for i, p in sorted(vlib.judge(c, "SinkTrace", recs, name=name + "-judged").items()):
        key, case, o = owner[i]
        c.bad(key, "; ".join(json.dumps(x) for x in p)[:600], case, observed=o)
    return owner


def run(c):
    laws(c)
    # how many requests there are is up to the library: faults after the last one do not happen
    seen = writings(c, "SinkPlain", Gulps={0, 1, 2, 7, 1000}, Rooms={9999, 1000, 2000})
    last = max(o["asked"] for _, case, o in seen if not case["gulp"] and case["room"] is None)
    writings(c, "SinkOnce", Ats=set(range(1, min(last, 3000 if c.thorough else 900) + 2)), Max=1)
    writings(c, "SinkFull", Rooms=set(range(0, 1001, 1 if c.thorough else 5)), Kept={True, False})
    kinds = {"picture", "custom", "header", "comment", "footnote", "webext", "cprop", "section", "toc"}
    writings(c, "SinkMany", simulate=20000 if c.thorough else 2000, Docs=kinds | {"", "all"}, Ats=set(range(1, last + 2)), Max=3,
             Rooms={9999, 300, 900}, Gulps={0, 3, 50}, Kept={True, False})
