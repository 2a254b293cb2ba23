import hashlib
import json

import vlib


def key_of(kind, case):
    return kind + "-" + hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def squeeze(s):
    """Breaks and tabs of a heading may become any space in its entry."""
    return "".join(s.split())


def wanted(toc):
    return {"switches": {k: v for k, v in toc["switches"]},
            "entries": [[e["lvl"], squeeze(e["text"]), e["to"], e["link"]] for e in toc["entries"]]}


def found(toc, marks):
    """An entry leads where its bookmark is; a bookmark that is not around one whole heading leads nowhere."""
    entries = []
    for e in toc["entries"]:
        to = marks.get(e["to"], [])
        where = e["to"] if not to else to[0]["around"] if len(to) == 1 and to[0]["whole"] else f"bookmarks {to}"
        if e["link"] and e["link"] != e["to"]:
            where = f"link to {e['link']}, page of {e['to']}"
        entries.append([e["lvl"], squeeze(e["text"]), where, bool(e["link"])])
    return {"switches": toc["switches"], "entries": entries}


def tables(c, mode, most, simulate=None):
    name = "Toc-" + mode
    r = vlib.tlc("Toc", dict(Max=most, Mode=mode, Sampled=bool(simulate)), invariants=("Emit", "OnceInOrder"), seed=c.seed, name=name,
                 simulate=simulate, depth=most + 2 if simulate else None)
    c.model(r, name, exhaustive=not simulate)
    cases = [{"mode": "toc", "calls": m["calls"]} for m in r.cases]
    c.sample(r.cases[-1]["tocs"])
    for m, case, o in zip(r.cases, cases, vlib.replay(cases)):
        key = key_of("toc", case)
        f = vlib.failed(o) or o.get("unreadable")
        if f:
            c.bad(key, f"writing did not end in a readable package: {f}", case)
            continue
        c.traces += 1
        marks = {}
        for b in o["bookmarks"]:
            marks.setdefault(b["name"], []).append(b)
        ids = [b["id"] for b in o["bookmarks"]]
        want, got = [wanted(t) for t in m["tocs"]], [found(t, marks) for t in o["tocs"]]
        for what, a, b in (
            ("tables", want, got),
            ("instruction as parsed", [w["switches"] for w in want], [t["parsed"] for t in o["tocs"]]),
            ("bookmarks of the user", sorted(m["own"]), sorted([b["name"], b["around"]] for b in o["bookmarks"] if [b["name"], b["around"]] in m["own"])),
            ("ids of two bookmarks", [], sorted({i for i in ids if ids.count(i) > 1})),
            ("names of two bookmarks", [], sorted(n for n in marks if len(marks[n]) > 1)),
            ("styles of entries", [], o["nostyle"]),
            ("open fields", 0, o["open"]),
        ):
            if a != b:
                c.bad(f"{key}/{what}", f"{what}: {vlib.first_diff(a, b)}", case, a, b)
                break


def instructions(c, name, most, values, simulate=None):
    r = vlib.tlc("TocInstr", dict(Max=most, Values=values, Sampled=bool(simulate)), invariants=("Emit", "OnceEach"), seed=c.seed, name=name,
                 simulate=simulate, depth=most + 2 if simulate else None)
    c.model(r, name, exhaustive=not simulate)
    cases = [{"mode": "tocinstr", "calls": m["calls"]} for m in r.cases]
    c.sample(r.cases[-1])
    for m, case, o in zip(r.cases, cases, vlib.replay(cases)):
        key = key_of("instr", case)
        f = vlib.failed(o) or o.get("unreadable")
        if f:
            c.bad(key, f"writing did not end in a readable package: {f}", case)
            continue
        c.traces += 1
        want = {k: v for k, v in m["switches"]}
        for view in ("written", "parsed"):
            if o[view] != want:
                c.bad(f"{key}/{view}", f"{view}: expected {want}, got {o[view]} from {o['text']!r}", case, want, o[view])
                break


def run(c):
    n = 10 if c.thorough else 1
    tables(c, "forms", 2)
    tables(c, "select", 3)
    tables(c, "any", 9, simulate=1500 * n)
    tables(c, "again", 9, simulate=1500 * n)
    instructions(c, "instr", 1, "all")
    instructions(c, "instr-pairs", 3 if c.thorough else 2, "few")
    instructions(c, "instr-long", 10, "all", simulate=300 * n)
