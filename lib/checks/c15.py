import base64
import hashlib
import json
import os
import random

import vlib
from . import c20

NAMES = {"p", "r", "tbl", "tr", "tc", "sdt", "t", "hyperlink", "drawing", "ins", "zzz"}


def ended(c, cases, what):
    """Every reading ended with a document or an error."""
    out = vlib.replay(cases)
    for case, o in zip(cases, out):
        c.traces += 1
        f = vlib.failed(o)
        if f:
            c.bad(what + "-" + hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12],
                  f"reading did not end in a document or an error: {f}", case)
    return out


def case_of(m, bases):
    edits = [{k: e[k] for k in ("part", "at", "op", "arg", "fault") if not (k == "at" and e[k] < 0)}
             for e in m["faults"] if e["fault"]]
    damage = [{"op": e["op"], "at": e["at"], "arg": int(e["arg"]), "sig": e["part"], "n": e["n"], "width": e["width"]}
              for e in m["faults"] if not e["fault"]]
    case = {"mode": "mutate", "base": bases[m["base"] - 1], "edits": edits, "damage": damage}
    return dict(case, flat={}) if m["flat"] else case


def faults(c, name, path, bases, kinds, n, simulate=None, first=None, skip=lambda m: False):
    r = vlib.tlc("Faults", dict(Faults=n, First=first or len(bases), Kinds=kinds, Sampled=bool(simulate)), seed=c.seed,
                 name=name, env={"SHAPES": path}, simulate=simulate, depth=n + 2 if simulate else None)
    c.model(r, name, exhaustive=not simulate)
    cases = [case_of(m, bases) for m in r.cases if len(m["faults"]) == n and not skip(m)]
    c.sample(cases[-1])
    ended(c, cases, name)


def streams(c, n, names):
    """Every stream of tokens in a body: the outcome is the one the model gives."""
    laws = ("Waits", "Work", "Shallow")
    r = vlib.tlc("Descent", dict(Max=n + 2, Deep=3, Names={"p", "tbl", "zzz"}, Careful=True), invariants=laws, props=("Ends",),
                 name="Descent-ends", spec="Spec")
    c.model(r, "Descent-ends", exhaustive=True)
    r = vlib.tlc("Descent", dict(Max=n, Deep=200, Names=names, Careful=True), invariants=("Emit",) + laws, name="Descent")
    c.model(r, "Descent", exhaustive=True)
    head = '<w:document xmlns:w="http://schemas.openxmlformats.org/wordprocessingml/2006/main"><w:body>'
    cases = []
    for m in r.cases:
        body = "".join({"o": f"<w:{t['n']}>", "c": f"</w:{t['n']}>", "t": "z"}[t["k"]] for t in m["given"])
        cases.append({"mode": "mutate", "base": {"calls": {"k": "docx", "v": "", "o": "", "c": []}}, "edits":
                      [{"part": "word/document.xml", "op": "pset", "arg": head + body + ("</w:body></w:document>" if m["end"] != "eof" else "")}]})
    for m, case, o in zip(r.cases, cases, ended(c, cases, "stream")):
        if not vlib.failed(o) and o["ok"] != (m["outcome"] == "document"):
            c.bad("stream-" + hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12],
                  f"the model ends with {m['outcome']}, the reader with {'document' if o['ok'] else 'error'}", case)


def run(c):
    streams(c, 5 if c.thorough else 4, NAMES)
    bases = c20.chosen(c, len(c20.fixtures()) if c.thorough else 6)
    path, good = c20.shapes(c, bases)
    try:
        faults(c, "token", path, good, {"token"}, 1, first=1, skip=lambda m: m["flat"])
        faults(c, "chain", path, good, {"chain"}, 1, first=1, skip=lambda m: m["flat"])
        faults(c, "part", path, good, {"part"}, 1, first=4)
        faults(c, "container", path, good, {"container"}, 1, first=2)
        faults(c, "inside", path, good, {"inside"}, 1, simulate=60000 if c.thorough else 8000)
        faults(c, "two", path, good, {"token", "inside", "part", "container"}, 2, simulate=60000 if c.thorough else 6000)
        faults(c, "four", path, good, {"token", "inside"}, 4, simulate=30000 if c.thorough else 2000)
    finally:
        os.remove(path)
    raw(c)


def raw(c):
    """Bytes without structure, and with a little of it."""
    rng = random.Random(c.seed)
    bits = [b"PK\x03\x04", b"PK\x05\x06" + bytes(18), b"PK\x01\x02", b"<?xml", b"<pkg:package>", b"<pkg:part", b' pkg:name="', b'"', b">", b"</pkg:part>",
            b"<pkg:xmlData>", b"</pkg:xmlData>", b"<pkg:binaryData>", b"</pkg:binaryData>", b"/_rels/.rels", b"\xff\xfe", b"&", b"'", b"<", b"/>", b"AAAA", b"\0"]
    cases = []
    for n in range(20000 if c.thorough else 4000):
        s = b"".join(rng.choice(bits) if rng.random() < .8 else bytes(rng.randrange(256) for _ in range(rng.randrange(6)))
                     for _ in range(rng.randrange(1, 14)))
        cases.append({"mode": "mutate", "raw": base64.b64encode(s).decode()})
    cases += [{"mode": "mutate", "raw": base64.b64encode(bytes([n])).decode()} for n in range(256)] + [{"mode": "mutate", "raw": ""}]
    ended(c, cases, "raw")
