import hashlib
import json

import vlib

CHARS = {
    "nul": "\0", "bell": "\x07", "vt": "\x0b", "esc": "\x1b", "us": "\x1f", "fffe": "\ufffe", "ffff": "\uffff", "cr": "\r",
    "lt": "<", "gt": ">", "amp": "&", "quot": '"', "apos": "'", "sp": " ", "tab": "\t", "nl": "\n", "nbsp": "\u00a0",
    "nel": "\u0085", "ls": "\u2028", "semi": ";", "hash": "#", "bs": "\\", "eacute": "\u00e9", "clef": "\U0001d11e",
    "comb": "\u0301", "del": "\x7f", "fffd": "\ufffd", "e000": "\ue000", "bom": "\ufeff", "zwj": "\u200d", "pct": "%",
    "comma": ",", "rsb": "]", "lsb": "[", "bang": "!", "dash": "-", "qm": "?", "slash": "/", "colon": ":",
}


def text(names):
    return "".join(CHARS.get(n, n) for n in names)


def texts(c, name, simulate=None, **consts):
    r = vlib.tlc("Text", dict(Sampled=bool(simulate), **consts), invariants=("Emit", "Back"), seed=c.seed, name=name,
                 simulate=simulate, depth=consts["Slots"] + 2 if simulate else None)
    c.model(r, name, exhaustive=not simulate)
    work = r.cases if simulate is None else [m for m in r.cases if len(m["slots"]) == consts["Slots"]]
    cases = [{"mode": "texts", "shape": m["shape"],
              "slots": [{k: v if k == "f" else text(v) for k, v in s.items()} for s in m["slots"]]} for m in work]
    c.sample(cases[-1])
    for case, o in zip(cases, vlib.replay(cases)):
        f = vlib.failed(o)
        key = "text-" + hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
        if f:
            c.bad(key, f"writing or reading did not end normally: {f}", case)
            continue
        c.traces += 1
        if len(case["slots"]) == 1 and not (o["places"].get("package") or [1])[0]:
            o["bad"].append("the text is nowhere in the package")
        if o["bad"]:
            c.bad(key, o["bad"][0], case, None, o["bad"])


# one field for each way of writing a text
KINDS = {"text", "text.header", "link.url", "tc.text", "pageref", "web.propValue", "item.text", "prop.value", "sdt.alias", "toc.itemKey"}


def run(c):
    texts(c, "Text-one", Max=1, Slots=1, Only=set())
    texts(c, "Text-pairs", Max=2, Slots=1, Only=set() if c.thorough else KINDS)
    texts(c, "Text-two", simulate=40000 if c.thorough else 8000, Max=2, Slots=1, Only=set())
    texts(c, "Text-many", simulate=6000 if c.thorough else 1500, Max=14, Slots=4, Only=set())
    texts(c, "Text-long", simulate=20000 if c.thorough else 3000, Max=40, Slots=1, Only=set())
