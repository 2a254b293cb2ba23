import vlib

from . import common as k


def contents(c):
    """Stories of documents with tables of contents of every form next to anything."""
    n = 3000 if c.thorough else 300
    r = vlib.tlc("Toc", dict(Max=7, Mode="any", Sampled=True), seed=c.seed, name="Toc-stories", simulate=n, depth=9)
    c.model(r, "Toc-stories", exhaustive=False)
    cases = [{"mode": "tree", "calls": m["calls"], "want": ["stories"], "both": True} for m in r.cases]
    c.traces += len(cases)
    runs = []
    for i, (m, case, o) in enumerate(zip(r.cases, cases, vlib.replay(cases))):
        m["what"] = f"toc{i}"
        for x in [o] + ([o["other"]] if "other" in o else []):
            f = vlib.failed(x)
            if f:
                c.bad(m["what"], f"writing did not end in a readable package: {f}", case)
            else:
                runs.append((m, case, None, x))
    k.judged(c, "Nesting", runs, "stories", name="Nesting-toc")


def run(c):
    runs = []
    for m, case, see, o in k.documents(c, want=["body", "comments", "footnotes", "stories"]):
        # nothing is written outside the element it was added to
        k.compare(c, m, case, "body", see["body"], o["body"])
        k.compare(c, m, case, "comments", see["comments"], o["comments"])
        runs.append((m, case, see, o))
    k.judged(c, "Nesting", runs, "stories")
    contents(c)
