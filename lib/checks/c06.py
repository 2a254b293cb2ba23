from . import common as k

WANT = ["body", "footnotes"]


EMPTY = ["footnote", "", [["p", "", []]]]


def notes(v):
    """Empty notes cannot be told apart: references to them may share one."""
    return sorted(x for x in v if x != EMPTY) + [EMPTY] * (EMPTY in v)


def judge(c, runs):
    for m, case, see, o in runs:
        k.compare(c, m, case, "references", k.pick(see["body"], ("fn",)), k.pick(o["body"], ("fn",)))
        stored = [["footnote", "", ch] for _, _, ch in o["footnotes"] or []]
        k.compare(c, m, case, "footnotes", notes(see["footnotes"]), notes(stored))
        k.compare(c, m, case, "part", bool(see["footnotes"]), o["footnotes"] is not None)


def run(c):
    judge(c, k.documents(c, want=WANT))
    judge(c, k.behaviours(c, "Notes", dict(Max=3 if c.thorough else 2, Sampled=False), want=WANT, name="NotesAll"))
    judge(c, k.behaviours(c, "Notes", dict(Max=7, Sampled=True), want=WANT, name="NotesMany",
                          simulate=8000 if c.thorough else 2000, depth=10))
