from . import common as k

CHANGES = ("ins", "del", "mvf", "mvt")


def changes(nodes):
    """Changes in document order: around which text and changes, with which content."""
    out = []
    for kind, v, ch in nodes:
        if kind in CHANGES:
            out.append([kind, v, inside(ch)])
        if kind in ("p", "tr"):
            mine = [x for x in v.split(";") if x.split("=")[0] in ("ins", "del", "insmark", "delmark", "pchange")]
            out.append([kind, mine, k.texts(ch)] if mine else [kind])
        out += changes(ch)
    return out


def inside(ch):
    return [[kind, v, inside(c)] for kind, v, c in k.pick(ch, ("t", "dt") + CHANGES)]


def run(c):
    runs = []
    for m, case, see, o in k.documents(c, want=["body", "comments", "footnotes", "read", "graph"]):
        k.compare(c, m, case, "body", changes(see["body"]), changes(o["body"]))
        k.compare(c, m, case, "comments", changes(see["comments"]), changes(o["comments"]))
        k.compare(c, m, case, "read", changes(see["read"]), changes(o["read"]["body"]))
        runs.append((m, case, see, o))
    k.judged(c, "PkgTrace", runs, "graph", dict(Rule="changes"), name="ChangeIds")
