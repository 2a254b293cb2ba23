from . import common as k


def run(c):
    k.judged(c, "PkgTrace", k.documents(c, want=["graph"]), "graph", dict(Rule="closed"), name="Closed")
