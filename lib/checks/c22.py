from . import common as k

WANT = ["graph", "stories", "body", "read", "comments", "footnotes", "media", "evenOdd", "paraIds", "twice"]
WAYS = {"", "direct", "fresh"}


def judge(c, runs, name):
    runs = list(runs)
    for m, case, see, o in runs:
        k.compare(c, m, case, "body", see["body"], o["body"])
        k.compare(c, m, case, "comments", see["comments"], o["comments"])
        k.compare(c, m, case, "footnotes", see["footnotes"], [[x[0], "", x[2]] for x in o["footnotes"] or []])
        k.compare(c, m, case, "media", see["media"], sorted(o["media"]))
        k.compare(c, m, case, "evenOdd", see["evenOdd"], o["evenOdd"])
        k.compare(c, m, case, "read", see["read"], o["read"]["body"])
        k.compare(c, m, case, "read-comments", [x[1] for x in see["comments"]], [x[1] for x in o["read"]["comments"]])
        ids = [x[1] for x in o["paraIds"]]
        k.compare(c, m, case, "repeated", [], sorted({i for i in ids if ids.count(i) > 1}))
        k.compare(c, m, case, "twice", [], o["twice"])
    k.judged(c, "PkgTrace", runs, "graph", dict(Rule="closed"), name=name + "Closed")
    k.judged(c, "Nesting", runs, "stories", name=name + "Nesting")


def run(c):
    n = 10 if c.thorough else 1
    judge(c, k.behaviours(c, "Edit", dict(Max=2, Count=2, Ways=WAYS if c.thorough else {"fresh"}, Without={"toc"}, Sampled=False),
                          want=WANT, name="EditPairs", invariants=("Emit", "Idle")), "EditPairs")
    judge(c, k.behaviours(c, "Edit", dict(Max=5, Count=3, Ways=WAYS | {"on"}, Without={"toc"}, Sampled=True), want=WANT,
                          name="EditMany", simulate=600 * n, depth=7, invariants=("Emit", "Idle")), "EditMany")
    for i, (num, calls, depth) in enumerate([(1500, 4, 2), (500, 8, 2)]):
        judge(c, k.behaviours(c, "Reopen", dict(Depth=depth, Width=3, MaxCalls=calls, Ways=WAYS), want=WANT, name=f"Reopen{i}",
                              simulate=num * n, depth=calls + 2, invariants=("EmitOpened",), nxt="NextOpen"), f"Reopen{i}")
