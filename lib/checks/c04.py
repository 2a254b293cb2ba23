from . import common as k

FORMS = {"p", "pp", "pt", "tp", "t", "tt", "tn", "ts", "none", "empty"}
PLACES = {"p", "ins", "del", "link", "cell", "sdt", "sect", "two", "open", "around"}
WANT = ["body", "comments", "read"]
KINDS = ("cs", "ce", "cref")


def judge(c, runs):
    for m, case, see, o in runs:
        k.compare(c, m, case, "comments", see["comments"], o["comments"])
        k.compare(c, m, case, "anchors", k.pick(see["body"], KINDS), k.pick(o["body"], KINDS))
        k.compare(c, m, case, "read-anchors", k.pick(see["read"], KINDS), k.pick(o["read"]["body"], KINDS))


def run(c):
    judge(c, k.documents(c, want=WANT))
    judge(c, k.behaviours(c, "Threads", dict(Max=2, Forms=FORMS, Places={"p", "open"} if c.thorough else {"p"}, Sampled=False),
                          want=WANT, name="ThreadsPairs"))
    judge(c, k.behaviours(c, "Threads", dict(Max=3, Forms={"p", "pt"}, Places={"p"}, Sampled=False), want=WANT, name="ThreadsShapes"))
    judge(c, k.behaviours(c, "Threads", dict(Max=2, Forms={"pp"}, Places=PLACES, Sampled=False), want=WANT, name="ThreadsPlaces"))
    judge(c, k.behaviours(c, "Threads", dict(Max=6, Forms=FORMS, Places=PLACES, Sampled=True),
                          want=WANT, name="ThreadsMany", simulate=40000 if c.thorough else 8000, depth=8))
