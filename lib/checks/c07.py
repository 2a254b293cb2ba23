from . import common as k

WANT = ["paraIds", "comments"]
SOURCES = {"gen", "thread", "none", "AAAAAAAA", "AAAAAAAB", "00000001", "00000003", "0000000a"}
PLACES = {"body", "dup", "cell", "dupcell", "nested", "sdt", "dupsdt", "sect", "dupsect", "secthead", "endhead", "toc", "duptoc",
          "celltoc", "cmt", "cmttbl", "cmtins", "reply", "answer", "fn", "linkfn", "emptycmt", "header", "headtbl",
          "headsdt", "footer", "foottbl", "emptycell"}


def judge(c, runs):
    for m, case, see, o in runs:
        ids = [x[1] for x in o["paraIds"]]
        k.compare(c, m, case, "repeated", [], sorted({i for i in ids if ids.count(i) > 1}))
        k.compare(c, m, case, "empty", False, "" in ids)
        text = {x[1]: x[2] for x in o["paraIds"]}
        for i, t in dict(m.get("kept") or {}).items():
            k.compare(c, m, case, "kept " + i, t, text.get(i))
        # threads are linked through paragraph ids
        k.compare(c, m, case, "threads", [x[1] for x in see["comments"]], [x[1] for x in o["comments"]])


def run(c):
    judge(c, k.documents(c, want=WANT, share=2))
    judge(c, k.behaviours(c, "ParaIds", dict(Max=2, Sources={"gen", "thread", "AAAAAAAA", "00000001"}, Places=PLACES, Sampled=False),
                          want=WANT, name="ParaIdsPairs"))
    judge(c, k.behaviours(c, "ParaIds", dict(Max=6, Sources=SOURCES, Places=PLACES, Sampled=True),
                          want=WANT, name="ParaIdsMany", simulate=8000 if c.thorough else 1500, depth=10))
