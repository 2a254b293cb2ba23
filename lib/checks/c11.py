from . import common as k

PATHS = {"", "tbl", "sdt", "sect", "cmt", "h:default", "f:first", "tbl2"}
WAYS = {"run", "link", "ins", "del", "mvf", "mvt", "insdel", "mvtdel", "linkins", "linkdel", "sdt", "linksdt"}


def pieces(c, name, rows, len1, every, paths, ways, **kw):
    for m, case, see, o in k.behaviours(c, "Pieces", dict(
            Rows=rows, Len1=len1, All=every, Paths0=paths, Ways=ways, Sampled=bool(kw),
            MaxDepth=1, MaxItems=0, Feats=set()), want=["body", "comments", "read"], name=name,
            init="Start", nxt="More", invariants=("Show",), opts={"dirty": True}, **kw):
        for part in ("body", "comments"):
            k.compare(c, m, case, part, see[part], o[part])
        k.compare(c, m, case, "read", see["read"], o["read"]["body"])


def run(c):
    pieces(c, "PiecesPlaces", 1, 1, False, PATHS, WAYS)
    pieces(c, "PiecesValues", 1, 1, True, PATHS if c.thorough else {""}, WAYS if c.thorough else {"run", "del"})
    pieces(c, "PiecesPairs", 1, 2, False, {""}, {"run"})
    pieces(c, "PiecesMany", 3, 4, True, PATHS, WAYS, simulate=20000 if c.thorough else 1500, depth=16)
    for m, case, see, o in k.documents(c, want=["read"]):
        k.compare(c, m, case, "read", see["read"], o["read"]["body"])
        # every comment is also in the list of comments
        k.compare(c, m, case, "comments", [x[1] for x in see["comments"]], [x[1] for x in o["read"]["comments"]])
