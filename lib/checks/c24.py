"""The JSON forms of a document show the document: documents built and compared with the model's JsonForm."""
import vlib

from . import common as k
from . import fmt

HOSTS = [["run", "runpr", "mark"], ["para", "ppr", "pchange", "sect"],
         ["table", "inner", "row", "cell", "cpr", "styletpr", "stylecpr"],
         ["style", "stylerpr", "styleppr", "level"], ["docx", "document", "docsect", "settings"]]
WAYS = {"run", "ins", "del", "mvf", "mvt", "link", "sdt"}
PLACES = ("", "cell", "sdt", "header", "first", "footer")


def shown(c, module, consts, name, invariants=("EmitJson",), **kw):
    r = vlib.tlc(module, consts, invariants=invariants, seed=c.seed, name=name, **kw)
    c.model(r, name, exhaustive=not kw.get("simulate"))
    if not r.cases:
        raise vlib.ToolError(f"{module} produced no behaviours")
    cases = [{"mode": "json", "calls": x["calls"], "dirty": module == "Pieces"} for x in r.cases]
    c.traces += len(cases)
    c.sample({"what": r.cases[0].get("what"), "calls": vlib.compact(r.cases[0]["calls"])})
    for m, case, o in zip(r.cases, cases, vlib.replay(cases)):
        f = vlib.failed(o)
        if f:
            c.bad(k.key_of(m), f"no JSON form: {f}", case)
            continue
        k.compare(c, m, case, "body", [vlib.compact(x) for x in m["json"]["body"]], o["body"])
        comments = sorted((vlib.compact(x) for x in m["json"]["comments"]), key=lambda x: x[1])
        for part in ("comments", "updated"):
            k.compare(c, m, case, part, comments, o[part])
        k.compare(c, m, case, "texts", m["json"]["texts"], o["texts"])
        if "pics" in m:
            k.compare(c, m, case, "placement", m["pics"], o["drawings"])
        if not o["repeats"]:
            c.bad(k.key_of(m) + "/again", "the JSON form of the same document is another one the second time", case)


def pieces(c, name, rows, len1, every, paths, ways, **kw):
    shown(c, "Pieces", dict(Rows=rows, Len1=len1, All=every, Paths0=paths, Ways=ways, Sampled=bool(kw), MaxDepth=1, MaxItems=0, Feats=set()),
          name, invariants=("ShowJson",), init="Start", nxt="More", **kw)


def run(c):
    n = 8 if c.thorough else 1
    shown(c, "Place", dict(MaxDepth=3 if c.thorough else 2, MaxItems=1, Feats=k.FEATS), "Place")
    shown(c, "Rich", dict(Counts={2, 6, 12} if c.thorough else {3}, Without={"toc"}), "Rich")
    for i, (many, calls) in enumerate([(2500 * n, 3), (600 * n, 8)]):
        shown(c, "Build", dict(Depth=2, Width=3, MaxCalls=calls), f"Build{i}", simulate=many, depth=calls + 2)
    places = {"body", "cell", "sdt", "sect", "link", "ins"}
    shown(c, "Placing", dict(Pics=1, Max=1, Bytes={"png1", "raw1"}, Places=places, Sampled=False), "PlacingEach")
    shown(c, "Placing", dict(Pics=3, Max=8, Bytes={"png1", "raw1"}, Places=places, Sampled=True), "PlacingMany", simulate=400 * n, depth=30)
    pieces(c, "PiecesEach", 1, 1, True, {"", "tbl", "cmt", "h:default"}, WAYS)
    pieces(c, "PiecesPairs", 1, 2, False, {""}, {"run", "del"})
    pieces(c, "PiecesMany", 3, 4, True, {"", "tbl", "sdt"}, WAYS, simulate=500 * n, depth=16)
    for hosts in HOSTS:
        fmt.runs(c, "Fmt", hosts, "single-" + hosts[0], kinds=True, values="all", views=("json",))
        fmt.runs(c, "Fmt", hosts, "long-" + hosts[0], kinds=True, values="all", views=("json",), max=8,
                 places=PLACES, simulate=150 * n * len(hosts))
