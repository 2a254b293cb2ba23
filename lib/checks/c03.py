import vlib

from . import common as k

WANT = ["body", "comments", "media", "graph", "read", "readPlain"]


def judge(c, runs):
    runs = list(runs)
    for m, case, see, o in runs:
        for part in ("body", "comments"):
            k.compare(c, m, case, part + "-pictures", k.pick(see[part], ("img",)), k.pick(o[part], ("img",)))
        k.compare(c, m, case, "stored", see["media"], sorted(o["media"]))
        k.compare(c, m, case, "read-without-previews", "same", o["readPlain"])
        k.compare(c, m, case, "read-pictures", k.pick(see["read"], ("img",)), k.pick(o["read"]["body"], ("img",)))
    k.judged(c, "PkgTrace", runs, "graph", dict(Rule="closed"), name="Closed")


WAYS = ["readDrawings", "readExtended"]
ROOT = {"header": "hdr", "footer": "ftr", "cmt": "comments", "fn": "footnotes"}


def placing(c, name, consts, **kw):
    """Calls that size and place pictures: written and read attributes against the model's meaning of the calls."""
    r = vlib.tlc("Placing", consts, seed=c.seed, name=name, invariants=("Emit",) if kw.get("simulate") else ("Laws", "Emit"), **kw)
    c.model(r, name, exhaustive=not kw.get("simulate"))
    if not r.cases:
        raise vlib.ToolError(f"{name} produced no behaviours")
    cases = [{"mode": "tree", "calls": m["calls"], "want": ["drawings"] + WAYS} for m in r.cases]
    c.traces += len(cases)
    c.sample({"what": r.cases[0]["what"]})
    for m, case, o in zip(r.cases, cases, vlib.replay(cases)):
        f = vlib.failed(o)
        if f:
            c.bad(k.key_of(m), f"writing did not end in a readable package: {f}", case)
            continue
        written, read = {}, []
        for b, at, seen, known in m["pics"]:
            written.setdefault(ROOT.get(at, "document"), []).append([b, seen])
            if at not in ROOT:
                read.append(known)
        k.compare(c, m, case, "written-placement", written, o["drawings"])
        for w in WAYS:
            got = o[w]
            if isinstance(got, list) and len(got) == len(read):
                for x, y in zip(got, read):
                    for a in ("h", "v"):
                        if isinstance(y["float"], dict) and y["float"][a] == "any" and isinstance(x["float"], dict):
                            x["float"][a] = "any"
            k.compare(c, m, case, w, read, got)


IDS = {"", "x", "x_2", "rId1", "rIdHeader1"}
MANY = IDS | {"rIdFooter1", "rId3", "rIdHyperlink1", "headerx", "footerx", "rIdImage1", "X", "rIdCustomXml1"}
BYTES = {"png1", "png2", "raw1", "raw2"}
MORE = BYTES | {"jpg1", "bmp1", "raw4", "raw6"}
PLACES = {"body", "cell", "sdt", "sect", "link", "ins", "toc", "cmt", "fn", "header", "first", "footer"}


def run(c):
    judge(c, k.documents(c, want=WANT))
    judge(c, k.behaviours(c, "Pictures", dict(Max=2, Bytes=BYTES, Ids=IDS, Sampled=False,
                                              Places={"body", "header", "footer", "cmt"} if c.thorough else {"body", "header", "fn"}),
                          want=WANT, name="PicturesPairs"))
    judge(c, k.behaviours(c, "Pictures", dict(Max=6, Bytes=MORE, Ids=MANY, Places=PLACES, Sampled=True),
                          want=WANT, name="PicturesMany", simulate=6000 if c.thorough else 1500, depth=10))
    both = {"png1", "png2", "jpg1", "raw1"}
    placing(c, "Placing1", dict(Pics=1, Max=3 if c.thorough else 2, Bytes={"png1"}, Places={"body"}, Sampled=False))
    placing(c, "PlacingMany", dict(Pics=3, Max=8, Bytes=both, Sampled=True,
                                   Places={"body", "cell", "sdt", "sect", "link", "ins", "header", "footer", "cmt", "fn"}),
            simulate=6000 if c.thorough else 1500, depth=30)
