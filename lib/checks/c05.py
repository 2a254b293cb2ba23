from . import common as k

# What the names of targets stand for: addresses are any text.
TARGETS = {
    "plain": "http://example.com/a",
    "case": "http://example.com/A",
    "slash": "http://example.com/a/",
    "query": "https://example.com/s?q=1&r=<2>&s=\"3\"&t='4'",
    "entity": "http://example.com/?a&amp;b&#38;c",
    "percent": "http://example.com/a%20b%2Fc%3Fd",
    "space": "http://example.com/a b  c",
    "edges": "  http://example.com/edges  ",
    "fragment": "http://example.com/a#part",
    "unicode": "http://例え.jp/ünï/\U0001f600",
    "mail": "mailto:a@b.example?subject=x&body=y",
    "file": "file:///C:\\dir\\a file.docx",
    "relative": "../other.docx",
    "absolute": "/word/document.xml",
    "part": "media/rIdImage1.png",
    "dots": "./../..//a",
    "word": "x",
    "id": "rIdHyperlink1",
    "end": "]]>--></Relationship>",
    "brackets": "{0} $1 ${x} [y] {{z}}",
    "long": "http://example.com/" + "a/" * 1500,
    "tel": "tel:+1-234",
    "breaks": "http://example.com/\n\ta\n",
    "#plain": "#mark",
    "#case": "#Mark",
    "#quoted": "#a \"b\" & <c> 'd'",
    "#unicode": "#ünï 例え",
    "#id": "#rIdHyperlink1",
    "#address": "#http://example.com/a",
    "#entity": "#a&amp;b",
    "#edges": "# a  b ",
    "#long": "#" + "m" * 300,
}
PLACES = {"body", "cell", "sdt", "sect", "toc", "cmt", "fn", "header", "first", "footer"}
WANT = ["body", "comments", "read"]


def judge(c, runs):
    for m, case, see, o in runs:
        for part in ("body", "comments"):
            k.compare(c, m, case, part + "-links", k.outline(see[part], ("link",)), k.outline(o[part], ("link",)))
        k.compare(c, m, case, "read-links", k.outline(see["read"], ("link",)), k.outline(o["read"]["body"], ("link",)))


def run(c):
    judge(c, k.documents(c, want=WANT))
    every = {*TARGETS}
    judge(c, k.behaviours(c, "Links", dict(Max=2, Targets=every, Places={"body", "fn"} if c.thorough else {"body"}, Sampled=False),
                          want=WANT, name="LinksPairs", names=TARGETS))
    judge(c, k.behaviours(c, "Links", dict(Max=1, Targets=every, Places=PLACES, Sampled=False),
                          want=WANT, name="LinksEach", names=TARGETS))
    judge(c, k.behaviours(c, "Links", dict(Max=8, Targets=every, Places=PLACES, Sampled=True),
                          want=WANT, name="LinksMany", names=TARGETS, simulate=4000 if c.thorough else 1000, depth=10))
