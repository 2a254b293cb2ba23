from . import common as k

WANT = ["body", "evenOdd", "read"]


def judge(c, runs):
    for m, case, see, o in runs:
        k.compare(c, m, case, "sections", k.pick(see["body"], ("sectPr",)), k.pick(o["body"], ("sectPr",)))
        k.compare(c, m, case, "even and odd", see["evenOdd"], o["evenOdd"])
        k.compare(c, m, case, "read", k.pick(see["read"], ("sectPr",)), k.pick(o["read"]["body"], ("sectPr",)))
        # the content of a section is what stands before its properties
        k.compare(c, m, case, "order", spans(see["body"]), spans(o["body"]))


def spans(body):
    return [["sectPr"] if any(x[0] == "sectPr" for x in [b] + b[2]) else k.texts([b]) for b in body]


def run(c):
    judge(c, k.behaviours(c, "Headers", dict(Max=3, Sampled=False), want=WANT, name="HeadersAll"))
    judge(c, k.behaviours(c, "Headers", dict(Max=9, Sampled=True), want=WANT, name="HeadersMany",
                          simulate=20000 if c.thorough else 3000, depth=12))
    judge(c, k.documents(c, want=WANT, share=4))
