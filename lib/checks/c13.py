from . import fmt


def run(c):
    fmt.explore(c, ["table", "inner", "row", "cell", "cpr", "styletpr", "stylecpr"], mixed="grid")
