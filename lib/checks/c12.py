from . import fmt


def run(c):
    fmt.explore(c, ["run", "runpr", "mark", "para", "ppr", "pchange"], mixed="runs")
