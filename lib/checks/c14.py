from . import fmt


def run(c):
    hosts = ["style", "tstyle", "stylerpr", "styleppr", "styletpr", "stylecpr", "sect", "docsect", "document", "settings", "docx"]
    fmt.explore(c, hosts, pairs=hosts if c.thorough else ["style", "sect", "document", "settings", "docx"])
