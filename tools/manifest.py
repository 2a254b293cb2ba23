#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (python3 tools/manifest.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLC = "TLA+ specification checked with TLC; "

# property -> (models, how the implementation is bound, level note)
CHECKS = {
    "C01": ("Content, Place, Rich, Build, Package, PkgTrace", "every generated document is written by the library and the recorded part graph of the real package is judged by TLC against the closure conditions",
            "Exhaustive for one feature in every inline wrapper of every container chain to depth 2 (thorough: 3), sampled for whole documents of up to 8 calls; no claim beyond the generated behaviours."),
    "C02": ("Headers, Content, Rich, Build", "replay of every call sequence of length 3 and sampled ones of length 9; the header and footer of every section and page kind in the real package, and those read back, are compared with the predicted ones",
            "Exhaustive to three header, footer and section calls; sampled beyond."),
    "C03": ("Content, Place, Rich, Build, Pictures, Placing, Package, PkgTrace", "replay; every picture reference of the real package is followed to its bytes and compared with the predicted picture, also after reading; size and placement written and read compared with the meaning of the calls",
            "Exhaustive placements, pairs of pictures (bytes, ids, stories) and pairs of placement calls; sampled documents of three pictures with eight placement calls each; sampled documents of six pictures and sampled whole documents."),
    "C04": ("Content, Place, Rich, Build, Threads", "replay; anchors, comment bodies and threads of the real package and of the document read back compared with the predicted ones",
            "Exhaustive placements to container depth 2 (thorough: 3), exhaustive threads of small comments of every shape, sampled larger threads and whole documents."),
    "C05": ("Content, Place, Rich, Build, Links", "replay; every link of the real package is resolved from its part and compared with the predicted address, also after reading",
            "Exhaustive placements to container depth 2 (thorough: 3), exhaustive pairs of targets over 32 awkward addresses and bookmark names and each of them in every story; sampled documents of eight links and sampled whole documents."),
    "C06": ("Content, Place, Rich, Build, Notes", "replay; every reference of the real package is followed to its footnote and compared with the predicted content",
            "Exhaustive placements to container depth 2 (thorough: 3) and histories of collecting, cloning and writing; sampled whole documents."),
    "C07": ("Content, Place, Rich, Build, ParaIds", "replay; ids of all written paragraphs checked for uniqueness and for the ids the model says are kept",
            "Exhaustive pairs of id source and place; sampled documents of six paragraphs and sampled whole documents."),
    "C08": ("Content, Place, Rich, Build, Format, Fmt, Numbering", "replay; the definitions, instances, overrides and uses in the real package, as read back and as written again compared with the state of the model",
            "Exhaustive placements of numbered paragraphs to container depth 2 (thorough: 3), every value of every level setting and ordered pairs of them, all histories of three definition, instance, override and use steps; sampled histories of 14 steps."),
    "C09": ("Text", "replay of every choice of field and text; the real package is parsed by an independent strict XML parser, the text is looked up at the place it was meant for and everything else must be as with a plain text",
            "Exhaustive for one piece of text (48 kinds of characters and markup-like sequences) in each of 148 fields and for two pieces in ten fields of different kinds (thorough: all fields); sampled pairs, texts of 40 pieces and four texts at once."),
    "C10": ("Session, Content, Place, Rich, Build", "replay of histories of clone, serialize, collect, build, pack, re-read and drop steps over several documents and threads; the parts of every write are compared with those of the other writes the model says are of the same document",
            "All histories of three steps on one document and two steps on two documents, each on another document of the placement and whole-document models; sampled histories of 12 steps on three documents."),
    "C11": ("Content (Read), Pieces, Place, Rich, Build", "replay; the document read back from the real package is compared block by block with the predicted reading",
            "Exhaustive placements to container depth 2 (thorough: 3), sampled whole documents."),
    "C12": ("Format, Fmt, Mixed", "replay of the setter calls; the formatting in the real markup, as read back and as written again compared with the state of the model",
            "Exhaustive for every value of every setting, for one call of each setting in every container, story and inline wrapper, for ordered pairs of calls (two values per setting) and for two steps on the runs of a paragraph; sampled sequences of 8 calls and paragraphs of 25 steps."),
    "C13": ("Format, Fmt, Mixed", "replay of the setter calls; the formatting in the real markup, as read back and as written again compared with the state of the model",
            "Exhaustive for every value of every setting, for one call of each setting in every container and story, and for ordered pairs of calls (two values per setting); sampled sequences of 8 calls and tables of 25 steps with nested tables to depth 3."),
    "C14": ("Format, Fmt", "replay of the setter calls; styles, settings, sections and document properties of the real package, as read back and as written again compared with the state of the model",
            "Exhaustive for every value of every setting and for ordered pairs of calls (two values per setting; table styles in thorough); sampled sequences of 8 calls."),
    "C15": ("Descent, Faults", "every stream of tokens of the descent model is read by the library as the body of a real package and must end as the model says; every fault, and sampled sequences of faults, of real packages is read in a thread with a small stack and must end with a document or an error",
            "Exhaustive streams of 4 tokens over 11 element names (thorough: 5) with termination, work and depth laws checked by TLC; every fault of every kind at every token context of a package that holds everything the readers know, every part fault, container field and cut; sampled pairs and fours of faults in seven packages (thorough: all fixtures), and bytes without structure."),
    "C16": ("Draws, DrawTrace, Content, Place, Build", "each interleaving of draws is replayed by real threads taking turns in the order the model gives, and the ids drawn and the package written are compared with the prediction; ids recorded from free-running threads and whole documents built piece by piece on several threads are judged by TLC",
            "All interleavings of three threads with two draws of each kind checked by TLC against distinctness, with a generator of two steps and one of one counter per thread as negative controls; sampled documents whose parts are built on up to four threads; 12 threads drawing at once."),
    "C17": ("Toc, TocInstr", "replay; the entries, levels, targets and page references of every written table of contents and the instruction of its field compared with the predicted ones; instructions are also parsed back",
            "Exhaustive for every heading form, style, level range and custom style mapping singly and in pairs; sampled documents of several headings and tables of contents and sampled long instructions."),
    "C18": ("Content, Place, Rich, Build, Package, PkgTrace", "replay; changes of the real package and of the document read back compared with the predicted ones; recorded change ids judged by TLC",
            "Exhaustive placements to container depth 2 (thorough: 3), sampled whole documents."),
    "C19": ("Flat, Place, Build, Markup", "replay; the same parts are put into a zipped and a flat container as the model chose and the documents read from them compared",
            "Exhaustive for every way to write a part, order and left-out part of 13 packages singly; sampled combinations with equivalent markup, on real packages, built documents and text that looks like the container's own markup."),
    "C20": ("Markup, MarkupLaw, Variants", "TLC checks that each edit keeps the meaning of small documents; the edits are applied to real packages and the document read must stay what it was",
            "All sequences of two edits (thorough: three) of small documents in the model; every edit at every token context of a package that holds everything the readers know and every relocation of its parts; sampled edits at any token and sequences of six in other packages."),
    "C21": ("Content, Place, Rich, Build, Nesting", "the recorded markup events of every story of every written package are walked by TLC with the nesting automaton; content compared with the predicted one",
            "Exhaustive placements to container depth 2 (thorough: 3), sampled whole documents."),
    "C22": ("Content, Edit, Reopen, Things", "replay of histories of additions, writing and reading; the package written last and the document read from it compared with the predicted ones, and checked for unresolved references, repeated ids and definitions and wrong nesting",
            "Exhaustive pairs of things around one reopening, in the same and as if in another process; sampled histories of more additions and reopenings."),
    "C23": ("Sink, SinkLaw, SinkPlan, SinkTrace", "replay of planned faults on an output that records its requests and answers; TLC judges every record (result, completeness, next writing) by the law of the model",
            "Model checked exhaustively (safety, termination, counterexample for a careless writer); every request of two documents and both ways of writing with each of five faults, every 1/200 of the room; sampled sets of faults on other documents."),
    "C24": ("Content (JsonForm, Plain), Place, Build, Pieces, Format, Fmt", "replay of documents; the JSON forms are projected to the vocabulary of the model and compared with what the model says they show, the plain text with Plain",
            "Exhaustive for one feature in every chain of two containers, every piece with every value, pairs of pieces, every setter with every value; longer documents and sequences of setters sampled."),
}


def main():
    props = [json.loads(line)["id"] for line in open(os.path.join(VERIF, "properties.jsonl")) if line.strip()]
    checks, rest = [], []
    for p in props:
        if p in CHECKS:
            models, how, note = CHECKS[p]
            checks.append({
                "property": p,
                "quick_cmd": f"python3 check.py {p}",
                "thorough_cmd": f"python3 check.py {p}",
                "evidence_file": f"evidence/{p}.json",
                "technique": f"{TLC}models: {models}; binding: {how}",
                "level": "model_checking",
                "level_note": note,
            })
        else:
            rest.append({"property": p, "reason": "check under construction"})
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": rest,
         "notes": "See DESIGN.md. The harness in harness/ is built from /repo's working tree by every check; no hooks in /repo are used."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
