#!/usr/bin/env python3
"""Write DESIGN.md from tools/design_head.md, the harness bounds, the notes below and the seeded bugs."""
import ast
import glob
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
ORACLE = {
 "C01": "Oracle: the bytes from the first `%PDF-` header to the last `%%EOF` marker, computed on the symbolic byte string; "
        "file without header or marker unchanged.",
 "C02": "Oracle: bytes in the file handed to the extraction equal the concatenation of the chunks served; file gone afterwards on each fault "
        "schedule; exception mapped to FullTextNotAvailableError or passed on; a fault is a symbolic choice of place and kind.",
 "C03": "Oracle: type table of the statement; `pdftotext` and PDF metadata are stand-ins with symbolic text, keys and links; expected "
        "references, texkeys and URLs are computed from which of the two conversions contains the reference.",
 "C04": "Oracle: the document is built from known parts (headers, footers, body), so the expected result is the bodies' concatenation.",
 "C05": "Oracle: the document is built around a known first reference; expected start, title and marker follow from the "
        "distances (symbolic) by the rules of the statement.",
 "C06": "Oracle: as C05 for the end of the section; distances up to 200 lines.",
 "C07": "Oracle: lines are built from known references; expected list follows from where markers were put. Also total text conservation.",
 "C08": "Oracle: the identifier put into the line, byte for byte; the rest of the line is the miscellaneous text.",
 "C09": "Oracle: the number built from symbolic digits; invalid ones must stay text.",
 "C10": "Oracle: volume, year, page put into the line.",
 "C11": "Oracle: symbolic text before, inside and after an item must come out unchanged on its side of the item.",
 "C12": "Oracle: no exception, at least one reference, raw text kept, no `<cds.` in any field, and all letters of the line appear.",
 "C13": "Oracle: the number of papers written into the line, their fields, and their authors.",
 "C14": "Oracle: independent conversion (roman table, series letter placement, year-volume arithmetic) in the harness.",
 "C15": "Oracle: fields written; linker callback is a symbolic choice of outcome per item.",
 "C16": "Oracle: lines, markers and formats given.",
 "C17": "Oracle: counts of the items the harness wrote.",
 "C18": "Oracle: the text without the damage the harness added (spaces, quotes, hyphens).",
 "C19": "Oracle: the knowledge base given in *this* call, for every history of three calls with symbolic standard names.",
 "C20": "Oracle: one result per input, whatever fails where.",
 "C21": "Oracle: reading order computed from the symbolic coordinates (unbounded integers within the page) by the statement's rule. "
        "An annotation without an action makes the whole PDF yield an empty list: an existing test (1707.04066v1.pdf) expects this, so the "
        "statement says so.",
 "C22": "Oracle: rows given; both file and in-memory form must behave alike in any order of rows.",
 "C23": "Oracle: the text put between quotes; the rows of the book table.",
 "C24": "Oracle: the names put into the line.",
 "C25": "Oracle: numbers put into the text; whether each is a year, which one counts and what text remains follows from the construction.",
 "C26": "Oracle: groups of lines by marker, all characters of the string; for full texts the result of the file entry point on the same symbolic lines.",
 "C27": "Oracle: the journal the line was built with; for mixed lines the first journal of the references parse_references yields for the same symbolic line.",
}
COST = {}
try:
    COST = json.load(open(os.path.join(HERE, "cost.json")))
except OSError:
    pass


def bounds(pid):
    src = open(os.path.join(V, "harness", pid.lower() + ".py")).read()
    tree = ast.parse(src)
    env = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                env[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    out = []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "Harness":
            try:
                b = eval(compile(ast.Expression(n.args[2]), "b", "eval"), dict(env))
            except Exception:
                b = ast.unparse(n.args[2])
            tier = [k.value.value for k in n.keywords if k.arg == "tier"]
            out.append("  - `%s`%s: %s" % (n.args[0].value, " (thorough)" if tier else "", b))
    return out


def main():
    o = [open(os.path.join(HERE, "design_head.md")).read().replace(
        "@NFIXED@", str(len(json.load(open(os.path.join(os.path.dirname(HERE), "known_findings.json")))["fixed"])))]
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)
        o.append("### %s %s\n" % (p["id"], p["title"]))
        o.append(p["statement"] + "\n")
        o.append("- " + ORACLE[p["id"]])
        if p["id"] in COST:
            o.append("- Cost: " + COST[p["id"]])
        o.append("- Harnesses and bounds:")
        o.extend(bounds(p["id"]))
        o.append("")
    o.append(open(os.path.join(HERE, "design_tail.md")).read())
    o.append("## Repaired defects\n\nEach was found by a counterexample (or while writing the expectation of a harness), shown on the real code, and repaired in its own commit.\n")
    for f in json.load(open(os.path.join(V, "known_findings.json")))["fixed"]:
        o.append("- " + f[len("fixed: "):])
    o.append("\n## Planted bugs (`seeded/`)\n\nBug, what it needs, and what the property's quick check reports with it (`tools/trybugs.sh`).\n")
    try:
        res = json.load(open(os.path.join(HERE, "seed_results.json")))
    except OSError:
        res = {}
    o.append("| bug | property | needs | check |\n|---|---|---|---|")
    for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
        m = json.load(open(os.path.join(d, "meta.json")))
        b = os.path.basename(d)
        o.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], res.get(b, "not run")))
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(o) + "\n")


main()
