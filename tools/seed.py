#!/usr/bin/env python3
"""seed.py SPEC.py [id...]: turns the edits of a spec file into seeded/<id>/ after confirming them in a scratch copy.

The spec defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo="python code")]."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""
PRE = """import sys
import refextract
from refextract.references.engine import parse_references
from refextract.references.text import extract_references_from_fulltext


def refs(*lines, **kw):
    return [{k: v for k, v in r.items() if k != "raw_ref"} for r in parse_references(list(lines), **kw)[0]]


def check(cond, what=""):
    if not cond:
        print("FAILED", what)
        sys.exit(1)


"""


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = set(sys.argv[2:])
    base = [t for t in json.load(open("/opt/vp/BASELINE.json"))["tests"]] if False else None
    for s in spec["SEEDS"]:
        if want and s["id"] not in want:
            continue
        w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
        try:
            r = os.path.join(w, "repo")
            subprocess.check_call(["git", "clone", "-q", "/repo", r])
            d = os.path.join(w, s["id"])
            os.makedirs(d)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"].lstrip("\n") + '\nprint("ok")\n')
            a = sh(["bash", os.path.join(d, "demo.sh")], r)
            if a.returncode:
                print(s["id"], "DEMO FAILS UNPATCHED", a.stdout[-800:])
                continue
            for f, old, new in s["edits"]:
                p = os.path.join(r, f)
                t = open(p, encoding="utf8").read()
                if t.count(old) != 1:
                    print(s["id"], "EDIT", f, t.count(old), "matches")
                    break
                open(p, "w", encoding="utf8").write(t.replace(old, new))
            else:
                diff = sh(["git", "diff"], r).stdout
                b = sh(["bash", os.path.join(d, "demo.sh")], r)
                if not b.returncode:
                    print(s["id"], "DEMO PASSES PATCHED")
                    continue
                t = os.path.join(w, "t")
                os.makedirs(t)
                shutil.copytree(os.path.join(r, "tests"), os.path.join(t, "tests"))
                shutil.copy(os.path.join(r, "pyproject.toml"), t)
                c = sh([PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider", "--rootdir", t, "--timeout=300",
                        "-m", "not vcr", "tests"], t, {"PYTHONPATH": r, "PYTHONHASHSEED": "0", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8"})
                fails = sorted({l for l in c.stdout.splitlines() if l.startswith(("FAILED", "ERROR"))})
                bad = [l for l in fails if "test_extract_references_with_multiple_refs_under_same_marker" not in l]
                if bad or " passed" not in c.stdout:
                    print(s["id"], "TESTS FAIL", bad[:4], c.stdout[-300:] if not bad else "")
                    continue
                open(os.path.join(d, "patch.diff"), "w", encoding="utf8").write(diff)
                json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                          open(os.path.join(d, "meta.json"), "w"), indent=1)
                out = os.path.join(V, "seeded", s["id"])
                shutil.rmtree(out, ignore_errors=True)
                shutil.copytree(d, out)
                print(s["id"], "kept:", (b.stdout.strip().splitlines() or ["?"])[-1][:150])
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
