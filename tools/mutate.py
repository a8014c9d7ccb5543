#!/usr/bin/env python3
"""Development aid: which small changes of the code survive the repository's tests, and do the harnesses notice them?

mutate.py list FILE...            candidates
mutate.py run OUT.jsonl N SEED [FILE...]   sample N mutants, run stable tests, then the harnesses' models (SX_DUMP=/tmp/models) concretely
The harness run is a fast under-approximation of the checks (one concrete point per symbolic path)."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FILES = ["refextract/extract.py", "refextract/authors/regexs.py", "refextract/documents/pdf.py", "refextract/documents/text.py",
         "refextract/references/api.py", "refextract/references/engine.py", "refextract/references/find.py",
         "refextract/references/kbs.py", "refextract/references/pdf.py", "refextract/references/record.py",
         "refextract/references/regexs.py", "refextract/references/tag.py", "refextract/references/text.py"]
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}
SWAP = {"split": "rsplit", "rsplit": "split", "strip": "rstrip", "lstrip": "rstrip", "rstrip": "lstrip", "find": "rfind",
        "rfind": "find", "startswith": "endswith", "endswith": "startswith", "search": "match", "match": "search",
        "append": "extend_"}


def regex_mutants(s):
    out = []
    for i, c in enumerate(s):
        if c in "+*" and i and s[i - 1] not in "\\([":
            out.append(s[:i] + ("*" if c == "+" else "+") + s[i + 1:])
        if c == "?" and i and s[i - 1] not in "(\\*+?|[":
            out.append(s[:i] + s[i + 1:])
        if c == "|" and i and s[i - 1] != "\\":
            j = i + 1
            d = 0
            while j < len(s) and not (d == 0 and s[j] in "|)"):
                if s[j] == "(":
                    d += 1
                if s[j] == ")":
                    d -= 1
                j += 1
            out.append(s[:i] + s[j:])
        if c == "{":
            m = re.match(r"\{(\d+)(,(\d*))?\}", s[i:])
            if m:
                a = int(m.group(1))
                if m.group(3):
                    b = int(m.group(3))
                    if b - 1 >= a:
                        out.append(s[:i] + "{%d,%d}" % (a, b - 1) + s[i + m.end():])
                    out.append(s[:i] + "{%d,%d}" % (a, b + 1) + s[i + m.end():])
                out.append(s[:i] + "{%d%s}" % (a + 1, m.group(2) or "") + s[i + m.end():])
        if c == "[" and i and s[i - 1] != "\\":
            j = s.find("]", i + 2)
            if j > 0 and j - i > 3:
                k = j - 1
                cut = 2 if s[k - 1] == "\\" else 1
                out.append(s[:k + 1 - cut] + s[j:])
    return out


def mutants(path):
    src = open(path, encoding="utf8").read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))

    def pos(line, col):
        b = lines[line - 1].encode("utf8")[:col].decode("utf8")
        return off[line - 1] + len(b)

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    tree = ast.parse(src)
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
    func = {}

    def walk(n, f):
        if isinstance(n, ast.FunctionDef):
            f = n.name if f is None else f
        func[n] = f
        for c in ast.iter_child_nodes(n):
            walk(c, f)
    walk(tree, None)

    def add(n, a, b, new, kind):
        if isinstance(n, ast.Constant) and n in docs:
            return
        out.append({"line": n.lineno, "func": func.get(n), "kind": kind, "a": a, "b": b, "old": src[a:b], "new": new})
    for n in ast.walk(tree):
        if func.get(n) and func[n].startswith("create_logger"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, _ = span(n.left)
            l, r = span(n.left)[1], span(n.comparators[0])[0]
            t = CMP.get(type(n.ops[0]))
            if t:
                add(n, l, r, " %s " % t if "(" not in src[l:r] and ")" not in src[l:r] else src[l:r], "cmp")
        if isinstance(n, ast.BoolOp):
            l, r = span(n.values[0])[1], span(n.values[1])[0]
            w = "and" if isinstance(n.op, ast.And) else "or"
            t = src[l:r]
            if len(n.values) == 2:
                add(n, l, r, t.replace(w, "or" if w == "and" else "and", 1), "bool")
                a, b = span(n)
                add(n, a, b, src[span(n.values[0])[0]:span(n.values[0])[1]], "drop-operand")
                add(n, a, b, src[span(n.values[1])[0]:span(n.values[1])[1]], "drop-operand")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            a, b = span(n)
            x, y = span(n.operand)
            add(n, a, b, src[x:y], "not")
        if isinstance(n, ast.Constant) and not isinstance(n.value, bool):
            a, b = span(n)
            if isinstance(n.value, int):
                add(n, a, b, str(n.value + 1), "int")
                if n.value > 0:
                    add(n, a, b, str(n.value - 1), "int")
            elif isinstance(n.value, str) and n not in docs:
                raw = src[a:b]
                m = re.match(r"([rRuUbB]*)(\"\"\"|'''|\"|')", raw)
                if m and len(n.value) > 1:
                    body = raw[m.end():-len(m.group(2))]
                    if "r" in m.group(1).lower() or re.search(r"[\[(|]", body):
                        for x in regex_mutants(body):
                            add(n, a, b, raw[:m.end()] + x + m.group(2), "regex")
                    elif len(body) < 30 and "%" not in body:
                        add(n, a, b, raw[:m.end()] + body[:-1] + m.group(2), "str")
        if isinstance(n, ast.If):
            a, b = span(n.test)
            add(n, a, b, "True", "if")
            add(n, a, b, "False", "if")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            e = span(n.func)[1]
            at = n.func.attr
            if at in SWAP and SWAP[at] != "extend_":
                add(n, e - len(at), e, SWAP[at], "swap")
            if at in ("strip", "lstrip", "rstrip", "upper", "lower"):
                a, b = span(n)
                x, y = span(n.func.value)
                add(n, a, b, src[x:y], "drop-call")
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
            a, b = span(n)
            if "LOGGER" not in src[a:b]:
                add(n, a, b, "pass", "del")
        if isinstance(n, ast.Assign) and func.get(n):
            a, b = span(n)
            add(n, a, b, "pass", "del")
        if isinstance(n, ast.keyword) and n.arg == "flags":
            pass
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            l, r = span(n.left)[1], span(n.right)[0]
            t = src[l:r]
            o = "+" if isinstance(n.op, ast.Add) else "-"
            if t.count(o) == 1 and isinstance(n.right, (ast.Constant, ast.Call, ast.Name)) and not (
                    isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
                add(n, l, r, t.replace(o, "-" if o == "+" else "+"), "arith")
    return src, out


def test(repo, work):
    t = os.path.join(work, "t")
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo, PYTHONHASHSEED="0", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    try:
        c = subprocess.run([PY, "-m", "pytest", "-q", "-x", "--no-cov", "-p", "no:cacheprovider", "--rootdir", t, "--timeout=120", "-m",
                            "not vcr", "--deselect", "tests/test_api.py::test_extract_references_with_multiple_refs_under_same_marker", "tests"], cwd=t, env=e, timeout=240,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired:
        return False, "timeout"
    bad = [l for l in c.stdout.splitlines() if l.startswith(("FAILED", "ERROR")) and "multiple_refs_under_same_marker" not in l]
    return (not bad and " passed" in c.stdout and "rror" not in c.stdout[-200:]), (bad or [c.stdout[-200:]])[0][:200]


def one(job):
    i, f, m, src = job
    w = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        r = os.path.join(w, "repo")
        os.makedirs(r)
        shutil.copytree("/repo/refextract", os.path.join(r, "refextract"), ignore=shutil.ignore_patterns("__pycache__"))
        os.makedirs(os.path.join(w, "t"))
        shutil.copytree("/repo/tests", os.path.join(w, "t", "tests"), ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copy("/repo/pyproject.toml", os.path.join(w, "t"))
        new = src[:m["a"]] + m["new"] + src[m["b"]:]
        res = dict(m, file=f)
        try:
            compile(new, f, "exec")
        except SyntaxError:
            return dict(res, result="syntax")
        open(os.path.join(r, f), "w", encoding="utf8").write(new)
        t0 = time.time()
        # cheap first: harness models
        c = subprocess.run([PY, "-W", "ignore", os.path.join(V, "tools", "mutate_child.py"), f + ":" + str(m["func"])],
                           cwd=w, env=dict(os.environ, VERIF_REPO=r, PYTHONDONTWRITEBYTECODE="1"), timeout=1200,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = (c.stdout.strip().splitlines() or ["?"])[-1]
        if last.startswith("KILLED"):
            return dict(res, result="killed", by=last, t=round(time.time() - t0))
        ok, why = test(r, w)
        return dict(res, result="SURVIVES" if ok else "tests-only", by=last[:300], why=why, t=round(time.time() - t0))
    except Exception as e:
        return dict(m, file=f, result="error", why=repr(e)[:300])
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        for f in sys.argv[2:] or FILES:
            s, ms = mutants("/repo/" + f)
            print(f, len(ms))
        return
    out, n, seed = sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or FILES
    jobs = []
    for f in files:
        s, ms = mutants("/repo/" + f)
        for m in ms:
            jobs.append((f, m, s))
    random.Random(seed).shuffle(jobs)
    jobs = [(i,) + (f, m, s) for i, (f, m, s) in enumerate(jobs[:n])]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["a"], d["b"], d["new"]))
    jobs = [j for j in jobs if (j[1], j[2]["a"], j[2]["b"], j[2]["new"]) not in done]
    with ThreadPoolExecutor(int(os.environ.get("MUT_N", "8"))) as ex, open(out, "a") as fh:
        for r in as_completed([ex.submit(one, j) for j in jobs]):
            r = r.result()
            fh.write(json.dumps(r) + "\n")
            fh.flush()


main()
