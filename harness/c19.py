"""C19 knowledge bases in use are those of the call, whatever the history."""
import os
import shutil
import tempfile

from hx_common import *

def field(name):
    return lambda refs: [f.get(name) for f in refs]


def jline(x):
    return x + " 53 (1996) 65"


# type -> (builder of a KB from a letter, a malformed KB, line, observed field, value for the letter, default value)
TYPES = {
    "journals": (lambda c: (("QKZ ZZQ", "Zz" + c + "."),), (("QKZ ZZQ",),), "Qkz Zzq 53 (1996) 65",
                 field("journal_title"), lambda c: [["Zz" + c + "."]], [None]),
    "journals_re": (lambda c: ("QKZ ZZQ---Zz" + c + ".",), ("no separator",), "QKZ ZZQ 53 (1996) 65",
                    field("journal_title"), lambda c: [["Zz" + c + "."]], [None]),
    "report-numbers": (lambda c: ("*****Q*****", "<s999>", "QKZ---Q" + c), (7,), "QKZ 123",
                       field("reportnumber"), lambda c: [["Q" + c + "-123"]], [None]),
    "publishers": (lambda c: (("Qkz", "Zz" + c),), (("Qkz",),), "qqv, Qkz",
                   field("publisher"), lambda c: [["Zz" + c]], [None]),
    "collaborations": (lambda c: (("QKZ" + c, "x"),), (("QKZ",),), "QKZA, QKZB, Phys. Rev. 53 (1996) 65",
                       field("collaboration"), lambda c: [["QKZ" + c]], [None]),
    "books": (lambda c: (("Q. Qqqq", "Zzv" + c + " qvzz", "1700;"),), (("Q",),), "zq \"zzva qvzz\", \"zzvb qvzz\"",
              field("title"), lambda c: [["zzva qvzz" if c == "B" else "zzvb qvzz"], ["zzva qvzz"]], None),
    "special_journals": (lambda c: ("JHEP",) if c == "A" else ("Phys.Rev.",), (7,),
                         "JHEP 05 (1998) 123; Phys. Rev. 05 (1998) 123", field("journal_volume"),
                         lambda c: [["9805"], ["05"]] if c == "A" else [["05"], ["9805"]], [["9805"], ["05"]]),
    "authors": (lambda c: ("Qkzq---Zz" + c,), (7,), "qv Qkzq qv", field("misc"), lambda c: [["qv Zz" + c + " qv"]],
                [["qv Qkzq qv"]]),
}
NAMES = ("journals", "journals_re", "report-numbers", "publishers", "collaborations", "special_journals", "authors")


def run(ctx, line, over, **kw):
    return ctx.call(ctx.get(ENG + ":parse_references"), [line], override_kbs_files=over, **kw)


def variants(c, t):
    """A knowledge base as tuple, list or (pairs only) dict"""
    kb = TYPES[t][0](c)
    if t in ("journals", "publishers", "collaborations"):
        return {"tuple": kb, "list": list(kb), "dict": dict(kb)}
    return {"tuple": kb, "list": list(kb)}


def observe(ctx, t, r, want):
    ctx.check(r.ok, "no exception", detail=[t, r.exc_name])
    if r.ok:
        got = TYPES[t][3](r.value[0])
        ctx.observe("got", got)
        ctx.check(eq(got, want), "the knowledge base of this call is used", detail=[t, got, want])


def h_history(ctx):
    """two earlier calls (with A, B, none or a failing one), then the checked call"""
    small_defaults(ctx)
    t = ctx.choice("type", NAMES)
    build, bad, line, _, value, default = TYPES[t]
    letters = {"A": "A", "B": "B"}
    if t in ("journals", "journals_re", "report-numbers", "publishers"):
        letters = {"A": ctx.char("a", "AC"), "B": ctx.char("b", "BC")}
    hist = []
    for i in range(2):
        h = ctx.choice("h%d" % i, ("A", "B", "none", "bad"))
        hist.append(h)
        over = None if h == "none" else {t: bad if h == "bad" else build(letters[h])}
        r = run(ctx, line, over)
        ctx.check(r.ok == (h != "bad"), "malformed rejected, others accepted", detail=[t, h, r.exc_name])
    last = ctx.choice("last", ("A", "B", "none"))
    ctx.observe("history", [t] + hist + [last])
    r = run(ctx, line, None if last == "none" else {t: build(letters[last])})
    observe(ctx, t, r, default if last == "none" else value(letters[last]))


def h_two(ctx):
    """several knowledge bases at once, one of which may fail to load"""
    small_defaults(ctx)
    ts = ctx.choice("types", (("collaborations", "journals"), ("publishers", "special_journals"),
                              ("report-numbers", "publishers"), ("journals_re", "authors")))
    lab = ["A", "B"]
    steps = []
    for i in range(2):
        over = {}
        for t in ts:
            c = ctx.choice("%d.%s" % (i, t), ("A", "B") if i == 0 else ("A", "B", "bad"))
            steps.append(c)
            over[t] = TYPES[t][1] if c == "bad" else TYPES[t][0](c)
        run(ctx, TYPES[ts[0]][2], over)
    fin = [ctx.choice("f%d" % i, lab) for i in range(2)]
    ctx.observe("history", [list(ts)] + steps + fin)
    over = {t: TYPES[t][0](c) for t, c in zip(ts, fin)}
    for t, c in zip(ts, fin):
        observe(ctx, t, run(ctx, TYPES[t][2], over), TYPES[t][4](c))


def h_mutable(ctx):
    """a list or dict that the caller changes between two calls"""
    small_defaults(ctx)
    t = ctx.choice("type", ("journals", "publishers", "report-numbers", "special_journals", "journals_re"))
    kinds = ("list", "dict") if t in ("journals", "publishers") else ("list",)
    kind = ctx.choice("kind", kinds)
    a, b = variants("A", t)[kind], variants("B", t)[kind]
    line, value = TYPES[t][2], TYPES[t][4]
    observe(ctx, t, run(ctx, line, {t: a}), value("A"))
    if kind == "list":
        a[:] = b
    else:
        a.clear()
        a.update(b)
    observe(ctx, t, run(ctx, line, {t: a}), value("B"))


def h_nested(ctx):
    """another call, with other knowledge bases, made while the first one is running"""
    small_defaults(ctx)
    t = ctx.choice("type", ("journals", "report-numbers", "publishers", "special_journals"))
    inner = ctx.choice("inner", ("B", "none", "bad"))
    build, bad, line, obs, value, _ = TYPES[t]
    done = []

    def linker(el):
        if not done:
            done.append(1)
            run(ctx, line, None if inner == "none" else {t: bad if inner == "bad" else build("B")})
        return None
    r = ctx.call(ctx.get(ENG + ":parse_references"), ["DESY-98-123", line], override_kbs_files={t: build("A")},
                 linker_callback=linker)
    ctx.check(r.ok, "no exception", detail=r.exc_name)
    if r.ok:
        ctx.check(len(done) == 1, "the other call was made")
        got = obs(r.value[0][1:])
        ctx.check(eq(got, value("A")), "the running call keeps its knowledge bases", detail=[t, got])


def h_files(ctx):
    """knowledge bases given as paths, missing files included"""
    small_defaults(ctx)
    t = ctx.choice("type", ("journals", "special_journals", "report-numbers"))
    tmp = tempfile.mkdtemp(prefix="sx19")
    ctx.cleanup.append(lambda: shutil.rmtree(tmp, ignore_errors=True))
    paths = {}
    for c in "AB":
        paths[c] = os.path.join(tmp, c)
        with open(paths[c], "w") as fh:
            for x in TYPES[t][0](c):
                fh.write((x if isinstance(x, str) else x[0] + "---" + x[1]) + "\n")
    paths["missing"] = os.path.join(tmp, "nowhere")
    paths["none"] = None
    line, value, default = TYPES[t][2], TYPES[t][4], TYPES[t][5]
    for i in range(3):
        c = ctx.choice("s%d" % i, ("A", "B", "missing", "none"))
        r = run(ctx, line, {t: paths[c]})
        if c == "missing":
            ctx.check(r.exc_name == "FileNotFoundError", "missing file reported", detail=r.exc_name)
        else:
            observe(ctx, t, r, default if c == "none" else value(c))


def h_shipped(ctx):
    """the shipped tables before and after calls with overrides"""
    line = "Phys. Rev. D" + ctx.string("v", 2, 2, DIGITS) + " (1996) 65, CERN-TH-98-12, World Scientific"
    a = run(ctx, line, None)
    over = {}
    for t in ctx.choice("types", (("journals",), ("publishers", "report-numbers"))):
        over[t] = kbs()[t] if ctx.choice(t, (True, False)) else TYPES[t][1]
    run(ctx, line, over)
    b = run(ctx, line, None)
    ctx.observe("line", line)
    ctx.check(a.ok and b.ok, "no exception")
    if a.ok and b.ok:
        ctx.check(eq(a.value[0], b.value[0]), "same result with the shipped tables", detail=[a.value[0], b.value[0]])
        ctx.check(eq(a.value[0][0].get("journal_title"), ["Phys. Rev."]), "shipped journals in use")
        ctx.check(eq(a.value[0][0].get("publisher"), ["World Scientific"]), "shipped publishers in use", detail=a.value[0])


HARNESSES = [
    Harness("history", h_history, "3 calls, 7 kinds of knowledge bases, 4 variants each, symbolic standard names", needs=(CFG, KCFG)),
    Harness("two", h_two, "3 calls overriding two kinds at once", needs=(CFG, KCFG)),
    Harness("mutable", h_mutable, "list or dict changed in place between two calls", needs=(CFG, KCFG)),
    Harness("nested", h_nested, "another call during the call", needs=(CFG, KCFG)),
    Harness("files", h_files, "3 calls with paths, including a missing one", needs=(CFG, KCFG)),
    Harness("shipped", h_shipped, "shipped tables, 2 digits symbolic"),
]
