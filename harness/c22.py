"""C22 what a knowledge base holds is recognised."""
import itertools
import os

from hx_common import *

TITLES = (("QK ZQ", "Qk.Zq."), ("QK ZQ LETT", "Qz.Lett."), ("KZ LETT SUP", "Kls"))
SPELL = (("Qk Zq", 0), ("QK. ZQ.", 0), ("Qk.Zq.", 0), ("Qk Zq Lett", 1), ("Qz.Lett.", 1), ("qz lett", 1), ("Kz. Lett. Sup.", 2), ("KLS", 2))
FORMS = ("path", "pairs", "list", "dict")


def given(ctx, form, entries, d, before=(), pads=None):
    """the knowledge base in one of the accepted forms"""
    if form == "pairs":
        return tuple(entries)
    if form == "list":
        return [list(e) for e in entries]
    if form == "dict":
        return dict(entries)
    p = pads or ("", "", "", "")
    lines = list(before)
    for s, r in entries:
        lines.append(p[0] + s + p[1] + "---" + p[2] + r + p[3] + "\n")
    path = os.path.join(d, "q.kb")
    text_files(ctx, {path: lines})
    return path


def journal(title, page):
    return {"linemarker": ["1"], "author": ["A. Qkq"], "journal_title": [title], "journal_volume": ["5"], "journal_year": ["2000"],
            "journal_page": [page], "journal_reference": [title + " 5 (2000) " + page], "year": ["2000"]}


def h_journals(ctx):
    """every spelling of every journal, in every order of the entries"""
    d = scratch(ctx)
    form = ctx.choice("form", FORMS)
    order = ctx.choice("order", tuple(itertools.permutations((0, 1, 2))))
    kb = given(ctx, form, [TITLES[i] for i in order], d)
    text, i = ctx.choice("spelling", SPELL)
    c = ctx.char("c", DIGITS[1:])
    one(ctx, "[1] A. Qkq, " + text + " 5 (2000) 1" + c, journal(TITLES[i][1], "1" + c), kbs=kbs(journals=kb))
    ctx.reach("journal")


def h_padding(ctx):
    """blanks around the terms, comments"""
    d = scratch(ctx)
    pads = [ctx.string("p%d" % i, 0, 2, " \t") for i in range(4)]
    what = ctx.choice("kb", ("journals", "publishers", "collaborations", "journals_re", "authors"))
    comment = ctx.choice("comment", ((), ("# no title --- q\n",), ("#\n", "# q\n")))
    if what == "journals":
        kb = given(ctx, "path", [("QK ZQ", "Qk.Zq.")], d, comment, pads)
        one(ctx, "[1] A. Qkq, Qk Zq 5 (2000) 12", journal("Qk.Zq.", "12"), kbs=kbs(journals=kb))
    elif what == "journals_re":
        kb = given(ctx, "path", [("Q[KX] ZQ", "Qk.Zq.")], d, comment, pads)
        one(ctx, "[1] A. Qkq, QX ZQ 5 (2000) 12", journal("Qk.Zq.", "12"), kbs=kbs(journals_re=kb))
    elif what == "publishers":
        kb = given(ctx, "path", [("QK PRESS", "Qk-Press")], d, comment, pads)
        one(ctx, "[1] A. Qkq, Qk Press 2000", {"linemarker": ["1"], "author": ["A. Qkq"], "publisher": ["Qk-Press"], "year": ["2000"]},
            kbs=kbs(publishers=kb))
    elif what == "authors":
        mark = ctx.choice("mark", ("~", "#"))
        kb = given(ctx, "path", [("Du" + mark + "q", "Duq")], d, comment, pads)
        want = journal("Phys.Lett.", "12")
        twice = ctx.choice("twice", (False, True))
        want["author"] = ["A. Duq, B. Duq" if twice else "A. Duq"]
        one(ctx, "[1] A. Du" + mark + "q, " + ("B. Du" + mark + "q, " if twice else "") + "Phys. Lett. 5 (2000) 12", want, kbs=kbs(authors=kb))
    else:
        kb = given(ctx, "path", [("QKQ", "Q")], d, comment, pads)
        want = journal("Phys.Lett.", "12")
        del want["author"]
        want["collaboration"] = ["QKQ"]
        one(ctx, "[1] QKQ, Phys. Lett. 5 (2000) 12", want, kbs=kbs(collaborations=kb))
    ctx.reach("padded")


def h_malformed(ctx):
    """a line is either a comment, an entry or rejected"""
    d = scratch(ctx)
    what = ctx.choice("kb", ("journals", "publishers", "collaborations", "journals_re"))
    line = ctx.string("line", 0, 6, "Q- ") if ctx.choice("start", ("any", "comment")) == "any" else "#" + ctx.string("line", 0, 3, "Q- ")
    path = os.path.join(d, "q.kb")
    text_files(ctx, {path: ["QKQK---Qkqk\n", line + "\n"]})
    r = parse(ctx, ["[1] A. Qkq, kqkq"], kbs=kbs(**{what: path}))
    t = line.strip()
    entry = False
    for i in range(1, len(t) - 3):
        if t[i:i + 3] == "---":
            if t[:i].strip() != "" and t[i + 3:].strip() != "":
                entry = True
    if line.startswith("#") or entry:
        ctx.check(r.ok, "entry or comment accepted", r.exc_name)
        ctx.reach("accepted")
    else:
        ctx.check(not r.ok, "malformed line rejected")
        ctx.reach("rejected")


def h_lists(ctx):
    """blank lines and comments of lists that have them"""
    d = scratch(ctx)
    blanks = ctx.string("blank", 0, 2, " \t")
    pre, post = ctx.string("pre", 0, 2, " \t"), ctx.string("post", 0, 2, " \t")
    form = ctx.choice("form", ("path", "list"))
    lines = [blanks + "\n", "# JHEP\n", pre + "Qk.Zq." + post + "\n"]
    if ctx.choice("swap", (False, True)):
        lines.reverse()
    path = os.path.join(d, "q.kb")
    if form == "path":
        text_files(ctx, {path: lines})
    kb = path if form == "path" else lines
    want = journal("Qk.Zq.", "012")
    want["journal_volume"] = ["0005"]
    want["journal_reference"] = ["Qk.Zq. 0005 (2000) 012"]
    one(ctx, "[1] A. Qkq, Qk Zq 05 (2000) 12", want, kbs=kbs(special_journals=kb, journals=(("QK ZQ", "Qk.Zq."),)))
    ctx.reach("special")


REPORTS = (
    ("*****QKR*****", "<syyyys999>", "<syys999>", "", "QKR TH   ---QKR-TH", "QKR TH PH---QKR-TH-PH"),
    ("*****ZQX*****", "<s9999>", "ZQX PP---ZQX-PP", "QKR LET---QKR-LET"),
)
NUMBERS = (("QKR-TH-2000-12", "QKR-TH-2000-12", 1), ("QKR TH 00 12", "QKR-TH-00-12", 1), ("QKR TH PH 2000 12", "QKR-TH-PH-2000-12", 1),
           ("ZQX PP 123", "ZQX-PP-123", 1), ("QKR-LET-123", "QKR-LET-123", 1), ("ZQX PP 20 12", None, 0), ("QKR TH 123", None, 0))


def h_reports(ctx):
    """report series of several institutes"""
    d = scratch(ctx)
    form = ctx.choice("form", ("path", "list"))
    order = ctx.choice("order", ((0, 1), (1, 0)))
    noise = ctx.choice("noise", ("none", "comments", "blank", "trailing"))
    sp = ctx.string("sp", 0, 1, " \t") if noise == "trailing" else ""
    lines = []
    for i in order:
        for l in REPORTS[i]:
            lines.append(l + sp + ("\n" if form == "path" else ""))
            if noise == "comments":
                lines.append("# <s999>\n")
            elif noise == "blank":
                lines.append("  \n")
    path = os.path.join(d, "q.kb")
    if form == "path":
        text_files(ctx, {path: lines})
    text, want, found = ctx.choice("number", NUMBERS)
    c = ctx.char("c", DIGITS)
    line = "[1] A. Qkq, " + text + c + ", Phys. Lett. 5 (2000) 12"
    exp = journal("Phys.Lett.", "12")
    if found:
        exp["reportnumber"] = [want + c]
        one(ctx, line, exp, kbs=kbs(**{"report-numbers": path if form == "path" else lines}))
        ctx.reach("report")
    else:
        r = parse(ctx, [line], kbs=kbs(**{"report-numbers": path if form == "path" else lines}))
        ctx.check(r.ok and "reportnumber" not in r.value[0][0], "numbers of another institute are not taken", r.value)
        ctx.reach("other")


def h_collaborations(ctx):
    """every spelling of every collaboration"""
    d = scratch(ctx)
    form = ctx.choice("form", FORMS)
    entries = [("QKQ", "Q"), ("ZZK", "Q"), ("Bel QQ Collaboration", "B")]
    order = ctx.choice("order", tuple(itertools.permutations((0, 1, 2))))
    kb = given(ctx, form, [entries[i] for i in order], d)
    name = ctx.choice("name", ("QKQ", "zzk", "Bel QQ Coll.", "Bel QQ coll", "Bel QQ Collaborations", "Bel QQ Collaboration", "BEL QQ collaboration"))
    c = ctx.char("c", DIGITS[1:])
    want = journal("Phys.Lett.", "1" + c)
    del want["author"]
    want["collaboration"] = [name.rstrip(".")]
    one(ctx, "[1] " + name + ", Phys. Lett. 5 (2000) 1" + c, want, kbs=kbs(collaborations=kb))
    ctx.reach("collaboration")


def h_publishers(ctx):
    d = scratch(ctx)
    form = ctx.choice("form", FORMS)
    entries = [("QK PRESS", "Qk-Press"), ("ZQ", "Zq Verlag"), ("KQZ", "Qk-Press")]
    order = ctx.choice("order", tuple(itertools.permutations((0, 1, 2))))
    kb = given(ctx, form, [entries[i] for i in order], d)
    name, want = ctx.choice("name", (("QK PRESS", "Qk-Press"), ("qk press", "Qk-Press"), ("Zq", "Zq Verlag"), ("KQZ", "Qk-Press")))
    c = ctx.char("c", DIGITS)
    one(ctx, "[1] A. Qkq, kqzk, " + name + ", 199" + c, {"linemarker": ["1"], "author": ["A. Qkq"], "misc": ["kqzk"], "publisher": [want],
                                                         "year": ["199" + c]}, kbs=kbs(publishers=kb))
    ctx.reach("publisher")


def h_books(ctx):
    """books of a table, with or without year"""
    d = scratch(ctx)
    rows = [("Qq, A.", "Kqz qzk", "1988;"), ("Zz, B., (ed.)", "Zq (kk) - 2", "2001;"), ("Ww", "Wwq")]
    order = ctx.choice("order", tuple(itertools.permutations((0, 1, 2))))
    form = ctx.choice("form", ("path", "rows"))
    rows = [rows[i] for i in order]
    if form == "path":
        kb = os.path.join(d, "b.kb")
        with open(kb, "w") as fh:
            fh.write("".join("|".join(r) + "\n" for r in rows))
    else:
        kb = tuple(rows)
    title, std, year = ctx.choice("title", (("Kqz qzk", "Kqz qzk", "1988"), ("KQZ QZK", "Kqz qzk", "1988"), ("zq (kk) - 2", "Zq (kk) - 2", "2001"),
                                            ("Wwq", "Wwq", None), ("Kqz", None, None)))
    c = ctx.char("c", LOWER)
    want = {"linemarker": ["1"], "author": ["A. Qkq"], "title": [std or title], "misc": ["kq" + c]}
    if year:
        want["year"] = [year]
    one(ctx, '[1] A. Qkq, "' + title + '", kq' + c, want, kbs=kbs(books=kb))
    ctx.reach("book")


NESTED = (("QK PRESS", "Qk-Press"), ("PRESS", "Pr."), ("QK", "Qkk"), ("ZQ QK PRESS", "Zqp"))
NAMED = (("Qk Press", ["Qk-Press"]), ("QK. PRESS", ["Qk-Press"]), ("Zq Qk Press", ["Zqp"]), ("zq, qk - press", ["Zqp"]), ("Press", ["Pr."]),
         ("Qk", ["Qkk"]), ("Qk Pressk", ["Qkk"]), ("Pressk", None), ("Kqk", None), ("Qk9", None))


def h_publishers_nested(ctx):
    """names inside longer names and longer words"""
    order = ctx.choice("order", tuple(itertools.permutations((0, 1, 2, 3))))
    kb = tuple(NESTED[i] for i in order)
    name, want = ctx.choice("name", NAMED)
    c = ctx.char("c", DIGITS)
    exp = {"linemarker": ["1"], "author": ["A. Qkq"], "misc": ["kqzk"], "year": ["199" + c]}
    if want is None:
        exp["misc"] = ["kqzk, " + name]
    else:
        exp["publisher"] = want
        if name == "Qk Pressk":
            exp["misc"] = ["kqzk", "Pressk"]
    one(ctx, "[1] A. Qkq, kqzk, " + name + ", 199" + c, exp, kbs=kbs(publishers=kb))
    ctx.reach("name")


EXPR = (("D\\.\\s?A\\.\\s?N\\.", ("D. A. N.", "D.A.N.", "D. A.N."), "Dk"), ("QK \\(?ZQ\\)? KK", ("QK ZQ KK", "QK (ZQ) KK"), "Dk"),
        ("PHYS", ("PHYS",), "Dk"), ("REV", ("REV", ), "Dk"), ("PHYS", ("PHYS. REV.", "PHYS REV"), "Phys.Rev."), ("REV", ("PHYS. REV.", "PHYS REV"), "Phys.Rev."),
        ("AQ PHYS. REV.", ("AQ PHYS. REV.",), "Dk"), ("PHYS. REV. QK", ("PHYS. REV. QK",), "Dk"))


def h_expressions(ctx):
    """journals given as expressions, next to the journals given as titles"""
    expr, texts, std = ctx.choice("expr", EXPR)
    text = ctx.choice("text", texts)
    v = ctx.choice("series", ("", "A")) + ctx.string("v", 1, 2, DIGITS)
    w = ctx.string("w", 0, 1, "kq")
    before = "see " + w if w else "see"
    num = " " + v + " (1996) 65"
    if ctx.choice("twice", (False, True)):
        r = parse(ctx, ["[1] " + before + " " + text + num + "; " + text + " 7 (1997) 12"], kbs=kbs(journals_re=(expr + "---Dk",)))
        if ctx.check(r.ok and len(r.value[0]) == 2, "two references", r.value):
            f = r.value[0][1]
            ctx.check(f.get("journal_title") == [std] and f.get("journal_volume") == ["7"] and f.get("journal_page") == ["12"] and "misc" not in f,
                      "second mention", f)
        r = r.value[0][0] if r.ok else {}
    else:
        r = parse(ctx, ["[1] " + before + " " + text + num + " yqk"], kbs=kbs(journals_re=(expr + "---Dk",)))
        if ctx.check(r.ok and len(r.value[0]) == 1, "one reference", r.value):
            ctx.check(r.value[0][0].get("misc") == [before, "yqk"], "text kept", r.value)
        r = r.value[0][0] if r.ok else {}
    ctx.check(r.get("journal_title") == [std] and r.get("journal_volume") == [v] and r.get("journal_year") == ["1996"] and r.get("journal_page") == ["65"],
              "journal", r)
    ctx.reach("expression")


PATTERNS = (("<s9?9?9>", ("-12%", " 12%", "12%", "--12%", " - 12%"), "-12%"), ("<syyyys99>", ("-2004-1%", " 2004 1%", "2004-1%"), None),
            ("<syys9?9>", ("-04-1%", " 04/1%"), "-04-1%"), ("<saas99>", ("-kq-1%", "-KQ-1%"), "-KQ-1%"), ("<s999w+>", ("-12%abc", "-12%ABC"), "-12%ABC"),
            ("<syymm9>", ("-0412%", "-04-12%"), None), ("<s9v9>", ("-4v%", "-4V%"), "-4V%"), ('<s"QQ"s9>', ("-QQ-%", "-qq-%"), "-QQ-%"),
            ("<s[EP]99>", ("-E1%", "-p1%"), None), ("<s99 [EX ]>", ("-1%",), "-1%"), ("<s99 [EX ]>", ("-1%-E", "-1% e"), "-1%-E"))


def h_patterns(ctx):
    """numerations written with the symbols of the knowledge base"""
    pattern, texts, want = ctx.choice("pattern", PATTERNS)
    text = ctx.choice("text", texts)
    other = ctx.choice("other", ((), ("<s9>",), ("<s9s9>",)))
    first = ctx.choice("first", (True, False))
    c = ctx.char("c", DIGITS)
    lines = ["*****QKR*****", *other, pattern] if first else ["*****QKR*****", pattern, *other]
    line = "[1] A. Qkq, QKR TH" + text.replace("%", "\0")
    line = c.join(line.split("\0")) + ", Phys. Lett. 5 (2000) 12"
    exp = journal("Phys.Lett.", "12")
    found = True
    if pattern == "<syyyys99>":
        want = "2004-1%" if text[0] == "2" else "-2004-1%"
    elif pattern == "<syymm9>":
        want = "-0412%"
        found = text == "-0412%"
    elif pattern == "<s[EP]99>":
        want = text.upper()[:2] + "-1%"
    elif pattern == "<s9?9?9>" and text[0] == "1":
        want = "12%"
    if not found:
        return
    # a missing hyphen before the digits is added
    std = "QKR-TH" + want
    if want[0].isdigit():
        std = "QKR-TH-" + want
    exp["reportnumber"] = [c.join(std.split("%"))]
    one(ctx, line, exp, kbs=kbs(**{"report-numbers": tuple(lines + ["QKR TH---QKR-TH"])}))
    ctx.reach("pattern")


HARNESSES = [
    Harness("publishers_nested", h_publishers_nested, "4 names containing one another in 24 orders, 10 texts; symbolic digit", reach=("name",)),
    Harness("expressions", h_expressions, "8 expressions, with punctuation and overlapping the titles, once or twice in a line; volume of 1..2 symbolic digits",
            reach=("expression",)),
    Harness("patterns", h_patterns, "11 numeration patterns with all symbols, alone or with a shorter one, 2 orders; symbolic digit", reach=("pattern",)),
    Harness("journals", h_journals, "3 journals, one title containing another, in 6 orders x 4 forms x 8 spellings; symbolic digit", reach=("journal",)),
    Harness("padding", h_padding, "5 knowledge bases; 0..2 blanks or tabs at 4 places; comments", reach=("padded",)),
    Harness("malformed", h_malformed, "4 knowledge bases; a line of 0..6 of 'Q', '-', ' ' or a comment", reach=("accepted", "rejected")),
    Harness("lists", h_lists, "blank line and entry with 0..2 blanks or tabs, comment; 2 forms, 2 orders", reach=("special",)),
    Harness("reports", h_reports, "2 institutes in 2 orders, 7 numbers, symbolic digit; 4 kinds of noise", reach=("report", "other")),
    Harness("collaborations", h_collaborations, "3 entries in 6 orders x 4 forms x 7 names", reach=("collaboration",)),
    Harness("publishers", h_publishers, "3 entries in 6 orders x 4 forms x 4 names; symbolic digit", reach=("publisher",)),
    Harness("books", h_books, "3 books in 6 orders x 2 forms x 5 titles; symbolic letter", reach=("book",)),
]
