"""C24 author groups: complete, in order, as written."""
from hx_common import *

ENDS = (", Phys. Lett. 5 (2000) 12", ", hep-th/9901001", ", kqk")


def after(end):
    d = {"linemarker": ["1"]}
    if "Phys" in end:
        d.update(journal_title=["Phys.Lett."], journal_volume=["5"], journal_year=["2000"], journal_page=["12"],
                 journal_reference=["Phys.Lett. 5 (2000) 12"], year=["2000"])
    elif "hep" in end:
        d["reportnumber"] = ["hep-th/9901001"]
    else:
        d["misc"] = ["kqk"]
    return d


def group(ctx, text, label, want=None, before="", end=None, **kw):
    end = end or ctx.choice("end", ENDS)
    d = after(end)
    d["author"] = [want or text]
    if before:
        d["misc"] = [before.strip(" ,")] + d.get("misc", [])
    one(ctx, "[1] " + before + text + end, d, label, **kw)


def h_single(ctx):
    """one author, any letters"""
    i = ctx.char("i", UPPER)
    s = ctx.char("s", UPPER) + ctx.string("n", 2, 3, LOWER)
    ctx.assume(s != "Phys")
    style = ctx.choice("style", ("%i. %s", "%i.%s", "%i %s", "%s, %i.", "%s %i.", "%s, %i"))
    group(ctx, style.replace("%i", i).replace("%s", s), "one author", end=ENDS[0])
    ctx.reach("single")


def h_initials(ctx):
    """up to five initials in every style"""
    n = ctx.choice("n", (2, 3, 5))
    ini = [ctx.char("i%d" % k, UPPER) for k in range(n)]
    sep = ctx.choice("sep", (".", ". ", ".-", " ", "-"))
    t = sep.join(ini) + ("." if "." in sep else "")
    s = "Qk" + ctx.char("c", LOWER)
    order = ctx.choice("order", ("i s", "s, i", "s i"))
    if order == "i s":
        text = t + " " + s
    else:
        text = s + (", " if "," in order else " ") + t
    group(ctx, text, "every initial", end=ENDS[0])
    ctx.reach("initials")


def h_surname(ctx):
    """prefixes, hyphens, apostrophes, suffixes, accents, capitals"""
    a, b = ctx.char("a", UPPER), ctx.string("b", 2, 2, LOWER)
    s = a + b
    form = ctx.choice("form", ("%", "%-Zkz", "Zk-%", "O'%", "O\u2019%", "Mc%", "de %", "di %", "van %", "d'%", "% Jr.", "\xc9%",
                               "%\xe9", "\u0160%", "Aqqq B. %", "B. Aqqq %", "%qqqqqqqqqqqqq", "al-%", "el-%", "Al-%",
                               "O\xb4Q%", "O`Q%", "von %", "le %", "da %", "del %", "%qqqqqqqqqqqqqqqqq", "% III", "% Jr",
                               "%'zkz", "%\u2019zkz", "%`zkz", "%q\xb4zkz", "%'", "%\u2019",
                               "%-Zkz, B.", "%'Zkz, B.", "%\u2019Zkz B.", "%, B.-C."))
    t = form.replace("%", s)
    if "B." not in t:
        t = "B. " + t
    group(ctx, t, "names of every form", end=ENDS[0])
    ctx.reach("surname")


def person(ctx, k, order):
    i = ctx.char("i%d" % k, "ABMRSZ")
    s = "Q" + ctx.string("s%d" % k, 2, 2, "aekz")
    return (i + ". " + s) if order == "i s" else (s + ", " + i + ".")


def h_list(ctx):
    """lists of authors"""
    n = ctx.choice("n", (2, 3, 4))
    order = ctx.choice("order", ("i s", "s, i"))
    last = ctx.choice("last", (", ", " and ", ", and ", " & ", " AND "))
    names = [person(ctx, k, order) for k in range(n)]
    text = ", ".join(names[:-1]) + last + names[-1]
    before, end = ctx.choice("around", (("", ENDS[0]), ("kzq, ", ENDS[1]), ("", ENDS[2])))
    group(ctx, text, "every author of a list", before=before, end=end)
    ctx.reach("list")


def h_mixed(ctx):
    """first author surname first, the others initials first"""
    names = [person(ctx, 0, "s, i"), person(ctx, 1, "i s")]
    n = ctx.choice("n", (2, 3))
    if n == 3:
        names.append(person(ctx, 2, "i s"))
    last = ctx.choice("last", (", ", " and ", ", and "))
    group(ctx, ", ".join(names[:-1]) + last + names[-1], "mixed order", end=ENDS[0])
    ctx.reach("mixed")


def h_etal(ctx):
    """'et al.' in every spelling is kept as 'et al.'"""
    n = ctx.choice("n", (0, 1, 2))
    names = [person(ctx, k, "i s") for k in range(n)] or ["Q" + ctx.string("s", 3, 3, LOWER)]
    sep = ctx.choice("sep", (" ", ", "))
    etal = ctx.choice("etal", ("et al.", "et al", "et. al.", "Et Al.", "et al.,"))
    text = ", ".join(names) + sep
    group(ctx, text + etal, "et al.", want=text + "et al.", end=ENDS[0])
    ctx.reach("etal")


def h_etal_names(ctx):
    """names that contain the letters of 'et al'"""
    a = "Q" + ctx.string("a", 1, 2, "aet") + ctx.choice("t", ("et", "ET", "eT"))
    b = ctx.choice("b", ("Al", "AL")) + ctx.string("c", 1, 2, "aln")
    sep = ctx.choice("sep", (", ", " and "))
    text = "A. " + a + sep + b + " C. Zkz"
    group(ctx, text, "names kept", end=ENDS[0])
    ctx.reach("names")


def h_editors(ctx):
    """editors are marked"""
    n = ctx.choice("n", (1, 2, 3))
    names = [person(ctx, k, "i s") for k in range(n)]
    text = names[0] if n == 1 else ", ".join(names[:-1]) + ctx.choice("last", (", ", " and ")) + names[-1]
    form = ctx.choice("form", ("eds. %", "eds %", "ed. %", "Eds. %", "edited by %", "Edited by %", "ed. by %", "eds. by %",
                               "(eds.) %", "ed %", "% (eds.)", "%, eds.", "% eds.", "%, editors", "% (editors)", "(%, eds.)"))
    group(ctx, form.replace("%", text), "editors", want="(" + text + " (eds.))", end=ctx.choice("end", (ENDS[0], ENDS[2])))
    ctx.reach("editors")


def h_editor(ctx):
    """an editor in brackets after the names, whole or not in brackets"""
    names = [person(ctx, k, "i s") for k in range(ctx.choice("n", (1, 2)))]
    text = ctx.choice("sep", (", ", " and ") if len(names) > 1 else ("",)).join(names)
    ed = ctx.choice("ed", ("(ed.)", "(ed)", "(ed. )", "(Ed.)", "(editor)", "(Editor)", "(edited)"))
    form = ctx.choice("form", ("%", "(%)"))
    group(ctx, form.replace("%", text + " " + ed), "editor as written", want=text + " " + ed.replace(" )", ")"), end=ENDS[0])
    ctx.reach("editor")


def h_text_name(ctx):
    """a name right after 'et al.' in text that is no author group stays in the text"""
    etal = ctx.choice("etal", ("et al.", "et al", "et al.,", "et. al.", "et. al.,", "et.al.,", "Et al."))
    rest = person(ctx, 0, "i s") + ctx.choice("more", ("", " and M. Qzz"))
    d = after(ENDS[0])
    d["misc"] = ["kzq " + etal + " " + rest]
    one(ctx, "[1] kzq " + etal + " " + rest + ENDS[0], d, "names after et al. in text")


def h_lost(ctx):
    """whatever stands between names, every letter of the line appears in some field"""
    sep = ctx.string("sep", 1, 3, " ,.;:and&(*[1\xe9")
    a = "A. Q" + ctx.string("a", 2, 2, "kz")
    b = "B. W" + ctx.string("b", 2, 2, "kz")
    line = "[1] " + a + sep + b + ENDS[2]
    r = parse(ctx, [line])
    ctx.check(r.ok, "no exception", r.exc_name)
    if not r.ok:
        return
    ctx.observe("refs", r.value[0])
    out = ""
    for ref in r.value[0]:
        for f in ("author", "misc", "title"):
            out = out + "".join(ref.get(f, []))
    for k in ("A", "Q" + a[4:], "B", "W" + b[4:], "kqk"):
        ctx.check(k in out, "no text is lost", detail=[line, out])
    ctx.reach("lost")


def h_translit(ctx):
    """authors found only after transliteration"""
    w = ctx.string("w", 1, 3, "\xdfk\xe9") + ctx.choice("more", ("", "\xdf\xdf\xdf\xdf", "\u2026kk"))
    i, s = ctx.char("i", UPPER), "Qk" + ctx.char("s", LOWER)
    n = ctx.choice("n", (1, 2))
    text = i + "\uff0e" + s + (" and B\uff0eZkz" if n == 2 else "")
    end = ctx.choice("end", ENDS[:2])
    d = after(end)
    d["author"] = [text.replace("\uff0e", ".")]
    before = "k" + w
    d["misc"] = [before.replace("\xdf", "ss").replace("\xe9", "e").replace("\u2026", "...")] + d.get("misc", [])
    one(ctx, "[1] " + before + ", " + text + end, d, "transliterated authors")
    ctx.reach("translit")


def h_semicolon(ctx):
    """a semicolon after the authors separates papers; nothing is added to the text"""
    a = person(ctx, 0, "i s") + ctx.choice("etal", ("", " et al."))
    b = person(ctx, 1, "i s")
    form = ctx.choice("form", ("%a; %b", "%a;", "%a; kzq, %b", "%a, kzq; %b"))
    line = "[1] " + form.replace("%a", a).replace("%b", b) + (", " if "%b" in form else " ") + ENDS[0][2:]
    first, second = {"linemarker": ["1"], "author": [a]}, after(ENDS[0])
    second["author"] = [b] if "%b" in form else [a]
    if "kzq; " in form:
        first["misc"] = ["kzq"]
    elif "kzq, " in form:
        second["misc"] = ["kzq"]
    r = parse(ctx, [line])
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception", r.exc_name)
    if r.ok:
        got = [{k: v for k, v in x.items() if k != "raw_ref"} for x in r.value[0]]
        ctx.check(eq(got, [first, second]), "authors before a semicolon", detail=[got, [first, second]])


def h_after_etal(ctx):
    """names right after 'et al.' are no second author group; they stay in the text"""
    n = ctx.choice("n", (1, 2))
    names = [person(ctx, k, "i s") for k in range(n)]
    rest = person(ctx, 2, "i s") + ctx.choice("more", ("", " and M. Qzz"))
    etal = ctx.choice("etal", ("et al.", "et al", "et. al."))
    sep = ctx.choice("sep", (", ", " and "))
    d = after(ENDS[0])
    d["author"] = [", ".join(names) + " et al."]
    d["misc"] = [sep.lstrip(", ") + rest]
    one(ctx, "[1] " + ", ".join(names) + " " + etal + sep + rest + ENDS[0], d, "names after et al.")


def h_text_etal(ctx):
    """'et al.' earlier in the text does not hide the authors"""
    n = ctx.choice("n", (1, 2))
    names = ", ".join([person(ctx, k, "i s") for k in range(n)])
    before = "kzq " + ctx.choice("etal", ("et al.", "et al", "et. al.")) + ctx.choice("sep", (" ", ", ")) + \
        ctx.choice("words", ("kk", "kk kzq", "k of kzq")) + ", "
    group(ctx, names, "authors after text with et al.", before=before, end=ENDS[0])


def h_followed(ctx):
    """punctuation after the group"""
    order = ctx.choice("order", ("i s", "s, i"))
    n = ctx.choice("n", (1, 2))
    names = [person(ctx, k, order) for k in range(n)]
    names = ", ".join(names[:-1]) + (" and " if n > 1 else "") + names[-1]
    e = ctx.choice("e", (":", ".", "", " :", " -", " --", ",", " ,", ";"))
    ctx.assume(e != "." or order == "i s")
    line = "[1] " + names + e + ctx.choice("rest", (" Phys. Lett. 5 (2000) 12", " kqk", " hep-th/9901001"))
    r = parse(ctx, [line])
    ctx.observe("line", line)
    ctx.observe("refs", r.value[0] if r.ok else r.exc_name)
    ctx.check(r.ok, "no exception")
    if r.ok:
        ctx.check(eq(r.value[0][0].get("author"), [names]), "authors before punctuation", detail=r.value[0][0])


def h_many(ctx):
    """long lists"""
    n = ctx.choice("n", (6, 10, 15, 30))
    order = ctx.choice("order", ("i s", "s, i"))
    last = ctx.choice("last", (", ", " and ", " & "))
    names = [person(ctx, 0, order)] + ["BCDEFG"[k % 6] + ". Kzqk" if order == "i s" else "Kzqk, " + "BCDEFG"[k % 6] + "." for k in range(n - 2)]
    names.append(person(ctx, 1, order))
    group(ctx, ", ".join(names[:-1]) + last + names[-1], "every author of a long list", end=ENDS[0])


def h_etal_two(ctx):
    """two surnames without initials before 'et al.'"""
    a = "Qk" + ctx.char("a", "aekz") + ctx.choice("la", ("", "kz"))
    b = "Zk" + ctx.char("b", "aekz") + ctx.choice("lb", ("k", "kzk"))
    text = a + ctx.choice("and", (" and ", " & ", " And ")) + b + ctx.choice("sep", (" ", ", "))
    group(ctx, text + ctx.choice("etal", ("et al.", "et al")), "two surnames et al.", want=text + "et al.", end=ENDS[0])


HARNESSES = [
    Harness("etal_two", h_etal_two, "two surnames of 3-5 and 4-6 letters, 3 connectives, et al. in 2 spellings"),
    Harness("many", h_many, "6, 10, 15 or 30 authors in 2 orders, 3 connectives; first and last name symbolic"),
    Harness("followed", h_followed, "1-2 authors in 2 orders, followed by 9 kinds of punctuation and 3 kinds of text"),
    Harness("text_etal", h_text_etal, "et al. in 3 spellings in text of 1-3 words before 1-2 authors"),
    Harness("semicolon", h_semicolon, "1 author, semicolon, optional text and author"),
    Harness("after_etal", h_after_etal, "1-2 authors, et al. in 3 spellings, 1-2 further names"),
    Harness("single", h_single, "one author: initial A-Z, surname of 3-4 letters A-Z a-z, 6 styles", reach=("single",)),
    Harness("initials", h_initials, "2, 3 or 5 initials A-Z, 5 separators, 3 orders, one symbolic surname letter", reach=("initials",)),
    Harness("surname", h_surname, "39 surname forms around 3 symbolic letters", reach=("surname",)),
    Harness("list", h_list, "2-4 authors with symbolic initials and surnames, 2 orders, 5 connectives, text before, 3 continuations", reach=("list",)),
    Harness("mixed", h_mixed, "2-3 authors, first one surname first, symbolic letters", reach=("mixed",)),
    Harness("etal", h_etal, "0-2 authors and 5 spellings of et al., 2 separators", reach=("etal",)),
    Harness("etal_names", h_etal_names, "names ending in 'et' followed by names starting with 'Al', symbolic letters", reach=("names",)),
    Harness("editors", h_editors, "1-3 editors, 16 forms, symbolic letters", reach=("editors",)),
    Harness("editor", h_editor, "1-2 authors with symbolic letters, 7 spellings of one editor, in brackets or not", reach=("editor",)),
    Harness("text_name", h_text_name, "7 spellings of et al. after text, 1-2 names after it, symbolic letters"),
    Harness("lost", h_lost, "1-3 arbitrary characters of 16 between two names", reach=("lost",)),
    Harness("translit", h_translit, "2-8 characters that grow on transliteration before 1-2 authors with full-width dots", reach=("translit",)),
]
