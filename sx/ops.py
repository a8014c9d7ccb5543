"""Semantics of built-in operations on symbolic values (string formatting, joins,
calls into C code) used by the instrumented code."""
import builtins
import re
import string as _string

from .core import S, SymBool, SymInt, Unsupported, conj, fork_mask, neg
from .values import (SYMTYPES, CharFun, SymChar, SymStr, ch_eq, ch_map, ch_test, chars,
                     concretize, contains_sym, deep_concrete, mk, is_sym)
from .regex import SymMatch, SymPattern, has_pua, pua_for
import z3
from .core import z3var

RePattern = re.Pattern


# ------------------------------------------------------------------ int()
def _digit_expr(c):
    """z3 Int for the decimal value of a symbolic digit character (already known to be
    a decimal digit)."""
    d = S.doms[c.var.name]
    f = c.fun
    vals = []
    for i in range(c.var.dom.n):
        if d >> i & 1:
            vals.append((i, int(f.outs[i])))
    v = z3var(c.var.name, c.var.dom)
    offs = {b - a for a, b in vals}
    if len(offs) == 1:
        return z3.BV2Int(v) + offs.pop()
    e = z3.IntVal(vals[-1][1])
    for i, val in vals[:-1]:
        e = z3.If(v == i, z3.IntVal(val), e)
    return e


def sym_int(x):
    """int(SymStr)."""
    cs = x.strip()
    cs = chars(cs)
    if not cs:
        raise ValueError("invalid literal for int()")
    for c in cs:
        if not ch_test(c, "isdecimal", str.isdecimal):
            if bool(ch_eq(c, "_")) or bool(ch_eq(c, "+")) or bool(ch_eq(c, "-")):
                return int(mk(cs).concrete() if type(mk(cs)) is SymStr else mk(cs))
            raise ValueError("invalid literal for int() with base 10")
    s = mk(cs)
    if type(s) is str:
        return int(s)
    e = z3.IntVal(0)
    for c in s.cs:
        e = e * 10 + (int(c) if type(c) is str else _digit_expr(c))
    return SymInt(z3.simplify(e), s)


def int_str(x):
    """str(SymInt) - exact when it came from a digit string, else concretised."""
    if x.src is not None and type(x.src) is SymStr:
        cs = []
        for c in x.src.cs:
            cs.extend(ch_map(c, "todec", lambda ch: str(int(ch)) if ch.isdecimal() else ch))
        i = 0
        while i < len(cs) - 1 and bool(ch_eq(cs[i], "0")):
            i += 1
        return mk(cs[i:])
    return str(x.concrete())


def to_str(x):
    t = type(x)
    if t is SymStr:
        return x
    if t is SymInt:
        return int_str(x)
    if t is SymBool:
        return str(bool(x))
    if contains_sym(x):
        x = deep_concrete(x)
    return str(x)


# ------------------------------------------------------------------ formatting
_fmt_re = re.compile(r"%(?:\((?P<name>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\d+|\*)?"
                     r"(?:\.(?P<prec>\d+))?(?P<conv>[diouxXeEfFgGcrsa%])")


def fmt_percent(fmt, args):
    if type(fmt) is SymStr:
        # a '%' may only come from concrete positions in the code we execute
        return _fmt_sym(fmt, args)
    if type(args) is tuple:
        if not any(contains_sym(a) for a in args):
            return fmt % args
    elif type(args) is dict:
        if not any(contains_sym(a) for a in args.values()):
            return fmt % args
    elif not contains_sym(args):
        return fmt % args
    out = []
    pos = 0
    k = 0
    seq = args if type(args) is tuple else (args,)
    for m in _fmt_re.finditer(fmt):
        out.extend(fmt[pos:m.start()])
        pos = m.end()
        conv = m.group("conv")
        if conv == "%":
            out.append("%")
            continue
        if m.group("name") is not None:
            v = args[m.group("name")]
        else:
            if k >= len(seq):
                raise TypeError("not enough arguments for format string")
            v = seq[k]
            k += 1
        if not contains_sym(v):
            spec = "%" + (m.group("flags") or "") + (m.group("width") or "") + \
                (("." + m.group("prec")) if m.group("prec") else "") + conv
            out.extend(spec % (v,))
            continue
        w = int(m.group("width") or 0)
        fl = m.group("flags") or ""
        if conv == "s" and not m.group("prec"):
            s = chars(to_str(v))
        elif conv in "di" and type(v) is SymInt:
            s = chars(int_str(v))
        else:
            spec = "%" + fl + (m.group("width") or "") + \
                (("." + m.group("prec")) if m.group("prec") else "") + conv
            out.extend(spec % (deep_concrete(v),))
            continue
        if w > len(s):
            pad = w - len(s)
            if "-" in fl:
                s = s + [" "] * pad
            elif "0" in fl and conv in "di":
                s = ["0"] * pad + s
            else:
                s = [" "] * pad + s
        out.extend(s)
    out.extend(fmt[pos:])
    return mk(out)


def _fmt_sym(fmt, args):
    return fmt_percent(fmt.concrete(), args)


def fmt_value(v, conv, spec):
    """One f-string / str.format replacement field."""
    if conv in ("s", 115):
        v = to_str(v)
    elif conv in ("r", 114, "a", 97):
        v = repr(deep_concrete(v))
    if type(spec) is SymStr:
        spec = spec.concrete()
    if not contains_sym(v):
        return format(v, spec)
    if not spec:
        return to_str(v)
    if type(v) is SymInt:
        m = re.fullmatch(r"(0?)(\d*)d?", spec)
        if m:
            s = chars(int_str(v))
            w = int(m.group(2) or 0)
            return mk([("0" if m.group(1) else " ")] * (w - len(s)) + s)
    return format(concretize(v), spec)


def fmt_format(fmt, a, k):
    if type(fmt) is SymStr:
        fmt = fmt.concrete()
    if not any(contains_sym(x) for x in a) and not any(contains_sym(x) for x in k.values()):
        return fmt.format(*a, **k)
    f = _string.Formatter()
    out = []
    auto = 0
    for lit, name, spec, conv in f.parse(fmt):
        out.extend(lit)
        if name is None:
            continue
        if name == "":
            name = str(auto)
            auto += 1
        v, _ = f.get_field(name, a, k)
        out.extend(chars(fmt_value(v, conv, spec)))
    return mk(out)


def str_join(sep, items):
    items = list(items)
    if type(sep) is str and not any(is_sym(x) for x in items):
        return sep.join(items)
    out = []
    sc = chars(sep)
    for i, it in enumerate(items):
        if i:
            out.extend(sc)
        if not isinstance(it, str):
            raise TypeError("sequence item %d: expected str instance" % i)
        out.extend(chars(it))
    return mk(out)


# ------------------------------------------------------------------ re module
def re_escape(x):
    if type(x) is SymStr:
        out = []
        for c in x.cs:
            if type(c) is str:
                out.append(re.escape(c))
            else:
                out.append(pua_for(c))
        return "".join(out)
    return re.escape(x)


def _pat_str(p):
    if type(p) is SymStr:
        # symbolic characters outside re.escape: concretise
        return p.concrete()
    return p


def re_compile(p, flags=0):
    if isinstance(p, RePattern):
        return p
    return re.compile(_pat_str(p), flags)


def pat_method(pat, name, a, k):
    """Method of a compiled pattern."""
    sym = any(type(x) in SYMTYPES for x in a) or any(type(x) in SYMTYPES for x in k.values())
    if not sym and not (S.pua and has_pua(pat.pattern)):
        return getattr(pat, name)(*a, **k)
    return getattr(SymPattern(pat), name)(*a, **k)


def re_func(name, a, k):
    pat = a[0]
    rest = a[1:]
    k = dict(k)
    flags = k.pop("flags", 0)
    if name in ("match", "search", "fullmatch", "findall", "finditer"):
        if len(rest) > 1:
            flags = rest[1]
            rest = rest[:1]
    elif name in ("sub", "subn"):
        if len(rest) > 3:
            flags = rest[3]
            rest = rest[:3]
    elif name == "split":
        if len(rest) > 2:
            flags = rest[2]
            rest = rest[:2]
    p = re_compile(pat, flags)
    return pat_method(p, name, rest, k)


# ------------------------------------------------------------------ str methods
def str_method(obj, name, a, k):
    """Method of a native str called with symbolic arguments."""
    if name == "join":
        return str_join(obj, *a)
    if name == "format":
        return fmt_format(obj, a, k)
    w = SymStr(list(obj))
    return getattr(w, name)(*a, **k)


def contains(item, container):
    t = type(container)
    if type(item) is SymStr and len(item.cs) == 1 and t in (str, tuple, list, set, frozenset, dict) and \
            all(type(x) is str for x in container):
        # one decision for the whole container instead of one per element
        ones = frozenset(x for x in container if len(x) == 1)
        return ch_test(item.cs[0], ("in", ones), lambda x: x in ones)
    if t is str:
        if type(item) is SymStr:
            return SymStr(list(container)).__contains__(item)
        return item in container
    if t is SymStr:
        return item in container
    if type(item) is SymStr:
        if t in (dict, set, frozenset) or hasattr(container, "keys"):
            for key in list(container):
                if isinstance(key, str) and len(key) == len(item):
                    if item == key:
                        return True
            return False
    return item in container


def getitem(obj, idx):
    if type(obj) is dict and type(idx) is SymStr:
        for key in list(obj):
            if isinstance(key, str) and len(key) == len(idx):
                if idx == key:
                    return obj[key]
        raise KeyError(idx.concrete())
    return obj[idx]


def sym_unidecode(x):
    from unidecode import unidecode
    return x._map("unidecode", lambda c: unidecode(c))


def sym_ord(x):
    return ord(x.concrete())


def sym_unquote(s, *a, **k):
    """urllib.parse.unquote; bytes >= 0x80 fall back to the real function."""
    from urllib.parse import unquote
    if a or k or type(s) is not SymStr:
        return unquote(concretize(s), *a, **k)
    parts = s.split("%")
    out = parts[0]
    for p in parts[1:]:
        h = concretize(p[:2])
        if len(h) == 2 and all(c in "0123456789abcdefABCDEF" for c in h):
            v = int(h, 16)
            if v >= 128:
                return unquote(concretize(s))
            out = out + chr(v) + p[2:]
        else:
            out = out + "%" + p
    return out
