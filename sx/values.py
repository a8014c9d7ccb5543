"""Symbolic strings: fixed length per path, each position a concrete character or
a function (table) of a finite-domain variable."""
import string as _string

from .core import (S, Domain, SymBool, SymInt, Unsupported, conj, disj, fork_mask,
                   mask_bool, neg, new_var, pick_value, choose, PathAbort)
import z3
from .core import z3var, mask_to_z3


class CharFun:
    """A total function from a Domain to 1-character strings."""
    _all = {}

    def __init__(self, dom, outs):
        self.dom = dom
        self.outs = outs
        self.eqm = {}
        for i, c in enumerate(outs):
            self.eqm[c] = self.eqm.get(c, 0) | (1 << i)
        self.preds = {}
        self.maps = {}

    @classmethod
    def of(cls, dom, outs):
        key = (id(dom), outs)
        f = cls._all.get(key)
        if f is None:
            f = cls._all[key] = CharFun(dom, outs)
        return f

    def mask(self, key, pred):
        m = self.preds.get(key)
        if m is None:
            m = 0
            for c, mm in self.eqm.items():
                if pred(c):
                    m |= mm
            self.preds[key] = m
        return m

    def map(self, key, fn):
        """[(mask, CharFun-tuple)] grouped by output length."""
        r = self.maps.get(key)
        if r is None:
            outs = [fn(c) for c in self.outs]
            bylen = {}
            for i, o in enumerate(outs):
                bylen.setdefault(len(o), 0)
                bylen[len(o)] |= 1 << i
            r = []
            for ln, m in sorted(bylen.items(), key=lambda t: -bin(t[1]).count("1")):
                funs = []
                for p in range(ln):
                    funs.append(CharFun.of(self.dom, tuple(
                        o[p] if len(o) == ln else "\x00" for o in outs)))
                r.append((m, funs))
            self.maps[key] = r
        return r


def identity(dom):
    if dom.ident is None:
        dom.ident = CharFun.of(dom, tuple(dom.values))
    return dom.ident


class SymChar:
    __slots__ = ("var", "fun")

    def __init__(self, var, fun):
        self.var = var
        self.fun = fun


def ch_single(c):
    """Concrete char if the symbolic char is determined, else None."""
    d = S.doms[c.var.name]
    if d & (d - 1) == 0:
        return c.fun.outs[d.bit_length() - 1]
    # all remaining values map to the same output?
    f = c.fun
    o = f.outs[d.bit_length() - 1]
    if d & ~f.eqm[o] == 0:
        return o
    return None


def mk(cs):
    """Build the simplest string value from a list of chars."""
    sym = False
    out = cs
    for i, c in enumerate(cs):
        if type(c) is not str:
            s = ch_single(c)
            if s is None:
                sym = True
            else:
                if out is cs:
                    out = list(cs)
                out[i] = s
    if sym:
        return SymStr(out if type(out) is list else list(out))
    return "".join(out)


def chars(x):
    if type(x) is SymStr:
        return x.cs
    return list(x)


def ch_eq(a, b):
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    if type(b) is str:
        return mask_bool(a.var, a.fun.eqm.get(b, 0))
    if a.var is b.var:
        if a.fun is b.fun:
            return True
        m = 0
        for i, (x, y) in enumerate(zip(a.fun.outs, b.fun.outs)):
            if x == y:
                m |= 1 << i
        return mask_bool(a.var, m)
    parts = []
    da, db = S.doms[a.var.name], S.doms[b.var.name]
    for c, ma in a.fun.eqm.items():
        mb = b.fun.eqm.get(c, 0)
        if ma & da and mb & db:
            parts.append(z3.And(mask_to_z3(a.var.name, a.var.dom, ma & da),
                                mask_to_z3(b.var.name, b.var.dom, mb & db)))
    if not parts:
        return False
    return SymBool("z", z3.Or(*parts))


def ch_pred(c, key, pred):
    if type(c) is str:
        return bool(pred(c))
    return mask_bool(c.var, c.fun.mask(key, pred))


def ch_test(c, key, pred):
    """Forking predicate test."""
    if type(c) is str:
        return bool(pred(c))
    return fork_mask(c.var, c.fun.mask(key, pred))


def ch_map(c, key, fn):
    """Apply a char->string function; returns list of chars (may fork on length)."""
    if type(c) is str:
        return list(fn(c))
    groups = c.fun.map(key, fn)
    if len(groups) == 1:
        return [SymChar(c.var, f) for f in groups[0][1]]
    for m, funs in groups[:-1]:
        if fork_mask(c.var, m):
            return [SymChar(c.var, f) for f in funs]
    return [SymChar(c.var, f) for f in groups[-1][1]]


def concretize(x):
    if type(x) is SymStr:
        return x.concrete()
    if type(x) is SymInt:
        return x.concrete()
    if type(x) is SymBool:
        return bool(x)
    return x


def is_sym(x):
    return type(x) in SYMTYPES


def str_eq(a, b):
    ca, cb = chars(a), chars(b)
    if len(ca) != len(cb):
        return False
    parts = []
    for x, y in zip(ca, cb):
        if type(x) is str and type(y) is str:
            if x != y:
                return False
            continue
        e = ch_eq(x, y)
        if e is False:
            return False
        if e is not True:
            parts.append(e)
    return conj(parts)


class SymStr:
    __slots__ = ("cs", "tag")
    _sx_ = True

    def __init__(self, cs):
        self.cs = cs
        self.tag = None

    @property
    def __class__(self):
        return str

    # -- basics
    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __len__(self):
        return len(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield mk([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self.cs[i])
        return mk([self.cs[i]])

    def __add__(self, o):
        t = type(o)
        if t is SymStr:
            return mk(self.cs + o.cs)
        if t is str:
            return mk(self.cs + list(o))
        return NotImplemented

    def __radd__(self, o):
        if type(o) is str:
            return mk(list(o) + self.cs)
        return NotImplemented

    def __mul__(self, n):
        return mk(self.cs * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        if type(o) is str or type(o) is SymStr:
            return str_eq(self, o)
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        return hash(self.concrete())

    def _lt(self, o, strict):
        a, b = self.concrete(), concretize(o)
        return a < b if strict else a <= b

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        return not self._lt(o, False)

    def __ge__(self, o):
        return not self._lt(o, True)

    def __bool__(self):
        return len(self.cs) > 0

    def concrete(self):
        out = []
        for c in self.cs:
            if type(c) is str:
                out.append(c)
            else:
                s = ch_single(c)
                if s is None:
                    # fork over the distinct outputs
                    d = S.doms[c.var.name]
                    groups = [(o, m & d) for o, m in c.fun.eqm.items() if m & d]
                    for o, m in groups[:-1]:
                        if fork_mask(c.var, m):
                            s = o
                            break
                    else:
                        s = groups[-1][0]
                out.append(s)
        return "".join(out)

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return "SymStr(%s)" % "".join(
            c if type(c) is str else "{%s}" % c.var.name for c in self.cs)

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __contains__(self, sub):
        return self.find(sub) != -1

    def __mod__(self, args):
        from .ops import fmt_percent
        return fmt_percent(self, args)

    # -- search
    def _at(self, sub, i):
        """Does sub occur at i (forking)?"""
        cs = self.cs
        for k, c in enumerate(sub):
            x = cs[i + k]
            if type(x) is str and type(c) is str:
                if x != c:
                    return False
        for k, c in enumerate(sub):
            x = cs[i + k]
            if type(x) is str and type(c) is str:
                continue
            if not ch_eq(x, c):
                return False
        return True

    def _range(self, start, end):
        n = len(self.cs)
        start, end, _ = slice(start, end).indices(n)
        return start, end

    def find(self, sub, start=None, end=None):
        sub = chars(sub)
        n = len(self.cs)
        if start is not None and start > n:
            return -1
        start, end = self._range(start, end)
        for i in range(start, end - len(sub) + 1):
            if self._at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = chars(sub)
        start, end = self._range(start, end)
        for i in range(end - len(sub), start - 1, -1):
            if self._at(sub, i):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        start, end = self._range(start, end)
        sub = chars(sub)
        if not sub:
            return end - start + 1
        n = 0
        i = start
        while i + len(sub) <= end:
            if self._at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return disj([self.startswith(x, start, end) for x in p])
        start, end = self._range(start, end)
        p = chars(p)
        if start + len(p) > end:
            return False
        return conj([ch_eq(a, b) for a, b in zip(self.cs[start:], p)])

    def endswith(self, p, start=None, end=None):
        if type(p) is tuple:
            return disj([self.endswith(x, start, end) for x in p])
        start, end = self._range(start, end)
        p = chars(p)
        if end - len(p) < start:
            return False
        return conj([ch_eq(a, b) for a, b in zip(self.cs[end - len(p):end], p)])

    def replace(self, old, new, count=-1):
        old = chars(old)
        new = chars(new)
        if not old:
            return self.concrete().replace("", mk(new), count)
        out = []
        i = 0
        n = len(self.cs)
        done = 0
        while i < n:
            if (count < 0 or done < count) and i + len(old) <= n and self._at(old, i):
                out.extend(new)
                i += len(old)
                done += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mk(out)

    def _instrip(self, c, st):
        if st is None:
            return ch_test(c, "isspace", str.isspace)
        if type(st) is str:
            return ch_test(c, ("in", st), lambda x, st=st: x in st)
        return any(bool(ch_eq(c, y)) for y in st.cs)

    def lstrip(self, st=None):
        i = 0
        cs = self.cs
        while i < len(cs) and self._instrip(cs[i], st):
            i += 1
        return mk(cs[i:])

    def rstrip(self, st=None):
        cs = self.cs
        j = len(cs)
        while j > 0 and self._instrip(cs[j - 1], st):
            j -= 1
        return mk(cs[:j])

    def strip(self, st=None):
        r = self.lstrip(st)
        return r.rstrip(st)

    def split(self, sep=None, maxsplit=-1):
        cs = self.cs
        out = []
        if sep is None:
            i = 0
            n = len(cs)
            while True:
                while i < n and ch_test(cs[i], "isspace", str.isspace):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and ch_test(cs[j - 1], "isspace", str.isspace):
                        j -= 1
                    out.append(mk(cs[i:j]))
                    return out
                j = i
                while j < n and not ch_test(cs[j], "isspace", str.isspace):
                    j += 1
                out.append(mk(cs[i:j]))
                i = j
            return out
        sep = chars(sep)
        if not sep:
            raise ValueError("empty separator")
        cur = 0
        i = 0
        while i + len(sep) <= len(cs):
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(sep, i):
                out.append(mk(cs[cur:i]))
                i += len(sep)
                cur = i
            else:
                i += 1
        out.append(mk(cs[cur:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.concrete().rsplit(None, maxsplit)
        sep = chars(sep)
        cs = self.cs
        out = []
        end = len(cs)
        i = end - len(sep)
        while i >= 0:
            if (maxsplit < 0 or len(out) < maxsplit) and self._at(sep, i):
                out.append(mk(cs[i + len(sep):end]))
                end = i
                i -= len(sep)
            else:
                i -= 1
        out.append(mk(cs[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return mk(self.cs), "", ""
        return mk(self.cs[:i]), sep, mk(self.cs[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", mk(self.cs)
        return mk(self.cs[:i]), sep, mk(self.cs[i + len(sep):])

    def splitlines(self, keepends=False):
        def isnl(c):
            return ch_test(c, "isnl", lambda x: len(("a" + x + "b").splitlines()) > 1)
        out = []
        cs = self.cs
        i = cur = 0
        while i < len(cs):
            if isnl(cs[i]):
                j = i + 1
                if bool(ch_eq(cs[i], "\r")) and j < len(cs) and bool(ch_eq(cs[j], "\n")):
                    j += 1
                out.append(mk(cs[cur:j if keepends else i]))
                i = cur = j
            else:
                i += 1
        if cur < len(cs):
            out.append(mk(cs[cur:]))
        return out

    def removeprefix(self, p):
        if self.startswith(p):
            return mk(self.cs[len(p):])
        return self

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return mk(self.cs[:-len(p)])
        return self

    # -- maps
    def _map(self, key, fn):
        out = []
        for c in self.cs:
            out.extend(ch_map(c, key, fn))
        return mk(out)

    def upper(self):
        return self._map("upper", str.upper)

    def lower(self):
        return self._map("lower", str.lower)

    def casefold(self):
        return self._map("casefold", str.casefold)

    def swapcase(self):
        return self._map("swapcase", str.swapcase)

    def capitalize(self):
        out = []
        for k, c in enumerate(self.cs):
            out.extend(ch_map(c, "lower", str.lower) if k else ch_map(c, "title", str.title))
        return mk(out)

    def title(self):
        out = []
        cased = False
        for c in self.cs:
            out.extend(ch_map(c, "lower", str.lower) if cased else ch_map(c, "title", str.title))
            cased = ch_test(c, "cased", lambda x: x.upper() != x.lower())
        return mk(out)

    def translate(self, table):
        if isinstance(table, dict):
            key = tuple(sorted((k, repr(v)) for k, v in table.items()))
        else:
            key = id(table)
        return self._map(("tr", key), lambda c: c.translate(table))

    # -- predicates
    def _all(self, key, pred):
        if not self.cs:
            return False
        return conj([ch_pred(c, key, pred) for c in self.cs])

    def isspace(self):
        return self._all("isspace", str.isspace)

    def isdigit(self):
        return self._all("isdigit", str.isdigit)

    def isdecimal(self):
        return self._all("isdecimal", str.isdecimal)

    def isnumeric(self):
        return self._all("isnumeric", str.isnumeric)

    def isalpha(self):
        return self._all("isalpha", str.isalpha)

    def isalnum(self):
        return self._all("isalnum", str.isalnum)

    def isascii(self):
        return self._all("isascii", str.isascii)

    def isprintable(self):
        return self._all("isprintable", str.isprintable)

    def isupper(self):
        return self._cased("isupper", str.isupper, str.islower)

    def islower(self):
        return self._cased("islower", str.islower, str.isupper)

    def _cased(self, key, pred, opp):
        anyc = disj([ch_pred(c, key, pred) for c in self.cs])
        none = conj([neg(ch_pred(c, "not" + key, lambda x: opp(x) or x.istitle() and not x.isupper())) for c in self.cs])
        return conj([anyc, none])

    def join(self, items):
        from .ops import str_join
        return str_join(self, items)

    def format(self, *a, **k):
        from .ops import fmt_format
        return fmt_format(self, a, k)

    def zfill(self, w):
        cs = self.cs
        if len(cs) >= w:
            return self
        if cs and ch_test(cs[0], "sign", lambda x: x in "+-"):
            return mk([cs[0]] + ["0"] * (w - len(cs)) + cs[1:])
        return mk(["0"] * (w - len(cs)) + cs)

    def ljust(self, w, f=" "):
        return mk(self.cs + [f] * max(0, w - len(self.cs)))

    def rjust(self, w, f=" "):
        return mk([f] * max(0, w - len(self.cs)) + self.cs)

    def encode(self, *a):
        return self.concrete().encode(*a)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(str, name):
            raise AttributeError("'str' object has no attribute %r" % name)

        def fallback(*a, **k):
            return getattr(self.concrete(), name)(*[concretize(x) for x in a], **k)
        return fallback


SYMTYPES = (SymStr, SymInt, SymBool)


# ------------------------------------------------------------ evaluation
def evaluate(x, model):
    """Value of x (deep) under a model {var name: index or int}."""
    t = type(x)
    if t is SymStr:
        return "".join(c if type(c) is str else c.fun.outs[model[c.var.name]]
                       for c in x.cs)
    if t is SymInt:
        return _zeval(x.e, model)
    if t is SymBool:
        return bool(_zeval(x.z3(), model))
    if t is str or t is int or x is None or t is bool or t is float or t is bytes:
        return x
    if isinstance(x, dict):
        return {evaluate(k, model): evaluate(v, model) for k, v in x.items()}
    if isinstance(x, list):
        return [evaluate(v, model) for v in x]
    if isinstance(x, tuple):
        return tuple(evaluate(v, model) for v in x)
    if isinstance(x, (set, frozenset)):
        return {evaluate(v, model) for v in x}
    return x


def _zeval(e, model):
    subs = []
    for n, v in S.vars.items():
        subs.append((z3var(n, v.dom), z3.BitVecVal(model[n], v.dom.bits + 1)))
    for n, (ze, lo, hi) in S.zvars.items():
        subs.append((ze, z3.IntVal(model[n])))
    r = z3.simplify(z3.substitute(e, *subs)) if subs else z3.simplify(e)
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    return r.as_long()


def contains_sym(x, depth=3):
    t = type(x)
    if t in SYMTYPES:
        return True
    if depth and (t is list or t is tuple or t is set):
        return any(contains_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(contains_sym(y, depth - 1) for y in x.values())
    return False


def deep_concrete(x):
    t = type(x)
    if t in SYMTYPES:
        return concretize(x)
    if t is list:
        return [deep_concrete(y) for y in x]
    if t is tuple:
        return tuple(deep_concrete(y) for y in x)
    if t is dict:
        return {k: deep_concrete(v) for k, v in x.items()}
    return x
