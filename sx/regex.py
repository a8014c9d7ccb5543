"""Backtracking regular-expression matcher over symbolic strings.

Patterns come from the real code; they are parsed by CPython's own `re._parser` and
every single-character atom is decided by CPython's own matcher (compiled from that
atom alone), so character semantics (IGNORECASE, classes, unicode) are CPython's.
The control structure (greedy/lazy/possessive repeats, alternation, groups,
look-around, anchors, conditionals) is executed here, forking on symbolic characters.
"""
import re
import re._compiler as _rc
import re._constants as C
import re._parser as _rp

from .core import S, Unsupported, fork_mask, tick
from .values import SymChar, SymStr, ch_eq, ch_single, chars, mk

MAXREP = int(C.MAXREPEAT)
PUA0, PUA1 = 0xE000, 0xF8FF
FLAGMASK = re.I | re.M | re.S | re.A | re.U


def pua_for(c):
    key = (c.var.name, id(c.fun))
    p = S.puamap.get(key)
    if p is None:
        p = chr(PUA0 + len(S.pua))
        S.pua.append(c)
        S.puamap[key] = p
    return p


def has_pua(s):
    if not S.pua:
        return False
    for c in s:
        if PUA0 <= ord(c) <= PUA1 and ord(c) - PUA0 < len(S.pua):
            return True
    return False


class Atom:
    """A single-character test."""
    _cache = {}
    __slots__ = ("native", "cache", "key", "pua", "icase")

    def __init__(self, native, key):
        self.native = native
        self.cache = {}
        self.key = key
        self.pua = None
        self.icase = False

    def c(self, ch):
        r = self.cache.get(ch)
        if r is None:
            r = self.cache[ch] = self.native.match(ch) is not None
        return r

    def test(self, x):
        if type(x) is str:
            r = self.cache.get(x)
            if r is None:
                r = self.c(x)
            return r
        return fork_mask(x.var, x.fun.mask(self.key, self.c))

    def possible(self, x):
        if type(x) is str:
            r = self.cache.get(x)
            return self.c(x) if r is None else r
        return bool(S.doms[x.var.name] & x.fun.mask(self.key, self.c))

    def three(self, x):
        """True / False / None (undetermined), without forking."""
        if type(x) is str:
            r = self.cache.get(x)
            return self.c(x) if r is None else r
        d = S.doms[x.var.name]
        m = d & x.fun.mask(self.key, self.c)
        if not m:
            return False
        return True if m == d else None


class PuaAtom:
    """Literal which is itself a symbolic character."""

    def __init__(self, p, icase):
        self.p = p
        self.icase = icase

    def c(self, ch):
        return self.test(ch)

    def test(self, x):
        y = S.pua[ord(self.p) - PUA0]
        y = ch_single(y) or y
        if self.icase:
            a = mk([x]).lower()
            b = mk([y]).lower()
            return bool(a == b) or bool(mk([x]).upper() == mk([y]).upper())
        return bool(ch_eq(x, y))

    def possible(self, x):
        return self.three(x) is not False

    def three(self, x):
        if self.icase:
            return None
        y = S.pua[ord(self.p) - PUA0]
        y = ch_single(y) or y
        e = ch_eq(x, y)
        return e if type(e) is bool else None


def atom(op, av, flags):
    fl = flags & FLAGMASK
    key = ("atom", op, repr(av), int(fl))
    a = Atom._cache.get(key)
    if a is None:
        st = _rp.State()
        st.flags = int(fl)
        st.str = ""
        sp = _rp.SubPattern(st, [(op, av)])
        a = Atom._cache[key] = Atom(_rc.compile(sp, int(fl)), key)
    return a


class St:
    __slots__ = ("cs", "n", "g", "loops", "pos0", "mm")


WORD = {}


def isword(ch, ascii_):
    k = (ch, ascii_)
    r = WORD.get(k)
    if r is None:
        r = WORD[k] = re.match(r"\w", ch, re.A if ascii_ else 0) is not None
    return r


def test_word(x, ascii_):
    if type(x) is str:
        return isword(x, ascii_)
    return fork_mask(x.var, x.fun.mask(("word", ascii_), lambda c: isword(c, ascii_)))


def word3(x, ascii_):
    if type(x) is str:
        return isword(x, ascii_)
    d = S.doms[x.var.name]
    m = d & x.fun.mask(("word", ascii_), lambda c: isword(c, ascii_))
    if not m:
        return False
    return True if m == d else None


def accept(st, i):
    return i


accept.may = lambda st, i: True


def with_may(f, m):
    """Attach an over-approximating, non-forking 'could match from i' test to node f.
    It is used only to skip forks that cannot lead to a match."""
    key = id(f)

    def may(st, i):
        k = (key, i)
        r = st.mm.get(k)
        if r is None:
            st.mm[k] = True       # in progress: over-approximate
            r = st.mm[k] = m(st, i)
        return r
    f.may = may
    return f


class Comp:
    def __init__(self, pattern, flags, puas):
        self.puas = puas
        self.tree = _rp.parse(pattern, int(flags) & ~int(re.DEBUG))
        self.flags = self.tree.state.flags
        self.ngroups = self.tree.state.groups
        self.groupindex = dict(self.tree.state.groupdict)
        self.nloops = 0
        self.fn = self.seq(self.tree, accept, self.flags)
        nullable, atoms = self.first(self.tree, self.flags)
        self.firstset = None if nullable or atoms is None else atoms

    # ---- first sets
    def first(self, sp, flags):
        """(nullable, list of atoms or None if unknown)"""
        acc = []
        for op, av in sp:
            n, a = self.first1(op, av, flags)
            if a is None:
                return n, None
            acc.extend(a)
            if not n:
                return False, acc
        return True, acc

    def first1(self, op, av, flags):
        if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
            return False, [self.mkatom(op, av, flags)]
        if op is C.SUBPATTERN:
            gid, add, rem, p = av
            return self.first(p, (flags | add) & ~rem)
        if op is C.ATOMIC_GROUP:
            return self.first(av, flags)
        if op is C.BRANCH:
            null, acc = False, []
            for p in av[1]:
                n, a = self.first(p, flags)
                if a is None:
                    return True, None
                null = null or n
                acc.extend(a)
            return null, acc
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            n, a = self.first(p, flags)
            if a is None:
                return True, None
            return n or lo == 0, a
        if op in (C.AT, C.ASSERT, C.ASSERT_NOT):
            return True, []
        return True, None

    # ---- compilation
    def mkatom(self, op, av, flags):
        if op is C.LITERAL and self.puas and PUA0 <= av <= PUA1:
            return PuaAtom(chr(av), bool(flags & re.I))
        return atom(op, av, flags)

    def seq(self, sp, nxt, flags):
        items = list(sp)
        f = nxt
        for op, av in reversed(items):
            f = self.node(op, av, f, flags)
        return f

    def single(self, p, flags):
        """Atom if sub-pattern is exactly one character test."""
        if len(p) == 1:
            op, av = p[0]
            if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
                return self.mkatom(op, av, flags)
            if op is C.SUBPATTERN and av[0] is None:
                return self.single(av[3], (flags | av[1]) & ~av[2])
        return None

    def node(self, op, av, nxt, flags):
        if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
            a = self.mkatom(op, av, flags)
            three, test, nmay = a.three, a.test, nxt.may

            def f(st, i):
                if i < st.n:
                    x = st.cs[i]
                    r = three(x)
                    if r is None:
                        r = nmay(st, i + 1) and test(x)
                    if r:
                        return nxt(st, i + 1)
                return None
            return with_may(f, lambda st, i: i < st.n and three(st.cs[i]) is not False
                            and nmay(st, i + 1))
        if op is C.SUBPATTERN:
            gid, add, rem, p = av
            fl = (flags | add) & ~rem
            if gid is None:
                return self.seq(p, nxt, fl)
            so, eo = 2 * gid, 2 * gid + 1
            lid = self.nloops
            self.nloops += 1

            def close(st, i):
                old = (st.g[so], st.g[eo])
                st.g[so] = st.loops[lid]
                st.g[eo] = i
                r = nxt(st, i)
                if r is None:
                    st.g[so], st.g[eo] = old
                return r
            close.may = nxt.may
            body = self.seq(p, close, fl)

            def f(st, i):
                old = st.loops[lid]
                st.loops[lid] = i
                r = body(st, i)
                if r is None:
                    st.loops[lid] = old
                return r
            # nested re-entry: the start position must be restored when the
            # continuation backtracks into an earlier iteration's body, which the
            # repeat node does by saving st.loops.
            f.may = body.may
            return f
        if op is C.BRANCH:
            alts = [self.seq(p, nxt, flags) for p in av[1]]

            def f(st, i):
                for a in alts:
                    lp = list(st.loops)
                    r = a(st, i)
                    if r is not None:
                        return r
                    st.loops[:] = lp
                return None
            return with_may(f, lambda st, i: any(a.may(st, i) for a in alts))
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            lo = int(lo)
            hi = int(hi)
            a = self.single(p, flags)
            if a is not None:
                test, three, nmay = a.test, a.three, nxt.may

                def later(st, j, lim, m):
                    """Could the continuation match after consuming at least cs[j]?"""
                    cs = st.cs
                    while j < lim and three(cs[j]) is not False:
                        j += 1
                        if j >= m and nmay(st, j):
                            return True
                    return False

                def may(st, i):
                    n = st.n
                    cs = st.cs
                    j = i
                    lim = n if hi == MAXREP else min(n, i + hi)
                    m = i + lo
                    while True:
                        if j >= m and nmay(st, j):
                            return True
                        if j >= lim or three(cs[j]) is False:
                            return False
                        j += 1
                if op is C.MAX_REPEAT:
                    def f(st, i):
                        n = st.n
                        cs = st.cs
                        j = i
                        m = i + lo
                        lim = n if hi == MAXREP else min(n, i + hi)
                        while j < lim:
                            x = cs[j]
                            r = three(x)
                            if r is None:
                                r = later(st, j, lim, m) and test(x)
                            if not r:
                                break
                            j += 1
                        while j >= m:
                            r = nxt(st, j)
                            if r is not None:
                                return r
                            j -= 1
                        return None
                    return with_may(f, may)
                if op is C.POSSESSIVE_REPEAT:
                    def f(st, i):
                        if not f.may(st, i):
                            return None
                        n = st.n
                        j = i
                        lim = n if hi == MAXREP else min(n, i + hi)
                        while j < lim and test(st.cs[j]):
                            j += 1
                        return nxt(st, j) if j >= i + lo else None
                    return with_may(f, may)

                def f(st, i):
                    n = st.n
                    cs = st.cs
                    j = i
                    m = i + lo
                    lim = n if hi == MAXREP else min(n, i + hi)
                    while True:
                        if j >= m:
                            r = nxt(st, j)
                            if r is not None:
                                return r
                        if j >= lim:
                            return None
                        x = cs[j]
                        r = three(x)
                        if r is None:
                            r = later(st, j, lim, m) and test(x)
                        if not r:
                            return None
                        j += 1
                return with_may(f, may)
            return self.repeat(op, lo, hi, p, nxt, flags)
        if op is C.AT:
            return self.at(av, nxt, flags)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            body = self.seq(p, accept, flags)
            pos = op is C.ASSERT
            if direction < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Unsupported("variable look-behind")

                def start(i):
                    return i - lo
            else:
                def start(i):
                    return i

            def f(st, i):
                s = start(i)
                r = None
                if s >= 0:
                    sg = list(st.g)
                    sl = list(st.loops)
                    r = body(st, s)
                    if r is None or not pos:
                        st.g[:] = sg
                        st.loops[:] = sl
                    if pos and r is not None:
                        r2 = nxt(st, i)
                        if r2 is None:
                            st.g[:] = sg
                            st.loops[:] = sl
                        return r2
                if pos:
                    return None
                if r is not None:
                    return None
                return nxt(st, i)
            if pos:
                def may(st, i):
                    b = start(i)
                    return b >= 0 and body.may(st, b) and nxt.may(st, i)
            else:
                must = self.must(p, flags)

                def may(st, i):
                    b = start(i)
                    if b >= 0 and must is not None and must(st, b):
                        return False
                    return nxt.may(st, i)
            plain = f

            def f(st, i):
                # skip the (possibly forking) look-around when nothing can follow
                if not nxt.may(st, i):
                    return None
                return plain(st, i)
            return with_may(f, may)
        if op is C.ATOMIC_GROUP:
            body = self.seq(av, accept, flags)

            def f(st, i):
                sg = list(st.g)
                r = body(st, i)
                if r is None:
                    st.g[:] = sg
                    return None
                r2 = nxt(st, r)
                if r2 is None:
                    st.g[:] = sg
                return r2
            loose = self.seq(av, nxt, flags)
            return with_may(f, lambda st, i: loose.may(st, i))
        if op is C.GROUPREF:
            gid = av
            ic = bool(flags & re.I)

            def f(st, i):
                s, e = st.g[2 * gid], st.g[2 * gid + 1]
                if s is None:
                    return None
                ln = e - s
                if i + ln > st.n:
                    return None
                for k in range(ln):
                    x, y = st.cs[s + k], st.cs[i + k]
                    if ic:
                        if not (mk([x]).lower() == mk([y]).lower()):
                            return None
                    elif not ch_eq(x, y):
                        return None
                return nxt(st, i + ln)
            return with_may(f, lambda st, i: any(nxt.may(st, j) for j in range(i, st.n + 1)))
        if op is C.GROUPREF_EXISTS:
            gid, yes, no = av
            fy = self.seq(yes, nxt, flags)
            fn = self.seq(no, nxt, flags) if no else nxt

            def f(st, i):
                return (fy if st.g[2 * gid] is not None else fn)(st, i)
            return with_may(f, lambda st, i: fy.may(st, i) or fn.may(st, i))
        if op is C.FAILURE:
            def f(st, i):
                return None
            f.may = lambda st, i: False
            return f
        raise Unsupported("regex op %s" % op)

    def repeat(self, op, lo, hi, p, nxt, flags):
        lid = self.nloops
        self.nloops += 1
        greedy = op is C.MAX_REPEAT
        if op is C.POSSESSIVE_REPEAT:
            body1 = self.seq(p, accept, flags)

            def f(st, i):
                n = 0
                j = i
                while n < hi:
                    r = body1(st, j)
                    if r is None or (r == j and n >= lo):
                        break
                    j = r
                    n += 1
                return nxt(st, j) if n >= lo else None
            loose = self.repeat(C.MAX_REPEAT, lo, hi, p, nxt, flags)
            return with_may(f, lambda st, i: loose.may(st, i))
        if hi == 1 and lo == 0:
            body0 = self.seq(p, nxt, flags)
            # "(...)?": an empty body match is allowed once by CPython too
            if greedy:
                def f(st, i):
                    sg = list(st.g)
                    sl = list(st.loops)
                    r = body0(st, i)
                    if r is not None:
                        return r
                    st.g[:] = sg
                    st.loops[:] = sl
                    return nxt(st, i)
            else:
                def f(st, i):
                    r = nxt(st, i)
                    if r is not None:
                        return r
                    return body0(st, i)
            return with_may(f, lambda st, i: nxt.may(st, i) or body0.may(st, i))

        def again(st, i):
            tick()
            count, last = st.loops[lid]
            if count < lo:
                st.loops[lid] = (count + 1, i)
                r = body(st, i)
                if r is None:
                    st.loops[lid] = (count, last)
                return r
            if greedy:
                if count < hi and i != last:
                    sg = list(st.g)
                    sl = list(st.loops)
                    st.loops[lid] = (count + 1, i)
                    r = body(st, i)
                    if r is not None:
                        return r
                    st.g[:] = sg
                    st.loops[:] = sl
                saved = st.loops[lid]
                r = nxt(st, i)
                if r is None:
                    st.loops[lid] = saved
                return r
            saved = st.loops[lid]
            r = nxt(st, i)
            if r is not None:
                return r
            st.loops[lid] = saved
            if count < hi and i != last:
                sg = list(st.g)
                st.loops[lid] = (count + 1, i)
                r = body(st, i)
                if r is None:
                    st.loops[lid] = (count, last)
                    st.g[:] = sg
                return r
            return None

        with_may(again, lambda st, i: nxt.may(st, i) or body.may(st, i))
        body = self.seq(p, again, flags)

        def f(st, i):
            old = st.loops[lid]
            st.loops[lid] = (0, -1)
            r = again(st, i)
            st.loops[lid] = old
            return r
        if lo == 0:
            f.may = again.may
        else:
            f.may = body.may
        return f

    def must(self, p, flags):
        """Non-forking test that p certainly matches at i (sequences of single
        characters and branches of those); None when p has another shape."""
        items = []
        for op, av in p:
            if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
                items.append(self.mkatom(op, av, flags).three)
            elif op is C.SUBPATTERN and len(p) == 1:
                return self.must(av[3], (flags | av[1]) & ~av[2])
            elif op is C.BRANCH and len(p) == 1:
                ms = [m for m in (self.must(q, flags) for q in av[1]) if m]
                return lambda st, i: any(m(st, i) for m in ms)
            else:
                return None

        def f(st, i):
            if i + len(items) > st.n:
                return False
            for k, t in enumerate(items):
                if t(st.cs[i + k]) is not True:
                    return False
            return True
        return f

    def at(self, av, nxt, flags):
        asc = bool(flags & re.A)
        nmay = nxt.may

        def nl(x):
            e = ch_eq(x, "\n")
            return e if type(e) is bool else None
        if av is C.AT_BEGINNING_STRING or (av is C.AT_BEGINNING and not flags & re.M):
            def f(st, i):
                return nxt(st, i) if i == 0 else None
            f.may = lambda st, i: i == 0 and nmay(st, i)
            return f
        if av is C.AT_BEGINNING:
            def f(st, i):
                if nmay(st, i) and (i == 0 or ch_eq(st.cs[i - 1], "\n")):
                    return nxt(st, i)
                return None
            f.may = lambda st, i: (i == 0 or nl(st.cs[i - 1]) is not False) and nmay(st, i)
            return f
        if av is C.AT_END_STRING:
            def f(st, i):
                return nxt(st, i) if i == st.n else None
            f.may = lambda st, i: i == st.n and nmay(st, i)
            return f
        if av is C.AT_END:
            ml = bool(flags & re.M)

            def f(st, i):
                if i == st.n:
                    return nxt(st, i)
                if (i == st.n - 1 or ml) and nmay(st, i) and ch_eq(st.cs[i], "\n"):
                    return nxt(st, i)
                return None
            f.may = lambda st, i: (i == st.n or ((i == st.n - 1 or ml)
                                                 and nl(st.cs[i]) is not False)) and nmay(st, i)
            return f
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            want = av is C.AT_BOUNDARY

            def f(st, i):
                if st.n == 0:
                    # CPython: \\b never matches in an empty string
                    # (and \\B does not either before 3.14)
                    return None
                if not f.may(st, i):
                    return None
                a = i > 0 and test_word(st.cs[i - 1], asc)
                b = i < st.n and test_word(st.cs[i], asc)
                if (a != b) == want:
                    return nxt(st, i)
                return None

            def may(st, i):
                if st.n == 0:
                    return False
                a = word3(st.cs[i - 1], asc) if i > 0 else False
                b = word3(st.cs[i], asc) if i < st.n else False
                if a is not None and b is not None and (a != b) != want:
                    return False
                return nmay(st, i)
            return with_may(f, may)
        raise Unsupported("regex at %s" % av)

    def run(self, cs, i, n, mm=None):
        st = St()
        st.cs = cs
        st.n = n
        st.mm = {} if mm is None else mm
        st.g = [None] * (2 * self.ngroups + 2)
        st.loops = [None] * self.nloops
        e = self.fn(st, i)
        if e is None:
            return None
        st.g[0] = i
        st.g[1] = e
        return st.g

    def may_start(self, cs, i, n):
        fs = self.firstset
        if fs is None:
            return True
        if i >= n:
            return False
        x = cs[i]
        for a in fs:
            if a.possible(x):
                return True
        return False


class SymMatch:
    def __init__(self, pat, string, cs, g, comp, pos, endpos):
        self.re = pat
        self.string = string
        self._cs = cs
        self._g = g
        self._c = comp
        self.pos = pos
        self.endpos = endpos

    def _id(self, k):
        if isinstance(k, str):
            try:
                return self._c.groupindex[k]
            except KeyError:
                raise IndexError("no such group")
        if k < 0 or k >= self._c.ngroups:
            raise IndexError("no such group")
        return k

    def _get(self, k, default=None):
        k = self._id(k)
        s, e = self._g[2 * k], self._g[2 * k + 1]
        if s is None:
            return default
        return mk(self._cs[s:e])

    def group(self, *ks):
        if not ks:
            return self._get(0)
        if len(ks) == 1:
            return self._get(ks[0])
        return tuple(self._get(k) for k in ks)

    def __getitem__(self, k):
        return self._get(k)

    def groups(self, default=None):
        return tuple(self._get(k, default) for k in range(1, self._c.ngroups))

    def groupdict(self, default=None):
        return {k: self._get(k, default) for k in self._c.groupindex}

    def start(self, k=0):
        k = self._id(k)
        s = self._g[2 * k]
        return -1 if s is None else s

    def end(self, k=0):
        k = self._id(k)
        s = self._g[2 * k + 1]
        return -1 if s is None else s

    def span(self, k=0):
        return self.start(k), self.end(k)

    @property
    def lastindex(self):
        best = None
        for k in range(1, self._c.ngroups):
            e = self._g[2 * k + 1]
            # the group closed last; an enclosing group closes after its inner ones
            if e is not None and (best is None or e > self._g[2 * best + 1] or
                                  (e == self._g[2 * best + 1]
                                   and self._g[2 * k] >= e)):
                best = k
        return best

    @property
    def lastgroup(self):
        k = self.lastindex
        for name, index in self._c.groupindex.items():
            if index == k:
                return name
        return None

    def expand(self, template):
        return mk(expand(self, template))

    def __bool__(self):
        return True


_comp = {}


def comp_for(pattern, flags):
    key = (pattern, int(flags))
    c = _comp.get(key)
    if c is None:
        c = _comp[key] = Comp(pattern, flags, any(PUA0 <= ord(x) <= PUA1 for x in pattern))
    return c


def expand(m, template):
    if type(template) is SymStr:
        template = template.concrete()
    tpl = _rp.parse_template(template, _TplPat(m._c))
    out = []
    if isinstance(tpl, tuple):  # pragma: no cover - older formats
        raise Unsupported("template")
    for k, part in enumerate(tpl):
        if isinstance(part, int):
            v = m._get(part)
            if v is not None:
                out.extend(chars(v))
        else:
            out.extend(part)
    return out


class _TplPat:
    def __init__(self, c):
        self.groups = c.ngroups - 1
        self.groupindex = c.groupindex


class SymPattern:
    """Operations of a compiled pattern on a symbolic string."""

    def __init__(self, pat):
        self.pat = pat
        self.c = comp_for(pat.pattern, pat.flags)

    def _bounds(self, s, pos, endpos):
        n = len(s)
        endpos = n if endpos is None else max(0, min(n, endpos))
        return max(0, min(pos or 0, n)), endpos

    def _m(self, s, cs, g, pos, endpos):
        return SymMatch(self.pat, s, cs, g, self.c, pos, endpos)

    def match(self, s, pos=0, endpos=None):
        S.stats.regex_ops += 1
        pos, n = self._bounds(s, pos, endpos)
        cs = chars(s)
        if not self.c.may_start(cs, pos, n):
            return None
        g = self.c.run(cs, pos, n)
        return None if g is None else self._m(s, cs, g, pos, n)

    def fullmatch(self, s, pos=0, endpos=None):
        pos, n = self._bounds(s, pos, endpos)
        c = comp_for("(?:%s)\\Z" % self.pat.pattern if not self.pat.flags & re.X
                     else "(?:%s\n)\\Z" % self.pat.pattern, self.pat.flags)
        cs = chars(s)
        g = c.run(cs, pos, n)
        return None if g is None else SymMatch(self.pat, s, cs, g, c, pos, n)

    def _search(self, s, cs, pos, n):
        S.stats.regex_ops += 1
        c = self.c
        mm = {}
        for i in range(pos, n + 1):
            if not c.may_start(cs, i, n):
                continue
            g = c.run(cs, i, n, mm)
            if g is not None:
                return g
        return None

    def search(self, s, pos=0, endpos=None):
        pos, n = self._bounds(s, pos, endpos)
        cs = chars(s)
        g = self._search(s, cs, pos, n)
        return None if g is None else self._m(s, cs, g, pos, n)

    def finditer(self, s, pos=0, endpos=None):
        pos, n = self._bounds(s, pos, endpos)
        cs = chars(s)
        p = pos
        mm = {}
        last_empty_at = None
        while p <= n:
            g = None
            for i in range(p, n + 1):
                if not self.c.may_start(cs, i, n):
                    continue
                g = self.c.run(cs, i, n, mm)
                if g is not None:
                    if g[1] == g[0] and last_empty_at == g[0]:
                        g = self.nonempty(cs, i, n)
                        if g is None:
                            continue
                    break
            if g is None:
                return
            yield self._m(s, cs, g, pos, n)
            p = g[1]
            last_empty_at = g[1] if g[1] == g[0] else None

    def nonempty(self, cs, i, n):
        """Match at i that is not empty (CPython's must-advance)."""
        c = self.c
        key = ("ne",)
        fn = getattr(c, "fn_ne", None)
        if fn is None:
            base = c.nloops

            def acc(st, j):
                return None if j == st.pos0 else j
            acc.may = lambda st, j: True
            fn = c.seq(c.tree, acc, c.flags)
            c.fn_ne = fn
        st = St()
        st.cs = cs
        st.n = n
        st.pos0 = i
        st.mm = {}
        st.g = [None] * (2 * c.ngroups + 2)
        st.loops = [None] * c.nloops
        e = fn(st, i)
        if e is None:
            return None
        st.g[0] = i
        st.g[1] = e
        return st.g

    def findall(self, s, pos=0, endpos=None):
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.c.ngroups == 1:
                out.append(m.group(0))
            elif self.c.ngroups == 2:
                out.append(m._get(1, ""))
            else:
                out.append(m.groups(""))
        return out

    def subn(self, repl, s, count=0):
        cs = chars(s)
        out = []
        p = 0
        k = 0
        for m in self.finditer(s):
            if count and k >= count:
                break
            out.extend(cs[p:m.start()])
            if callable(repl):
                out.extend(chars(repl(m)))
            else:
                if type(repl) is SymStr:
                    repl = repl.concrete()
                if "\\" in repl:
                    out.extend(expand(m, repl))
                else:
                    out.extend(repl)
            p = m.end()
            k += 1
        out.extend(cs[p:])
        return mk(out), k

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        cs = chars(s)
        out = []
        p = 0
        k = 0
        for m in self.finditer(s):
            if maxsplit and k >= maxsplit:
                break
            out.append(mk(cs[p:m.start()]))
            out.extend(m.groups())
            p = m.end()
            k += 1
        out.append(mk(cs[p:]))
        return out
