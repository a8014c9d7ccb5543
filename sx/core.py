"""Symbolic-execution core: variables, symbolic booleans, path exploration, solver.

Inputs of a harness are *variables* over finite, explicitly listed domains
(characters of an alphabet, small integers, enum choices) or unbounded z3 integers.
A path is one run of the (instrumented) real code; every decision that depends on
a symbolic value is a recorded fork.  Unary constraints over a finite-domain
variable are kept as exact bit masks; all others are z3 expressions.
"""
import operator
import sys
import time

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

z3.set_param("memory_max_size", 6000)


class PathAbort(BaseException):
    """This path is infeasible (or excluded by an assumption)."""


class Unsupported(BaseException):
    """The engine met something it cannot represent on this path."""


class Deadline(BaseException):
    pass


class Domain:
    """A finite ordered domain of python values (usually 1-char strings)."""
    _cache = {}

    def __init__(self, values):
        self.values = tuple(values)
        self.n = len(self.values)
        self.full = (1 << self.n) - 1
        self.index = {}
        for i, v in enumerate(self.values):
            self.index.setdefault(v, i)
        self.bits = max(1, (self.n - 1).bit_length())
        self.ident = None  # CharFun identity
        self._ranges = {}

    @classmethod
    def of(cls, values):
        key = tuple(values)
        d = cls._cache.get(key)
        if d is None:
            d = cls._cache[key] = Domain(key)
        return d

    def ranges(self, mask):
        r = self._ranges.get(mask)
        if r is None:
            r = []
            i = 0
            n = self.n
            while i < n:
                if mask >> i & 1:
                    j = i
                    while j + 1 < n and mask >> (j + 1) & 1:
                        j += 1
                    r.append((i, j))
                    i = j + 1
                else:
                    i += 1
            self._ranges[mask] = r
        return r


_z3vars = {}


def z3var(name, dom):
    key = (name, dom.bits)
    v = _z3vars.get(key)
    if v is None:
        v = _z3vars[key] = z3.BitVec(name, dom.bits + 1)
    return v


_z3mask = {}


def mask_to_z3(name, dom, mask):
    if mask == 0:
        return z3.BoolVal(False)
    key = (name, id(dom), mask)
    e = _z3mask.get(key)
    if e is None:
        v = z3var(name, dom)
        parts = []
        for a, b in dom.ranges(mask):
            if a == b:
                parts.append(v == a)
            elif a == 0:
                parts.append(z3.ULE(v, b))
            else:
                parts.append(z3.And(z3.UGE(v, a), z3.ULE(v, b)))
        e = parts[0] if len(parts) == 1 else z3.Or(*parts)
        if len(_z3mask) > 200000:
            _z3mask.clear()
        _z3mask[key] = e
    return e


class Var:
    __slots__ = ("name", "dom")

    def __init__(self, name, dom):
        self.name = name
        self.dom = dom


# ---------------------------------------------------------------- engine state
class State:
    """Mutable per-path state."""

    def __init__(self):
        self.reset([])
        self.stats = Stats()
        self.deadline = None

    def reset(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []       # (chosen, n_options_feasible)
        self.pending = []     # alternative prefixes discovered on this run
        self.doms = {}        # var name -> mask
        self.vars = {}        # var name -> Var
        self.zvars = {}       # z3 int variables: name -> expr
        self.zcons = []       # non-unary constraints
        self.zn = set()       # names of finite-domain variables occurring in them
        self.znk = 0
        self.zsolver = None
        self.zsynced = 0
        self.zdomsync = {}
        self.pua = []
        self.puamap = {}
        self.steps = 0
        self.fresh = 0


class Stats:
    def __init__(self):
        self.forks = 0
        self.queries = 0
        self.solver_s = 0.0
        self.regex_ops = 0
        self.maxpaths = 0


S = State()


def new_var(name, dom):
    if name in S.vars:
        raise RuntimeError("duplicate variable " + name)
    v = Var(name, dom)
    S.vars[name] = v
    S.doms[name] = dom.full
    return v


def tick():
    S.steps += 1
    if S.steps & 0x3FF == 0 and S.deadline and time.time() > S.deadline:
        raise Deadline()


def choose(n):
    """Record an n-way decision (all options believed feasible); return the index."""
    tick()
    if n == 1:
        return 0
    S.stats.forks += 1
    pos = S.pos
    S.pos += 1
    if pos < len(S.prefix):
        c = S.prefix[pos]
    else:
        c = 0
        base = S.trace[:]
        for alt in range(n - 1, 0, -1):
            S.pending.append(base + [alt])
    S.trace.append(c)
    return c


def solver():
    """Incremental solver holding the path's non-unary constraints + domains."""
    if S.zsolver is None:
        S.zsolver = z3.Solver()
        S.zsolver.set("timeout", 20000)
    s = S.zsolver
    while S.zsynced < len(S.zcons):
        s.add(S.zcons[S.zsynced])
        S.zsynced += 1
    for name, m in S.doms.items():
        if S.zdomsync.get(name) != m:
            v = S.vars[name]
            s.add(mask_to_z3(name, v.dom, m))
            S.zdomsync[name] = m
    return s


def query(expr, timeout=20000):
    s = solver()
    t = time.time()
    s.push()
    s.add(expr)
    r = s.check()
    s.pop()
    S.stats.queries += 1
    S.stats.solver_s += time.time() - t
    return r


def zlinked(name):
    """Does a finite-domain variable occur in a non-unary constraint of this path?"""
    while S.znk < len(S.zcons):
        todo = [S.zcons[S.znk]]
        S.znk += 1
        seen = set()
        while todo:
            e = todo.pop()
            k = e.get_id()
            if k in seen:
                continue
            seen.add(k)
            if e.num_args() == 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    S.zn.add(e.decl().name())
            else:
                todo.extend(e.children())
    return name in S.zn


def restrict(name, mask):
    S.doms[name] = mask


def fork_mask(var, mask):
    """Decide whether var's value lies in mask."""
    d = S.doms[var.name]
    t = d & mask
    if t == 0:
        return False
    f = d & ~mask
    if f == 0:
        return True
    if S.zcons and zlinked(var.name):
        rt = query(mask_to_z3(var.name, var.dom, t))
        if rt == z3.unsat:
            restrict(var.name, f)
            return False
        rf = query(mask_to_z3(var.name, var.dom, f))
        if rf == z3.unsat:
            restrict(var.name, t)
            return True
    # prefer the larger side first (typical behaviour first)
    if choose(2) == 0:
        restrict(var.name, f)
        return False
    restrict(var.name, t)
    return True


def fork_z(expr):
    expr = z3.simplify(expr)
    if z3.is_true(expr):
        return True
    if z3.is_false(expr):
        return False
    # replayed decision: feasibility is already known
    if S.pos < len(S.prefix):
        c = S.prefix[S.pos]
        if c in (0, 1):
            S.pos += 1
            S.trace.append(c)
            S.zcons.append(expr if c == 0 else z3.Not(expr))
            return c == 0
        if c == 2:
            S.pos += 1
            S.trace.append(2)
            return True
        S.pos += 1
        S.trace.append(3)
        return False
    rt = query(expr)
    if rt == z3.unsat:
        S.pos += 1
        S.trace.append(3)
        return False
    rf = query(z3.Not(expr))
    if rf == z3.unsat:
        S.pos += 1
        S.trace.append(2)
        return True
    S.stats.forks += 1
    S.pos += 1
    S.pending.append(S.trace[:] + [1])
    S.trace.append(0)
    S.zcons.append(expr)
    tick()
    return True


# ---------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("op", "a", "b")
    _sx_ = True

    def __init__(self, op, a, b=None):
        self.op = op
        self.a = a
        self.b = b

    def __bool__(self):
        op = self.op
        if op == "m":
            return fork_mask(self.a, self.b)
        if op == "and":
            return all(bool(x) for x in self.a)
        if op == "or":
            return any(bool(x) for x in self.a)
        if op == "not":
            return not bool(self.a)
        return fork_z(self.a)

    def z3(self):
        op = self.op
        if op == "m":
            return mask_to_z3(self.a.name, self.a.dom, self.b)
        if op == "and":
            return z3.And(*[to_z3(x) for x in self.a])
        if op == "or":
            return z3.Or(*[to_z3(x) for x in self.a])
        if op == "not":
            return z3.Not(to_z3(self.a))
        return self.a

    def __and__(self, o):
        return conj([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return disj([self, o])

    __ror__ = __or__

    def __invert__(self):
        return neg(self)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool("z", to_z3(self) == to_z3(o))
        if o is True or o == 1:
            return self
        if o is False or o == 0:
            return neg(self)
        return False

    def __ne__(self, o):
        return neg(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    # a truth value used as a number (sum of flags, formatting, ordering)
    def _num(op):
        def f(self, o):
            if isinstance(o, SymBool):
                o = bool(o)
            return getattr(operator, op)(int(bool(self)), o)

        def r(self, o):
            return getattr(operator, op)(o, int(bool(self)))
        return f, r

    __add__, __radd__ = _num("add")
    __sub__, __rsub__ = _num("sub")
    __mul__, __rmul__ = _num("mul")
    __xor__, __rxor__ = _num("xor")
    __lt__, _ = _num("lt")
    __le__, _ = _num("le")
    __gt__, _ = _num("gt")
    __ge__, _ = _num("ge")
    del _num, _

    def __neg__(self):
        return -int(bool(self))

    def __str__(self):
        return str(bool(self))

    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)


def to_z3(x):
    if isinstance(x, SymBool):
        return x.z3()
    return z3.BoolVal(bool(x))


def mask_bool(var, mask):
    d = S.doms.get(var.name, var.dom.full)
    if d & mask == 0:
        return False
    if d & ~mask == 0:
        return True
    return SymBool("m", var, mask)


def conj(xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if isinstance(x, SymBool):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool("and", out)


def disj(xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if isinstance(x, SymBool):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool("or", out)


def neg(x):
    if isinstance(x, SymBool):
        if x.op == "m":
            return SymBool("m", x.a, x.a.dom.full & ~x.b)
        if x.op == "not":
            return x.a
        return SymBool("not", x)
    return not x


def pick_value(var):
    """Concretise a finite-domain variable by forking over its values."""
    d = S.doms[var.name]
    opts = []
    i = 0
    m = d
    while m:
        low = m & -m
        opts.append(low.bit_length() - 1)
        m ^= low
    if len(opts) > 1 and S.zcons and zlinked(var.name):
        opts = [i for i in opts
                if query(mask_to_z3(var.name, var.dom, 1 << i)) != z3.unsat]
        if not opts:
            raise PathAbort()
    i = opts[choose(len(opts))]
    restrict(var.name, 1 << i)
    return var.dom.values[i]


# ---------------------------------------------------------------- integers
def _zi(x):
    if isinstance(x, SymInt):
        return x.e
    return x


class SymInt:
    """Integer-valued (or rational-valued) symbolic number."""
    __slots__ = ("e", "src")
    _sx_ = True

    def __init__(self, e, src=None):
        self.e = e
        self.src = src

    @property
    def __class__(self):
        return int

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _bin(self, o, f):
        if isinstance(o, SymBool):
            o = int(o)
        if type(o) is float and o.is_integer():
            o = int(o)
        if type(o) is SymInt or type(o) is int or type(o) is bool:
            return SymInt(z3.simplify(f(self.e, _zi(o))))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) in (str, list, tuple):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if type(o) is int and o > 0 or type(o) is SymInt:
            return self._bin(o, lambda a, b: a / b)
        return NotImplemented

    def __truediv__(self, o):
        return self.__index__() / (o.__index__() if type(o) is SymInt else o)

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return self._bin(o, lambda a, b: a % b)
        return self.__index__() % o

    def __rmod__(self, o):
        return o % self.__index__()

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o):
        return self.__index__() ** (o.__index__() if type(o) is SymInt else o)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __divmod__(self, o):
        return divmod(self.__index__(), o)

    def __neg__(self):
        return SymInt(-self.e)

    def __abs__(self):
        return SymInt(z3.If(self.e < 0, -self.e, self.e))

    def _cmp(self, o, f):
        if type(o) is float and o.is_integer():
            o = int(o)
        if type(o) is SymInt or type(o) is int or type(o) is bool:
            e = z3.simplify(f(self.e, _zi(o)))
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            return SymBool("z", e)
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self != 0)

    def concrete(self):
        """Concretise by enumerating feasible values (forks)."""
        e = z3.simplify(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(64):
            if S.pos < len(S.prefix) and isinstance(S.prefix[S.pos], tuple):
                v = S.prefix[S.pos]
                S.pos += 1
                S.trace.append(v)
                if v[0] == "=":
                    S.zcons.append(e == v[1])
                    return v[1]
                S.zcons.append(e != v[1])
                continue
            s = solver()
            S.stats.queries += 1
            r = s.check()
            if r == z3.unsat:
                raise PathAbort()
            if r != z3.sat:
                raise Unsupported("concretise: unknown")
            val = s.model().eval(e, model_completion=True).as_long()
            if query(e != val) != z3.unsat:
                S.pending.append(S.trace[:] + [("!", val)])
            S.pos += 1
            S.trace.append(("=", val))
            S.stats.forks += 1
            S.zcons.append(e == val)
            return val
        raise Unsupported("too many values")

    def __index__(self):
        return self.concrete()

    def __int__(self):
        return self.concrete()

    def __float__(self):
        return float(self.concrete())

    def __hash__(self):
        return hash(self.concrete())

    def __repr__(self):
        return "SymInt(%s)" % self.e


def new_int(name, lo=None, hi=None):
    e = z3.Int(name)
    S.zvars[name] = (e, lo, hi)
    if lo is not None:
        S.zcons.append(e >= lo)
    if hi is not None:
        S.zcons.append(e <= hi)
    return SymInt(e)


# ---------------------------------------------------------------- models
def model(extra=None):
    """A concrete assignment satisfying the path condition (and extra); or None."""
    if extra is None and not S.zcons:
        out = {}
        for n, m in S.doms.items():
            out[n] = (m & -m).bit_length() - 1
        return out
    s = solver()
    t = time.time()
    s.push()
    if extra is not None:
        s.add(extra)
    r = s.check()
    S.stats.queries += 1
    S.stats.solver_s += time.time() - t
    if r == z3.sat:
        mod = s.model()
        out = {}
        for n, v in S.vars.items():
            zv = mod.eval(z3var(n, v.dom), model_completion=False)
            m = S.doms[n]
            if z3.is_bv_value(zv) and zv.as_long() < v.dom.n and m >> zv.as_long() & 1:
                out[n] = zv.as_long()
            else:
                out[n] = (m & -m).bit_length() - 1
        for n, (e, lo, hi) in S.zvars.items():
            out[n] = mod.eval(e, model_completion=True).as_long()
        s.pop()
        return out
    s.pop()
    if r == z3.unknown:
        raise Unsupported("solver unknown")
    return None
