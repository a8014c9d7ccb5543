"""Harness API.  A harness is ordinary Python run twice: symbolically against the
instrumented modules, and concretely (validation / replay) against the plain ones."""
import os
import traceback

from . import core, instrument
from .core import (S, Domain, PathAbort, SymBool, SymInt, conj, disj, new_int, new_var, pick_value,
                   to_z3, neg)
from .values import SymChar, SymStr, evaluate, identity, mk
import z3

DIGITS = "0123456789"
LOWER = "abcdefghijklmnopqrstuvwxyz"
UPPER = LOWER.upper()


TB = os.environ.get("SX_TB")


class Harness:
    def __init__(self, name, fn, bounds, reach=(), needs=(), tier="quick", share=1.0,
                 fresh=True):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.reach = reach
        self.needs = needs        # "module:attr" internal entry points this one drives
        self.tier = tier
        self.share = share
        self.fresh = fresh        # every path starts from freshly imported module state


def eq(a, b):
    """Deep equality as one condition: no forking on symbolic characters."""
    ta, tb = type(a), type(b)
    if ta in (list, tuple) or tb in (list, tuple):
        if ta is not tb or len(a) != len(b):
            return False
        return conj([eq(x, y) for x, y in zip(a, b)])
    if ta is dict or tb is dict:
        if ta is not tb or len(a) != len(b):
            return False
        out = []
        for k in a:
            if k not in b:
                return False
            out.append(eq(a[k], b[k]))
        return conj(out)
    return a == b


def both(*cs):
    return conj(list(cs))


def either(*cs):
    return disj(list(cs))


class Outcome:
    """Result of calling the code under test."""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def exc_name(self):
        return type(self.exc).__name__ if self.exc is not None else None


class BaseCtx:
    def __init__(self):
        self.obs = {}
        self.reached = set()
        self.cleanup = []

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except Exception as e:
            if TB and self.sym:
                traceback.print_exc(limit=-8)
            return Outcome(exc=e)

    def reach(self, label):
        self.reached.add(label)

    def observe(self, key, value):
        self.obs[key] = value

    def get(self, modattr):
        m, _, a = modattr.partition(":")
        mod = self.mod(m)
        return getattr(mod, a) if a else mod

    def string(self, name, lo, hi, alphabet):
        n = self.choice(name + ".len", tuple(range(lo, hi + 1))) if lo != hi else lo
        out = ""
        for i in range(n):
            out = out + self.char("%s.%d" % (name, i), alphabet)
        return out


class SymCtx(BaseCtx):
    sym = True

    def __init__(self):
        super().__init__()
        self.conds = []
        self.folded = 0

    def mod(self, name):
        return instrument._inst[name]

    def char(self, name, alphabet):
        v = new_var(name, Domain.of(alphabet))
        return mk([SymChar(v, identity(v.dom))])

    def choice(self, name, options):
        v = new_var(name, Domain.of(tuple(range(len(options)))))
        return options[pick_value(v)]

    def int(self, name, lo=None, hi=None):
        return new_int(name, lo, hi)

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def check(self, cond, label, detail=None):
        if cond is True:
            self.folded += 1
            return
        self.conds.append((cond, label, detail))

    def intercept(self, mapping):
        instrument.INTERCEPT.clear()
        instrument.INTERCEPT.update(mapping)


class ConCtx(BaseCtx):
    sym = False

    def __init__(self, model):
        super().__init__()
        self.model = model
        self.failed = []

    def mod(self, name):
        return instrument._plain[name]

    def char(self, name, alphabet):
        return alphabet[self.model.get(name, 0)]

    def choice(self, name, options):
        return options[self.model.get(name, 0)]

    def int(self, name, lo=None, hi=None):
        return self.model.get(name, lo if lo is not None else 0)

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def check(self, cond, label, detail=None):
        if not cond:
            self.failed.append((label, detail))

    def intercept(self, mapping):
        pass
