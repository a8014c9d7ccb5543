"""Import hook: the real modules of the project, re-read from /repo's current source
and rewritten so that operations CPython would perform natively on `str` go through
the symbolic semantics of sx.ops.  Control flow, data structures, generators,
exceptions etc. are executed by CPython unchanged."""
import ast
import builtins
import collections
import contextlib
import functools
import importlib
import importlib.abc
import importlib.util
import itertools
import logging
import operator
import os
import re
import sys
import types

from . import ops
from .core import S, SymBool, SymInt
from .values import SYMTYPES, SymStr, contains_sym, deep_concrete, is_sym, concretize
from .regex import SymMatch

SYM = frozenset(SYMTYPES)
INTERCEPT = {}      # callable -> replacement (set by harnesses)
ENCODED = {}        # module -> set of function names executed symbolically


class Rewriter(ast.NodeTransformer):
    SKIP = {"super", "locals", "globals", "vars", "dir", "eval", "exec"}

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in self.SKIP:
            return node
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                    and f.value.func.id == "super":
                return node
            new = ast.Call(
                func=ast.Name("__sx_meth__", ast.Load()),
                args=[f.value, ast.Constant(f.attr)] + node.args,
                keywords=node.keywords)
        else:
            new = ast.Call(func=ast.Name("__sx_call__", ast.Load()),
                           args=[f] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                func=ast.Name("__sx_mod__", ast.Load()),
                args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            call = ast.Call(func=ast.Name("__sx_in__", ast.Load()),
                            args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                call = ast.UnaryOp(ast.Not(), call)
            return ast.copy_location(call, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice) \
                and not isinstance(node.slice, ast.Constant):
            return ast.copy_location(ast.Call(
                func=ast.Name("__sx_item__", ast.Load()),
                args=[node.value, node.slice], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec else ast.Constant("")
                parts.append(ast.Call(func=ast.Name("__sx_fmt__", ast.Load()),
                                      args=[val, ast.Constant(v.conversion), spec],
                                      keywords=[]))
        return ast.copy_location(ast.Call(
            func=ast.Name("__sx_fjoin__", ast.Load()),
            args=[ast.List(parts, ast.Load())], keywords=[]), node)

    def visit_arguments(self, node):
        return self.generic_visit(node)

    def visit_MatchValue(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        return self.generic_visit(node)


# ------------------------------------------------------------------ runtime
_passthrough = {
    list, tuple, dict, set, frozenset, enumerate, reversed, zip, iter, next, len, any,
    all, isinstance, issubclass, bool, id, type, map, filter, sorted, min, max, sum,
    callable, getattr, setattr, hasattr, range, slice, object, hash, print, repr,
    contextlib.suppress, property, staticmethod, classmethod,
}


def sx_isinstance(x, t):
    if type(x) is SymBool:
        return builtins.isinstance(True, t)
    return builtins.isinstance(x, t)


def sx_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is SymStr:
            return str
        if t is SymInt:
            return int
        if t is SymBool:
            return bool
        return t
    return type(*a)


def _int(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymStr:
            return ops.sym_int(x)
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return int(bool(x))
    return int(*[concretize(x) for x in a], **{n: concretize(x) for n, x in k.items()})


def _str(*a, **k):
    if len(a) == 1 and not k:
        return ops.to_str(a[0])
    return str(*a, **k)


def _sorted(it, **k):
    return sorted(it, **k)


def _suppress(*a):
    return contextlib.suppress(*a)


_handlers = {
    int: _int,
    str: _str,
    isinstance: sx_isinstance,
    type: sx_type,
    float: lambda *a: float(*[concretize(x) for x in a]),
    ord: lambda x: ops.sym_ord(x) if type(x) is SymStr else ord(concretize(x)),
    re.escape: ops.re_escape,
    re.compile: lambda *a, **k: ops.re_compile(*a, **k),
    format: lambda v, spec="": ops.fmt_value(v, None, spec),
}
for _n in ("match", "search", "fullmatch", "findall", "finditer", "sub", "subn", "split"):
    _handlers[getattr(re, _n)] = (lambda nm: lambda *a, **k: ops.re_func(nm, a, k))(_n)

_CTYPES = (types.BuiltinFunctionType, type(str.upper), type(re.compile))


def _anysym(a, k):
    for x in a:
        if type(x) in SYM:
            return True
    for x in k.values():
        if type(x) in SYM:
            return True
    return False


INSTRUMENTED_FILES = set()

# natively implemented functions that call one of their arguments
_HIGHER = {
    map, filter, sorted, min, max, functools.reduce, functools.partial,
    itertools.filterfalse, itertools.takewhile, itertools.dropwhile, itertools.groupby,
    itertools.starmap, itertools.accumulate,
}
_passthrough.update({
    functools.reduce, itertools.chain.from_iterable, itertools.islice, itertools.tee,
    operator.add, operator.concat, operator.eq, operator.ne, operator.lt, operator.le,
    operator.gt, operator.ge, operator.not_, operator.truth, operator.iadd, operator.or_,
    operator.and_, operator.sub, operator.mul, operator.is_, operator.is_not,
})
_handlers[operator.contains] = lambda c, x: ops.contains(x, c)
_handlers[operator.getitem] = ops.getitem
_handlers[operator.mod] = lambda a, b: sx_mod(a, b)
_BUILTIN = (types.BuiltinFunctionType, type(re.compile("").match))
_DESCR = (type(str.upper),) + _BUILTIN


def _first_class(x):
    """A native callable handed to a native function that will call it."""
    t = type(x)
    if t in _DESCR or t is type and x in _handlers or \
            t is types.FunctionType and "__sx_call__" not in x.__globals__:
        if t in _BUILTIN and x in _passthrough:
            return x
        return lambda *a, **k: sx_call(x, *a, **k)
    return x


def _higher(a, k):
    a = [_first_class(x) for x in a]
    if "key" in k:
        k = dict(k, key=_first_class(k["key"]))
    return a, k


def sx_call(f, *a, **k):
    try:
        h = INTERCEPT.get(f)
        if h is not None:
            return h(*a, **k)
        h = _handlers.get(f)
        if h is not None:
            return h(*a, **k)
        if f in _HIGHER:
            a, k = _higher(a, k)
            return f(*a, **k)
        if f in _passthrough:
            return f(*a, **k)
    except TypeError:
        if getattr(f, "__hash__", None) is not None:
            raise
    t = type(f)
    if t is types.FunctionType:
        g = f.__globals__
        if "__sx_call__" in g:
            return f(*a, **k)
        if _anysym(a, k):
            nm = (f.__module__, f.__qualname__)
            sp = SPECIAL.get(nm)
            if sp is not None:
                return sp(*a, **k)
            if nm[0].split(".")[0] in ("harness", "sx", "__main__"):
                return f(*a, **k)
            return f(*[deep_concrete(x) for x in a], **{n: deep_concrete(x) for n, x in k.items()})
        return f(*a, **k)
    if t is types.MethodType or t is type:
        if t is types.MethodType and isinstance(f.__self__, (SymMatch,)):
            return f(*a, **k)
        return f(*a, **k)
    if t in _BUILTIN:
        self = getattr(f, "__self__", None)
        ts = type(self)
        if ts in _METHTYPES or ts in SYM:
            return sx_meth(self, f.__name__, *a, **k)
        if self is not None and (isinstance(self, (list, dict, set, tuple)) or ts in _CONTAINERS):
            return f(*a, **k)
        if any(contains_sym(x) for x in a) or any(contains_sym(x) for x in k.values()):
            return f(*[deep_concrete(x) for x in a], **{n: deep_concrete(x) for n, x in k.items()})
    if t is type(str.join):
        if a and (type(a[0]) in (str, SymStr) or type(a[0]) is re.Pattern):
            return sx_meth(a[0], f.__name__, *a[1:], **k)
    return f(*a, **k)


_METHTYPES = (str, re.Pattern, dict)
_CONTAINERS = (collections.deque, itertools.chain, type(iter([])))

SPECIAL = {
    ("unidecode", "unidecode"): lambda s, *a, **k: ops.sym_unidecode(s),
    ("unidecode", "unidecode_expect_ascii"): lambda s, *a, **k: ops.sym_unidecode(s),
    ("urllib.parse", "unquote"): lambda s, *a, **k: ops.sym_unquote(s, *a, **k),
}

_LOGMETH = {"debug", "info", "warning", "error", "exception", "critical", "log"}


def sx_meth(obj, name, *a, **k):
    t = type(obj)
    if t is str:
        for x in a:
            if type(x) in SYM or type(x) is tuple and contains_sym(x):
                return ops.str_method(obj, name, a, k)
        if name == "join":
            return ops.str_join(obj, *a)
        if name == "format":
            return ops.fmt_format(obj, a, k)
        if name == "format_map":
            return ops.fmt_format(obj, (), a[0])
        return getattr(obj, name)(*a, **k)
    if t is re.Pattern:
        if name in ("match", "search", "fullmatch", "findall", "finditer", "sub", "subn", "split"):
            return ops.pat_method(obj, name, a, k)
        return getattr(obj, name)(*a, **k)
    if t is logging.Logger and name in _LOGMETH:
        return None
    if t is types.ModuleType or t is type:
        return sx_call(getattr(obj, name), *a, **k)
    if t is dict:
        if a and type(a[0]) is SymStr and name in ("get", "setdefault", "pop"):
            for key in list(obj):
                if isinstance(key, str) and len(key) == len(a[0]) and a[0] == key:
                    return getattr(obj, name)(key, *a[1:])
            if name == "get":
                return a[1] if len(a) > 1 else k.get("default")
            return getattr(obj, name)(a[0].concrete(), *a[1:])
        return getattr(obj, name)(*a, **k)
    if t in SYM or t is list or t is set or t is tuple:
        if name == "sort" and k:
            a, k = _higher(a, k)
        return getattr(obj, name)(*a, **k)
    return sx_call(getattr(obj, name), *a, **k)


def sx_mod(a, b):
    if type(a) is str or type(a) is SymStr:
        return ops.fmt_percent(a, b)
    return a % b


def sx_fmt(v, conv, spec):
    c = {-1: None, 115: "s", 114: "r", 97: "a"}[conv]
    return ops.fmt_value(v, c, spec)


def sx_fjoin(parts):
    return ops.str_join("", parts)


RUNTIME = {
    "__sx_call__": sx_call,
    "__sx_meth__": sx_meth,
    "__sx_mod__": sx_mod,
    "__sx_in__": ops.contains,
    "__sx_item__": ops.getitem,
    "__sx_fmt__": sx_fmt,
    "__sx_fjoin__": sx_fjoin,
}

PREFIXES = ("refextract", "inspire_utils.record", "inspire_utils.dedupers")


def wanted(name):
    return any(name == p or name.startswith(p + ".") for p in PREFIXES)


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    """Late imports in instrumented code resolve to instrumented modules."""
    if level == 0 and wanted(name) and name in _inst:
        if not fromlist:
            return _inst.get(name.split(".")[0], _inst[name])
        return _inst[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as fh:
            src = fh.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, self.path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        module.__dict__.update(RUNTIME)
        bd = dict(vars(builtins))
        bd["__import__"] = _import
        module.__dict__["__builtins__"] = bd
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = compile(tree, self.path, "exec")
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if not wanted(name):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if name == "refextract":
            p = os.path.join(REPO, "refextract", "__init__.py")
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(p),
                submodule_search_locations=[os.path.dirname(p)])
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        return importlib.util.spec_from_file_location(
            name, spec.origin, loader=Loader(spec.origin),
            submodule_search_locations=spec.submodule_search_locations)


REPO = os.environ.get("VERIF_REPO", "/repo")
_plain = {}
_inst = {}


def _purge():
    out = {}
    for n in list(sys.modules):
        if wanted(n):
            out[n] = sys.modules.pop(n)
    return out


def load(names):
    """Import the project twice: plain and instrumented."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    missing = set()
    _purge()
    for n in names:
        try:
            importlib.import_module(n)
        except ModuleNotFoundError:
            missing.add(n)
    _plain.update(_purge())
    f = Finder()
    sys.meta_path.insert(0, f)
    try:
        for n in names:
            if n not in missing:
                importlib.import_module(n)
    finally:
        sys.meta_path.remove(f)
    _inst.update(_purge())
    # late imports inside functions resolve to the plain modules
    sys.modules.update(_plain)
    _snapshot()
    return _plain, _inst


# ------------------------------------------------------------------ state isolation
_snap = []


def _snapshot():
    """Record the mutable module-level state (globals and argument defaults) of both
    copies of the project, so that every path starts from the freshly imported state."""
    seen = set()

    def add(o):
        if type(o) in (dict, list, set) and id(o) not in seen:
            seen.add(id(o))
            _snap.append((o, o.copy()))
        elif hasattr(o, "cache_clear") and id(o) not in seen and \
                getattr(getattr(o, "__wrapped__", None), "__code__", None) is not None and \
                o.__wrapped__.__code__.co_argcount:
            # memoised constants (no arguments) are kept: recomputing them is expensive
            seen.add(id(o))
            _snap.append((o, None))

    def func(f):
        for d in f.__defaults__ or ():
            add(d)
        for d in (f.__kwdefaults__ or {}).values():
            add(d)

    for mods in (_plain, _inst):
        for n, m in mods.items():
            if not n.startswith("refextract"):
                continue
            for k, v in list(vars(m).items()):
                if k.startswith("__"):
                    continue
                add(v)
                if type(v) is types.FunctionType:
                    func(v)
                elif isinstance(v, type) and v.__module__ == n:
                    for w in vars(v).values():
                        add(w) if type(w) is not types.FunctionType else func(w)


def warm_up(kbs):
    """One ordinary call per copy, so that lazily computed constants exist; module-level
    bindings are recorded after it, the content of mutable containers before it."""
    for mods in (_plain, _inst):
        try:
            mods["refextract.references.engine"].parse_references(
                ["[1] A. Smith, Phys. Rev. D 1 (1999) 2"], override_kbs_files=kbs)
        except Exception:
            pass
    _globals = []
    for mods in (_plain, _inst):
        for n, m in mods.items():
            if n.startswith("refextract"):
                _globals.append((vars(m), {k: v for k, v in vars(m).items()
                                           if not k.startswith("__")}))
    _snap.append((None, _globals))


def restore_state():
    for o, c in _snap:
        if o is None:
            for d, vals in c:
                for k, v in vals.items():
                    if d.get(k, d) is not v:
                        d[k] = v
        elif c is None:
            o.cache_clear()
        elif type(o) is list:
            o[:] = c
        else:
            o.clear()
            o.update(c)
