"""Loads the real fauxdoc source, instrumented, on top of the models.

The source is read from /repo/src (or $SX_REPO/src) on every run.  The AST is
rewritten so that each call `f(...)` becomes `__sx_call__(f, ...)` (which
gives symbolic meaning to a few C-implemented builtins), loop bodies and
function bodies report progress, and set displays go through set().  Nothing
else is changed: control flow, data flow and exceptions are those of the code.
"""
import ast
import builtins
import collections
import functools
import hashlib
import heapq
import itertools
import os
import re
import string
import sys
import types

import z3

from . import mdatetime, mmath, mrandom
from .engine import E, Gap
from .values import (Sym, SymBool, SymInt, SymRange, SymReal, SymStr, SymVal,
                     SxSet, ctx_uf, deep_sym, is_sym, mkbool, mkint, mkreal,
                     mkstr, num_term, str_join, sym_range, to_real)

REPO = os.environ.get('SX_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PKG = 'fauxdoc'

_BUILTIN_LEN = len


# -- models of builtins --------------------------------------------------------
def sx_len(x):
    f = getattr(type(x), 'sx_len', None)
    if f is not None:
        return f(x)
    f = getattr(type(x), '__len__', None)
    if isinstance(f, types.FunctionType):
        r = f(x)
        if is_sym(r):
            if r < 0:
                raise ValueError('__len__() should return >= 0')
            return r
        if r.__index__() < 0:
            raise ValueError('__len__() should return >= 0')
        return r
    return _BUILTIN_LEN(x)


def sx_int(x=0, *a):
    if a:
        return int(x, *a)
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return mkint(num_term(x)[0])
    if t is SymReal:
        return x.trunc()
    if is_sym(x):
        raise Gap('int() of symbolic value')
    return int(x)


def sx_float(x=0.0):
    if type(x) in (SymInt, SymBool):
        return mkreal(to_real(num_term(x)[0]))
    if type(x) is SymReal:
        return x
    return float(x)


def sx_str(x='', *a):
    if a:
        return str(x, *a)
    t = type(x)
    if t is SymStr:
        return x
    if t is SymVal:
        return SymStr((ctx_uf('str_val', z3.IntSort(), z3.StringSort())(x.t),))
    if t is SymInt:
        return SymStr((ctx_uf('str_int', z3.IntSort(), z3.StringSort())(x.t),))
    if t is mdatetime.ISOStr:
        return x
    if isinstance(x, mdatetime._DT):
        return mdatetime._text_of(x, 'str')
    s = _text(x)
    return s if type(s) in (str, SymStr) else str(x)


def sx_type(*a):
    if _BUILTIN_LEN(a) == 1 and is_sym(a[0]):
        return a[0].kind() if type(a[0]) is SymVal else a[0].__class__
    return type(*a)


def sx_isinstance(x, cls):
    if type(x) is SymVal:
        return x.cat(lambda c: issubclass(c, cls))
    return isinstance(x, cls)


def sx_is(a, b):
    """a is b, where an opaque value may be None."""
    if type(a) is SymVal and b is None or type(b) is SymVal and a is None:
        return E.fork((b if a is None else a).t == -2)
    return a is b


def _hterm(x):
    """(key, [terms]) describing the hash input of x, congruent in ==."""
    if type(x) in (SymInt, SymReal, SymBool):
        return 'num', [to_real(num_term(x)[0])]
    if isinstance(x, (int, float)) and not is_sym(x):
        return 'num', [to_real(num_term(x)[0])]
    if type(x) is SymVal:
        return 'val', [x.t]
    if type(x) is SymStr:
        return 'str', [x.term()]
    if isinstance(x, tuple):
        return 'tuple', [hash_term(y) for y in x]
    hk = getattr(type(x), '_sx_hashkey', None)
    if hk is not None:
        k = x._sx_hashkey()
        return k[0], [z3.ToReal(num_term(y)[0]) if z3.is_int(num_term(y)[0])
                      else num_term(y)[0] for y in k[1:]]
    return None, None


def hash_term(x):
    k, ts = _hterm(x)
    if k is None:
        f = getattr(type(x), '__hash__', None)
        if isinstance(f, types.FunctionType):
            r = f(x)
            return num_term(r)[0]
        return z3.IntVal(hash(x))
    f = ctx_uf(f'hash_{k}_{_BUILTIN_LEN(ts)}', *([t.sort() for t in ts]
                                                + [z3.IntSort()])) \
        if ts else None
    return f(*ts) if ts else z3.IntVal(hash(()))


def sx_hash(x):
    if isinstance(getattr(type(x), '__hash__', None), types.FunctionType) \
            and not is_sym(x) and not getattr(type(x), '_sx_model', False):
        r = type(x).__hash__(x)
        return r
    if deep_sym(x) or (isinstance(x, tuple) and any(
            _deep_model(y) for y in x)):
        return mkint(hash_term(x))
    if isinstance(x, tuple):
        # keep congruence between concrete and symbolic tuples
        return mkint(hash_term(x))
    if isinstance(x, (int, float)):
        return hash(x)
    return hash(x)


def _deep_model(x):
    if isinstance(x, tuple):
        return any(_deep_model(y) for y in x)
    return getattr(type(x), '_sx_model', False) or is_sym(x)


def sx_set(it=()):
    xs = list(it)
    if any(deep_sym(x) for x in xs):
        return SxSet(xs)
    return set(xs)


def sx_frozenset(it=()):
    xs = list(it)
    if any(deep_sym(x) for x in xs):
        return SxSet(xs)
    return frozenset(xs)


def sx_chr(x):
    if type(x) is not SymInt:
        return chr(x)
    if E.fork(z3.Or(x.t < 0, x.t > 0x10FFFF)):
        raise ValueError('chr() arg not in range(0x110000)')
    return SymStr((('chr', x.t),))


def sx_ord(x):
    if type(x) is SymStr and _BUILTIN_LEN(x.parts) == 1 \
            and isinstance(x.parts[0], tuple):
        return mkint(x.parts[0][1])
    if is_sym(x):
        raise Gap('ord')
    return ord(x)


def sx_repr(x):
    if isinstance(x, mdatetime._DT):
        return mdatetime._text_of(x, 'repr')
    if is_sym(x) or isinstance(x, (list, tuple, dict)) and deep_sym(x):
        raise Gap('repr of a symbolic value')
    return repr(x)


def sx_bool(x=False):
    if type(x) is SymBool:
        return x
    if isinstance(x, Sym) and hasattr(x, 'truth'):
        return mkbool(x.truth())
    return bool(x)


def sx_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def sx_divmod(a, b):
    return divmod(a, b)


MODELS = {}
for _f, _m in ((len, sx_len), (int, sx_int), (float, sx_float), (str, sx_str),
               (type, sx_type), (hash, sx_hash), (set, sx_set),
               (frozenset, sx_frozenset), (chr, sx_chr), (ord, sx_ord),
               (range, sym_range), (bool, sx_bool), (sum, sx_sum),
               (isinstance, sx_isinstance), (repr, sx_repr)):
    MODELS[id(_f)] = _m

_BM = type(''.join)
# C functions that call back: builtins among their arguments are modelled too
_HIGHER = {id(f) for f in (map, filter, sorted, min, max, functools.reduce,
                           functools.partial, itertools.starmap,
                           itertools.accumulate, itertools.takewhile,
                           itertools.dropwhile, itertools.filterfalse,
                           itertools.groupby, heapq.nlargest, heapq.nsmallest)}


def _modelled(x):
    if id(x) in MODELS:
        return MODELS[id(x)]
    if type(x) is _BM or x is str.join:
        return lambda *a, **k: sx_call(x, *a, **k)
    return x


def _format(s, a, k):
    """str.format with symbolic arguments."""
    parts, auto = [], 0
    for lit, name, spec, conv in string.Formatter().parse(s):
        if lit:
            parts.append(lit)
        if name is None:
            continue
        if spec or conv not in (None, 's'):
            raise Gap('format specification for a symbolic value')
        if name == '':
            v, auto = a[auto], auto + 1
        elif name.isdigit():
            v = a[int(name)]
        elif name.isidentifier():
            v = k[name]
        else:
            raise Gap('format field of a symbolic value')
        parts.append((v,))
    return sx_fstr(*parts)


def sx_mod(a, b):
    """a % b; a may be a format string."""
    if type(a) is not str:
        return a % b
    vs = b if type(b) is tuple else (b,)
    if type(b) is dict or not any(is_sym(_text(v)) for v in vs):
        return a % b
    lits = re.split(r'(%.)', a)
    parts, n = [], 0
    for p in lits:
        if p in ('%s', '%d', '%i'):
            if n >= _BUILTIN_LEN(vs):
                raise TypeError('not enough arguments for format string')
            parts.append((vs[n],))
            n += 1
        elif p == '%%':
            parts.append('%')
        elif p.startswith('%') and _BUILTIN_LEN(p) == 2:
            raise Gap('format of a symbolic value')
        elif p:
            parts.append(p)
    if n < _BUILTIN_LEN(vs):
        raise TypeError('not all arguments converted during string formatting')
    return sx_fstr(*parts)


def sx_call(f, /, *a, **k):
    E.fuel -= 1
    if E.fuel & 255 == 0 or E.fuel < 0:
        E.tick()
    m = MODELS.get(id(f))
    if m is not None:
        return m(*a, **k)
    if id(f) in _HIGHER:
        return f(*map(_modelled, a), **{n: _modelled(v) for n, v in k.items()})
    if type(f) is _BM:
        s = f.__self__
        if f.__name__ == 'sort':
            return f(*a, **{n: _modelled(v) for n, v in k.items()})
        if type(s) in _DICTS and a and not k and f.__name__ in (
                'get', 'setdefault') and (is_sym(a[0]) or any(map(is_sym, s))):
            key, found = _find_key(s, a[0])
            return s[key] if found else f(*a)
        if type(s) is str:
            if f.__name__ == 'join' and _BUILTIN_LEN(a) == 1 and not k:
                xs = list(a[0])
                if any(is_sym(x) for x in xs):
                    return str_join(s, xs)
                return f(xs)
            if f.__name__ == 'format' and any(
                    is_sym(_text(v)) for v in (*a, *k.values())):
                return _format(s, a, k)
    elif f is str.join:
        return sx_call(a[0].join, *a[1:])
    return f(*a, **k)


def sx_getitem(x, i):
    """x[i]; concrete ranges take symbolic positions."""
    if type(x) is range and (is_sym(i) or type(i) is slice and (
            is_sym(i.start) or is_sym(i.stop) or is_sym(i.step))):
        x = SymRange(*map(z3.IntVal, (x.start, x.stop, x.step)))
    if type(x) in _DICTS and (is_sym(i) or any(map(is_sym, x))):
        k, found = _find_key(x, i)
        if found:
            return x[k]
        raise KeyError(i)
    return x[i]


_DICTS = (dict, collections.OrderedDict, collections.defaultdict)


def _find_key(d, key):
    """The key of d equal to a symbolic key (or a symbolic one equal to
    key); hash lookup would not find it."""
    hash(key)
    for k in d:
        if k is key or k == key:
            return k, True
    return None, False


def sx_in(a, x):
    """a in x; concrete ranges take symbolic values."""
    if type(x) is range and is_sym(a):
        x = SymRange(*map(z3.IntVal, (x.start, x.stop, x.step)))
    if type(x) in _DICTS and (is_sym(a) or any(map(is_sym, x))):
        return _find_key(x, a)[1]
    return a in x


def sx_fstr(*parts):
    """An f-string of literals and plain (value,) parts."""
    parts = [p if type(p) is str else (_text(p[0]),) for p in parts]
    if not any(type(p) is tuple and type(p[0]) in (SymStr, SymInt, SymVal)
               for p in parts):
        return ''.join([p if type(p) is str else format(p[0]) for p in parts])
    return mkstr([q for p in parts for q in _str_parts(p)])


def _text(x):
    """x, or its str() if a __str__ or __repr__ of the code under test makes
    that symbolic (str() itself refuses to return proxies)."""
    if is_sym(x):
        return x
    t = type(x)
    if '__format__' not in t.__dict__ and t.__format__ is object.__format__:
        f = t.__str__ if t.__str__ is not object.__str__ else t.__repr__
        if hasattr(f, '__code__'):
            return f(x)
    return x


def _str_parts(p):
    if type(p) is str:
        return (p,)
    v = sx_str(p[0]) if is_sym(p[0]) else format(p[0])
    return v.parts if type(v) is SymStr else (v,)


def sx_enter(name):
    E.functions.add(name)
    E.fuel -= 1
    if E.fuel & 255 == 0 or E.fuel < 0:
        E.tick()


def sx_tick():
    E.fuel -= 1
    if E.fuel & 255 == 0 or E.fuel < 0:
        E.tick()


# -- instrumentation -------------------------------------------------------------
class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.stack = [modname]

    def visit_Call(self, node):
        self.generic_visit(node)
        if (isinstance(node.func, ast.Name) and node.func.id in
                ('super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec')):
            return node
        new = ast.Call(func=ast.Name('__sx_call__', ast.Load()),
                       args=[node.func] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def _setcall(self, node, gen):
        new = ast.Call(func=ast.Name('__sx_call__', ast.Load()),
                       args=[ast.Name('set', ast.Load()), gen], keywords=[])
        return ast.copy_location(new, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        i = node.slice
        if isinstance(i, ast.Slice):
            i = ast.Call(func=ast.Name('__sx_slice__', ast.Load()),
                         args=[x or ast.Constant(None) for x in
                               (i.lower, i.upper, i.step)], keywords=[])
        elif any(isinstance(x, (ast.Slice, ast.Starred)) for x in
                 getattr(i, 'elts', ())):
            return node
        return ast.copy_location(ast.Call(
            func=ast.Name('__sx_getitem__', ast.Load()),
            args=[node.value, i], keywords=[]), node)

    def visit_AnnAssign(self, node):
        # the annotation stays untouched
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = (ast.In, ast.NotIn, ast.Is, ast.IsNot)
        if len(node.ops) != 1 or not isinstance(node.ops[0], ops):
            return node
        f = '__sx_in__' if isinstance(node.ops[0], ops[:2]) else '__sx_is__'
        new = ast.Call(func=ast.Name(f, ast.Load()),
                       args=[node.left, node.comparators[0]], keywords=[])
        if isinstance(node.ops[0], (ast.NotIn, ast.IsNot)):
            new = ast.UnaryOp(ast.Not(), new)
        return ast.copy_location(new, node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if not isinstance(node.op, ast.Mod):
            return node
        return ast.copy_location(ast.Call(
            ast.Name('__sx_mod__', ast.Load()), [node.left, node.right], []),
            node)

    def visit_FormattedValue(self, node):
        # a format spec stays untouched
        node.value = self.visit(node.value)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        args = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                if v.conversion not in (-1, 115) or v.format_spec:
                    return node
                args.append(ast.Tuple([v.value], ast.Load()))
            else:
                args.append(v)
        return ast.copy_location(ast.Call(
            ast.Name('__sx_fstr__', ast.Load()), args, []), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self._setcall(node, ast.ListComp(node.elt, node.generators))

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._setcall(node, ast.List(node.elts, ast.Load()))

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(ast.Call(
            ast.Name('__sx_tick__', ast.Load()), [], [])), node))
        return node

    visit_For = visit_While = _loop

    def _func(self, node):
        self.stack.append(node.name)
        name = '.'.join(self.stack)
        # decorators and annotations stay untouched
        node.args = self.visit(node.args)
        node.body = [self.visit(b) for b in node.body]
        self.stack.pop()
        body = node.body
        i = 1 if (body and isinstance(body[0], ast.Expr) and isinstance(
            body[0].value, ast.Constant)
            and isinstance(body[0].value.value, str)) else 0
        body.insert(i, ast.copy_location(ast.Expr(ast.Call(
            ast.Name('__sx_enter__', ast.Load()), [ast.Constant(name)], [])),
            node))
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _func

    def visit_arguments(self, node):
        node.defaults = [self.visit(d) for d in node.defaults]
        node.kw_defaults = [d and self.visit(d) for d in node.kw_defaults]
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(b) for b in node.body]
        self.stack.pop()
        return node


class _Meta:
    @staticmethod
    def version(name):
        return '0'


_SUBST = {'datetime': mdatetime, 'random': mrandom, 'math': mmath}


class Loader:
    """Compiles the package once; instantiates it afresh for each path."""

    def __init__(self):
        self.codes = {}
        self.sources = {}
        root = os.path.join(SRC, PKG)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for fn in sorted(files):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(d, fn)
                rel = os.path.relpath(path, SRC)[:-3].split(os.sep)
                pkg = rel[-1] == '__init__'
                if pkg:
                    rel = rel[:-1]
                name = '.'.join(rel)
                with open(path) as f:
                    src = f.read()
                self.sources[name] = hashlib.sha256(src.encode()).hexdigest()
                tree = Rewriter(name).visit(ast.parse(src, path))
                ast.fix_missing_locations(tree)
                self.codes[name] = (compile(tree, path, 'exec'), pkg, path)
        self.mods = {}
        self.builtins = dict(vars(builtins))
        self.builtins.update({
            '__import__': self._import, '__sx_call__': sx_call,
            '__sx_getitem__': sx_getitem, '__sx_in__': sx_in,
            '__sx_is__': sx_is,
            '__sx_slice__': slice, '__sx_mod__': sx_mod, '__sx_fstr__': sx_fstr,
            '__sx_enter__': sx_enter, '__sx_tick__': sx_tick})

    def fresh(self):
        """A freshly executed copy of the package."""
        for n in list(sys.modules):
            if n == PKG or n.startswith(PKG + '.'):
                del sys.modules[n]
        self.mods = {}
        return self._load(PKG)

    def _load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name not in self.codes:
            raise ModuleNotFoundError(f'No module named {name!r}', name=name)
        parent = name.rpartition('.')[0]
        if parent and parent not in self.mods:
            self._load(parent)
            if name in self.mods:
                return self.mods[name]
        code, pkg, path = self.codes[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        sys.modules[name] = m
        exec(code, m.__dict__)
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__']
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            full = f'{base}.{name}' if name else base
        else:
            full = name
        if full == PKG or full.startswith(PKG + '.'):
            m = self._load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) \
                            and f'{full}.{f}' in self.codes:
                        self._load(f'{full}.{f}')
                return m
            return m if level else self._load(PKG)
        if full in _SUBST:
            return _SUBST[full]
        if full.startswith('importlib') and fromlist and 'metadata' in fromlist:
            ns = types.SimpleNamespace(metadata=_Meta)
            return ns
        if full == 'importlib.metadata':
            return _Meta if fromlist else types.SimpleNamespace(metadata=_Meta)
        return builtins.__import__(name, globals, locals, fromlist, level)
