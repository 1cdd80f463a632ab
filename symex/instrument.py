"""Load /repo/pyulog/*.py with every operation routed through the symbolic hooks.

The source is parsed on every run; nothing is cached between runs.
"""
import ast
import builtins
import collections
import csv
import enum
import functools
import hashlib
import importlib
import io
import math
import operator
import os
import sys
import types
from . import core, text, fs, shims, f_struct, f_numpy, f_sqlite, regex
from .containers import SymDict, SymSet
from .text import SymStr, belems

_S = '_s'


def _attr(name):
    return ast.Attribute(ast.Name(_S, ast.Load()), name, ast.Load())


def _call(name, args):
    return ast.Call(_attr(name), args, [])


_SELF_MATCH = {'int', 'str', 'float', 'bytes', 'bytearray', 'bool', 'dict', 'set', 'frozenset'}


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.tmp = 0

    # -- scopes
    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        name = self.mod + '.' + '.'.join(self.stack)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.returns = None
        a = n.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        body = []
        doc = n.body
        i = 0
        if doc and isinstance(doc[0], ast.Expr) and isinstance(doc[0].value, ast.Constant) and isinstance(
                doc[0].value.value, str):
            body.append(doc[0])
            i = 1
        rest = []
        for st in doc[i:]:
            r = self.visit(st)
            if r is None:
                continue
            rest.extend(r if isinstance(r, list) else [r])
        n.body = body + [ast.Expr(_call('enter', [ast.Constant(name)]))] + rest
        self.stack.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        body = []
        keep_ann = any('dataclass' in ast.unparse(d) for d in n.decorator_list) or any(
            'NamedTuple' in ast.unparse(b) for b in n.bases)
        for st in n.body:
            if keep_ann and isinstance(st, ast.AnnAssign) and 'ClassVar' not in ast.unparse(st.annotation):
                st.annotation = ast.Constant(ast.unparse(st.annotation))
                if st.value is not None:
                    st.value = self.visit(st.value)
                body.append(st)
                continue
            r = self.visit(st)
            if r is None:
                continue
            body.extend(r if isinstance(r, list) else [r])
        n.body = body or [ast.Pass()]
        self.stack.pop()
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass()
        return ast.Assign([self.visit(n.target)], self.visit(n.value))

    def visit_ExceptHandler(self, n):
        # control exceptions of the engine must not be swallowed
        self.generic_visit(n)
        if n.type is None or (isinstance(n.type, ast.Name) and n.type.id == 'BaseException'):
            n.type = _attr('AnyException')
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(_call('loop', [])))
        return n

    # -- expressions
    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute):
            f.value = self.visit(f.value)
        else:
            n.func = f = self.visit(f)
        n.args = [self.visit(x) for x in n.args]
        n.keywords = [self.visit(x) for x in n.keywords]
        if isinstance(f, ast.Attribute) and not (f.attr.startswith('__') and not f.attr.endswith('__')):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                return n
            return ast.Call(_attr('mcall'), [f.value, ast.Constant(f.attr)] + n.args, n.keywords)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        parts = []
        for k, v in zip(n.keys, n.values):
            parts.append(ast.Tuple([v] if k is None else [k, v], ast.Load()))
        return _call('mkdict', parts)

    def visit_DictComp(self, n):
        self.generic_visit(n)
        gen = ast.ListComp(ast.Tuple([n.key, n.value], ast.Load()), n.generators)
        return _call('SymDict', [gen])

    def visit_Set(self, n):
        self.generic_visit(n)
        return _call('mkset', n.elts)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return _call('SymSet', [ast.ListComp(n.elt, n.generators)])

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ast.Constant('') if v.format_spec is None else self.visit(v.format_spec)
                parts.append(_call('fval', [self.visit(v.value), ast.Constant(v.conversion), spec]))
        return _call('fstr', parts)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return _call('mod', [n.left, n.right])
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.target, ast.Name):
            return ast.Assign([n.target], _call('mod', [ast.Name(n.target.id, ast.Load()), n.value]))
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            return _call('contains' if isinstance(n.ops[0], ast.In) else 'not_contains', [n.left, n.comparators[0]])
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            # a chain: each link on its own, intermediate operands evaluated once
            left, links = n.left, []
            for i, (o, c) in enumerate(zip(n.ops, n.comparators)):
                if i < len(n.ops) - 1:
                    self.tmp += 1
                    name = '__chain%d' % self.tmp
                    right, nxt = ast.NamedExpr(ast.Name(name, ast.Store()), c), ast.Name(name, ast.Load())
                else:
                    right, nxt = c, None
                if isinstance(o, (ast.In, ast.NotIn)):
                    links.append(_call('contains' if isinstance(o, ast.In) else 'not_contains', [left, right]))
                else:
                    links.append(ast.Compare(left, [o], [right]))
                left = nxt
            return ast.BoolOp(ast.And(), links)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, (str, bytes)):
            return _call('bound', [n.value, ast.Constant(n.attr)])
        return n

    def visit_MatchClass(self, n):
        # int(x) captures the subject itself only for the real builtin types
        self.generic_visit(n)
        if isinstance(n.cls, ast.Name) and n.cls.id in _SELF_MATCH and len(n.patterns) == 1 and not n.kwd_attrs:
            p = n.patterns[0]
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                inner = ast.MatchClass(n.cls, [], [], [])
                return inner if p.name is None else ast.MatchAs(inner, p.name)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            k = n.slice
            if isinstance(k, ast.Slice):
                k = ast.Call(ast.Name('slice', ast.Load()), [x or ast.Constant(None) for x in (k.lower, k.upper, k.step)],
                             [])
            elif isinstance(k, ast.Tuple) and any(isinstance(e, ast.Slice) for e in k.elts):
                return n
            return _call('getitem', [n.value, k])
        return n


# ------------------------------------------------------------ module facades

class Facade:
    """attributes of a real module, some replaced"""

    def __init__(self, real, **over):
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._real, n)


class StdoutProxy:
    def write(self, s):
        return shims.stdout().write(s)

    def writelines(self, it):
        for x in it:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def close(self):
        pass

    encoding = 'utf-8'

    @property
    def buffer(self):
        raise core.Unsupported('stdout.buffer')


class SysFacade:
    stdout = StdoutProxy()

    def __getattr__(self, n):
        return getattr(sys, n)


class Sha256:
    """SHA-256 replaced by an arbitrary injective function of the content"""
    digest_size = 32
    block_size = 64
    name = 'sha256'

    def __init__(self, data=b'', **k):
        self.el = list(belems(data))

    def update(self, b):
        self.el.extend(belems(b))

    def copy(self):
        h = Sha256()
        h.el = list(self.el)
        return h

    def hexdigest(self):
        if not any(isinstance(e, core.SymInt) for e in self.el):
            d = hashlib.sha256(bytes(self.el)).hexdigest()
        else:
            d = None
        table = core.CUR.shash
        for el, dig in table:
            if bool(text.seq_eq(el, self.el)):
                return dig
        if d is None:
            d = hashlib.sha256(b'symbolic %d' % len(table)).hexdigest()
        table.append((list(self.el), d))
        return d

    def digest(self):
        return bytes.fromhex(self.hexdigest())


class HashFacade:
    def sha256(self, data=b'', **k):
        return Sha256(data)

    def new(self, name, data=b'', **k):
        if name.lower() in ('sha256', 'sha-256'):
            return Sha256(data)
        raise core.Unsupported('hash ' + name)

    def file_digest(self, f, name):
        return self.new(name if isinstance(name, str) else 'sha256', f.read())

    def __getattr__(self, n):
        return getattr(hashlib, n)


class DefaultDict(SymDict):
    def __init__(self, factory=None, *a, **k):
        SymDict.__init__(self, *a, **k)
        self.default_factory = factory


class CounterDict(SymDict):
    def __init__(self, it=()):
        SymDict.__init__(self)
        self.default_factory = int
        for x in it:
            self[x] = self.get(x, 0) + 1

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return r if n is None else r[:n]


class MathFacade:
    def __getattr__(self, n):
        f = getattr(math, n)
        if not callable(f):
            return f

        def g(*a):
            if any(isinstance(x, (core.Sym, f_numpy.SymNp)) for x in a):
                if n in ('isnan', 'isinf'):
                    return getattr(f_numpy, n)(*a)
                if n == 'isfinite':
                    return f_numpy.isfinite(*a)
                if n in ('floor', 'ceil', 'trunc'):
                    v = a[0]
                    if isinstance(v, f_numpy.SymNp):
                        v = v.v
                    if n == 'floor' and isinstance(v, core.SymFloat):
                        return v.floor()
                    if n == 'trunc' and isinstance(v, core.SymFloat):
                        return v.trunc()
                    if n == 'ceil' and isinstance(v, core.SymFloat):
                        return -(-v).floor()
                    if isinstance(v, core.SymInt):
                        return v
                m = {'atan2': 'arctan2', 'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan'}.get(n, n)
                if m in f_numpy._EXPORT:
                    r = f_numpy._EXPORT[m](*a)
                    return r.v if isinstance(r, f_numpy.SymNp) else r
                a = [shims.realise_deep(x) for x in a]
            return f(*a)
        return g


class SymEnumType(enum.EnumType):
    """looking a member up by a symbolic value forks over the members instead of hashing"""

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k and isinstance(a[0], (core.Sym, f_numpy.SymNp)):
            for m in cls:
                if bool(a[0] == m._value_):
                    return m
            raise ValueError('not a valid %s' % cls.__name__)
        return super().__call__(*a, **k)

    def __contains__(cls, v):
        if isinstance(v, (core.Sym, f_numpy.SymNp)):
            return any(bool(v == m._value_) for m in cls)
        return super().__contains__(v)


def enum_facade():
    over = {}
    for n in ('Enum', 'IntEnum', 'StrEnum', 'Flag', 'IntFlag'):
        over[n] = SymEnumType(n, (getattr(enum, n),), SymEnumType.__prepare__(n, (getattr(enum, n),)))
    return Facade(enum, EnumMeta=SymEnumType, EnumType=SymEnumType, **over)


def _no_cache(*a, **k):
    """functools.lru_cache / cache: the result is recomputed instead of looked up by hash"""
    if len(a) == 1 and callable(a[0]) and not k:
        f = a[0]

        @functools.wraps(f)
        def g(*x, **y):
            return f(*x, **y)
        g.cache_clear = lambda: None
        return g
    return _no_cache


def _dispatch(f):
    reg = []

    @functools.wraps(f)
    def g(*a, **k):
        best = None
        for cls, impl in reg:
            if isinstance(a[0], cls) and (best is None or _sub(cls, best[0])):
                best = (cls, impl)
        return (best[1] if best else f)(*a, **k)

    def _sub(a, b):
        ra, rb = getattr(a, '__sym_real__', a), getattr(b, '__sym_real__', b)
        return issubclass(ra, rb)

    def register(cls, impl=None):
        if impl is None:
            if not isinstance(cls, type):
                raise core.Unsupported('singledispatch by annotation')
            return lambda i: register(cls, i)
        reg.append((cls, impl))
        return impl
    g.register = register
    return g


class OperatorFacade:
    def __getattr__(self, n):
        return getattr(operator, n)

    @staticmethod
    def contains(c, x):
        return shims.contains(x, c)

    mod = staticmethod(shims.mod)
    getitem = staticmethod(shims.getitem)

    @staticmethod
    def itemgetter(*ks):
        if len(ks) == 1:
            return lambda o: shims.getitem(o, ks[0])
        return lambda o: tuple(shims.getitem(o, k) for k in ks)

    @staticmethod
    def methodcaller(name, *a, **k):
        return lambda o: shims.mcall(o, name, *a, **k)


class CsvWriter:
    def __init__(self, f, dialect='excel', delimiter=',', quotechar='"', lineterminator='\r\n', quoting=csv.QUOTE_MINIMAL,
                 escapechar=None, doublequote=True, **k):
        if dialect not in ('excel', 'excel-tab', 'unix') or escapechar is not None or not doublequote or k:
            raise core.Unsupported('csv dialect')
        if dialect == 'excel-tab':
            delimiter = '\t'
        if dialect == 'unix':
            lineterminator, quoting = '\n', csv.QUOTE_ALL
        self.f, self.d, self.q, self.lt, self.quoting = f, delimiter, quotechar, lineterminator, quoting

    def field(self, v, only):
        num = shims.isinstance_(v, shims.float_) or shims.isinstance_(v, shims.int_)
        if v is None:
            s = ''
        elif isinstance(v, (str, SymStr)):
            s = v
        else:
            s = text.to_str(v)
        quote = self.quoting == csv.QUOTE_ALL or self.quoting == csv.QUOTE_NONNUMERIC and not num
        if self.quoting == csv.QUOTE_MINIMAL:
            quote = len(s) == 0 and only
            if isinstance(v, (str, SymStr)):
                for ch in (self.d, self.q, '\r', '\n', ' ' if self.d == ' ' else self.d):
                    quote = quote or bool(shims.contains(ch, s))
        if not quote:
            return s
        return text.join('', [self.q, shims.mcall(s, 'replace', self.q, self.q * 2), self.q])

    def writerow(self, row):
        row = list(row)
        return self.f.write(text.join('', [text.join(self.d, [self.field(v, len(row) == 1) for v in row]), self.lt]))

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


class CsvDictWriter:
    def __init__(self, f, fieldnames, restval='', extrasaction='raise', dialect='excel', **k):
        self.names, self.rest, self.w = list(fieldnames), restval, CsvWriter(f, dialect, **k)
        self.extra = extrasaction

    def writeheader(self):
        return self.w.writerow(self.names)

    def writerow(self, d):
        if self.extra == 'raise' and any(k not in self.names for k in d):
            raise ValueError('dict contains fields not in fieldnames')
        return self.w.writerow([d.get(n, self.rest) for n in self.names])

    def writerows(self, ds):
        for d in ds:
            self.writerow(d)


def deepcopy_module():
    return Facade(importlib.import_module('copy'))


def facades():
    io_f = Facade(io, BytesIO=fs.bytesio, StringIO=fs.stringio, open=fs.open_)
    col = Facade(collections, defaultdict=DefaultDict, OrderedDict=SymDict, Counter=CounterDict)
    pl = Facade(importlib.import_module('pathlib'), Path=fs.SymPath, PosixPath=fs.SymPath)
    ft = Facade(functools, lru_cache=_no_cache, cache=_no_cache, singledispatch=_dispatch)
    cs = Facade(csv, writer=CsvWriter, DictWriter=CsvDictWriter)
    return {'functools': ft, 'operator': OperatorFacade(), 'enum': enum_facade(), 'csv': cs, 'struct': f_struct, 'numpy': f_numpy.module, 'os': fs.os_module, 'os.path': fs.os_module.path,
            'io': io_f, 'collections': col, 'pathlib': pl, 'hashlib': HashFacade(), 're': regex.ReFacade(),
            'sqlite3': f_sqlite.module, 'sys': SysFacade(), 'math': MathFacade()}


# ------------------------------------------------------------------- loader

class Loader:
    """One fresh set of module objects per path; code objects are shared.

    root: top-level package name -> directory holding it"""
    _code = {}

    def __init__(self, root, stubs=None):
        self.root = root
        self.mods = {}
        self.stubs = stubs or {}
        self.fac = facades()

    def source_path(self, name):
        rel = name.replace('.', '/')
        root = self.root.get(name.split('.')[0])
        if root is None:
            raise ImportError('no module ' + name, name=name)
        p = os.path.join(root, rel + '.py')
        if os.path.isfile(p):
            return p, False
        p = os.path.join(root, rel, '__init__.py')
        if os.path.isfile(p):
            return p, True
        raise ImportError('no module ' + name, name=name)

    def compile(self, name):
        if name not in self._code:
            path, pkg = self.source_path(name)
            with open(path, encoding='utf-8') as f:
                src = f.read()
            tree = ast.parse(src, path)
            tree = Transform(name).visit(tree)
            ast.fix_missing_locations(tree)
            self._code[name] = (compile(tree, path, 'exec'), path, pkg)
        return self._code[name]

    def load(self, name):
        if name in self.stubs:
            return self.stubs[name]
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        else:
            parent = None
        code, path, pkg = self.compile(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        b = dict(vars(builtins))
        b.update(shims.BUILTINS)
        b['__import__'] = self.imp
        m.__dict__['__builtins__'] = b
        m.__dict__[_S] = shims
        self.mods[name] = m
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name in self.stubs:
            m = self.stubs[name]
            if isinstance(m, BaseException):
                raise m
            if not fromlist:
                top = name.split('.')[0]
                return self.stubs.get(top, m)
            return m
        if name in self.fac:
            m = self.fac[name]
            if not fromlist and '.' in name:
                return self.fac[name.split('.')[0]]
            return m
        if name.split('.')[0] in self.root:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            self.load(name + '.' + f)
                        except ImportError:
                            pass
                return m
            return self.load(name.split('.')[0])
        return builtins.__import__(name, globals, locals, fromlist, 0)
