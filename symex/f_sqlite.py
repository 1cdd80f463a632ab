"""sqlite3 facade: the real SQLite engine runs every statement; symbolic bound
values travel through it as unique placeholders and are mapped back on
retrieval, after the affinity conversion the column applied to them.

Within one bind position (same SQL text, same parameter index) integer
placeholders are ordered, and equal values share one, exactly as on the current
path (forks), so ORDER BY / DISTINCT / UNIQUE behave.
"""
import ast
import os
import re
import shutil
import sqlite3 as _sq
import tempfile
from . import core, text, fs
from .core import Sym, SymInt, SymFloat, SymBool, as_int, concretize, Not, And
from .text import SymStr, SymBytesBase, mkbytes
from .f_numpy import SymNp, SymArray

BASE = 1 << 45
GAP = 1 << 24
GROUP_MAX = 3


def scratch():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='verif_sq_', dir=base)


class Store:
    def __init__(self):
        self.by_int = {}      # placeholder int -> value
        self.by_text = {}     # text -> value
        self.by_float = {}
        self.by_blob = {}
        self.groups = {}
        self.n = 0
        self.dir = None
        self.files = {}

    def path(self, p):
        """real file standing for the virtual database path"""
        v = fs.cur()
        if not isinstance(p, (str, SymStr)):
            p = os.fspath(p)
        if p == ':memory:':
            return p
        p = v.norm(p)
        if isinstance(p, SymStr):
            p = p.realise()
        if p not in self.files:
            if self.dir is None:
                self.dir = scratch()
                core.CUR.scope.setdefault('cleanup', []).append(self.dir)
            self.files[p] = os.path.join(self.dir, 'db%d.sqlite3' % len(self.files))
        return self.files[p]


def store():
    sc = core.CUR.scope
    if 'sqlite' not in sc:
        sc['sqlite'] = Store()
    return sc['sqlite']


def virtual_exists(p):
    st = core.CUR.scope.get('sqlite')
    return st is not None and p in st.files and os.path.exists(st.files[p])


_LIT = None


def literals():
    """integer and text literals that the SQL of the code under test compares with"""
    global _LIT
    if _LIT is None:
        ints, texts = set(), set()
        for base, _, names in os.walk(os.path.join(os.environ.get('SYMEX_REPO', '/repo'), 'pyulog')):
            for n in names:
                if not n.endswith(('.py', '.sql')):
                    continue
                with open(os.path.join(base, n), encoding='utf8', errors='ignore') as f:
                    src = f.read()
                if n.endswith('.py'):
                    try:
                        tree = ast.parse(src)
                    except SyntaxError:
                        continue
                    src = ';'.join(x.value for x in ast.walk(tree) if isinstance(x, ast.Constant)
                                   and isinstance(x.value, str) and _SQL.search(x.value))
                else:
                    src = re.sub(r'--.*', '', src)
                for m in _CMP.finditer(src):
                    for lit in re.findall(r"'[^']*'|-?[0-9]+", m.group(2)):
                        if lit[0] == "'":
                            texts.add(lit[1:-1])
                        else:
                            ints.add(int(lit))
        _LIT = sorted(ints), sorted(texts)
    return _LIT


_SQL = re.compile(r'(?i)\b(select\b.*\bfrom|insert\b.*\binto|update\b.*\bset|delete\s+from|create\s+(table|index|trigger|view)|'
                  r'where\s.*[=<>?])', re.S)
_OPND = r"'[^']*'|-?[0-9]+\b(?!\.)"
_CMP = re.compile(r"(?i)(<>|!=|<=|>=|==?|<|>|\bin\b|\bis\b(?: +not\b)?|\bbetween\b|\bthen\b|\bwhen\b|\blike\b|"
                  r"\band\b)\s*(\(?(?:%s)(?:\s*,\s*(?:%s))*)" % (_OPND, _OPND))


def _region(v):
    """where v lies among the literals: (value, None) or (None, range of placeholders)"""
    lits = literals()[0]
    lo, hi = None, None
    for x in lits:
        if bool(v == x):
            return x, None
        if bool(v < x):
            hi = x
            break
        lo = x
    if hi is None:
        return None, (max(BASE, (lo or 0) + 1), BASE + (1 << 44))
    if lo is None:
        top = min(-BASE, hi - 1)
        return None, (top - (1 << 44), top)
    if hi - lo > 4 * GAP:
        return None, (lo + 1, hi - 1)
    return concretize(v), None


def _place_int(st, v, group):
    where = None
    if literals()[0]:
        x, where = _region(v)
        if where is None:
            return x
        group = group + where
    g = st.groups.setdefault(('i',) + group, [])
    lo, hi = where or (BASE, BASE + (1 << 44))
    if len(g) < GROUP_MAX:
        a, b = 0, len(g)
        while a < b:
            m = (a + b) // 2
            if bool(v == g[m][1]):
                return g[m][0]
            if bool(v < g[m][1]):
                b = m
            else:
                a = m + 1
        left = g[a - 1][0] if a > 0 else lo
        right = g[a][0] if a < len(g) else hi
        ph = (left + right) // 2 + st.n
    else:
        for ph, w in g:
            if w is v or (isinstance(w, SymInt) and w.e.eq(v.e)):
                return ph
        a = len(g)
        ph = (lo + 2 * st.n + 1) if where else BASE + (1 << 46) + st.n * 2
    st.n += 1
    while ph in st.by_int:
        ph += 1
    g.insert(a, (ph, v))
    st.by_int[ph] = v
    st.by_text[str(ph)] = v
    return ph


def _place_text(st, v, group):
    for x in literals()[1]:
        if bool(v == x):
            return x
    g = st.groups.setdefault(('s',) + group, [])
    # long or computed texts are never compared by a statement
    if len(g) < GROUP_MAX and len(v.el) <= 64 and not any(isinstance(e, text.Tok) for e in v.el):
        for ph, w in g:
            if bool(v == w):
                return ph
    ph = '"\ue000PH%d"' % st.n
    st.n += 1
    g.append((ph, v))
    st.by_text[ph] = v
    return ph


def _check_json(sql, idx, v):
    """the text bound to a json(?) must be JSON"""
    pos, k = -1, -1
    if isinstance(idx, str):
        pos = sql.find(':' + idx)
        k = idx
    while k != idx:
        pos = sql.find('?', pos + 1)
        if pos < 0:
            return
        k += 1
    if sql[:pos].rstrip().lower().endswith('json('):
        out = []
        for e in v.el:
            if isinstance(e, text.Tok):
                out.append('1' if e.kind[0] == 'd' else '1.5')
            elif isinstance(e, SymInt):
                out.append(chr(concretize(e)))
            else:
                out.append(chr(e))
        con = _sq.connect(':memory:')
        try:
            con.execute('select json(?)', (''.join(out),)).fetchone()
        finally:
            con.close()


def bind(sql, idx, v):
    st = store()
    group = (sql, idx)
    if isinstance(v, SymNp):
        if v.dt.kind == 'f' and v.dt.itemsize == 8:
            v = v.v
        else:
            raise _sq.ProgrammingError("Error binding parameter %d: type 'numpy.%s' is not supported" % (
                idx + 1, v.dt.name))
    if isinstance(v, SymArray):
        v = v.tobytes()
    if isinstance(v, SymBool):
        return int(bool(v))
    if isinstance(v, SymInt):
        if v.hi > (1 << 63) - 1 and not (v <= (1 << 63) - 1):
            raise OverflowError('Python int too large to convert to SQLite INTEGER')
        if v.lo < -(1 << 63) and not (v >= -(1 << 63)):
            raise OverflowError('Python int too large to convert to SQLite INTEGER')
        v = core.mkint(v.e, max(v.lo, -(1 << 63)), min(v.hi, (1 << 63) - 1))
        if not isinstance(v, SymInt):
            return v
        if not _is_insert(sql):
            # a comparison inside the engine: settle which stored value it equals
            for ph, w in list(st.by_int.items()):
                if bool(v == w):
                    return ph
            return concretize(v)
        return _place_int(st, v, group)
    if isinstance(v, SymFloat):
        if bool(v.isnan()):
            return None
        f = v._frac()
        if f is not None:
            return float(f)
        ph = 1.5e300 + st.n * 1e290
        st.n += 1
        st.by_float[ph] = v
        con = _sq.connect(':memory:')
        t, = con.execute('select cast(? as text)', (ph,)).fetchone()
        con.close()
        st.by_text[t] = v
        return ph
    if isinstance(v, SymStr):
        _check_json(sql, idx, v)
        if not _is_insert(sql):
            for ph, w in list(st.by_text.items()):
                if isinstance(w, SymStr) and bool(v == w):
                    return ph
            return v.realise()
        return _place_text(st, v, group)
    if isinstance(v, SymBytesBase):
        ph = b'\xfe\xfdPH%d' % st.n
        st.n += 1
        st.by_blob[ph] = mkbytes(v.el)
        return ph
    if isinstance(v, Sym):
        raise _sq.ProgrammingError('type not supported')
    return v


def _is_insert(sql):
    return sql.lstrip()[:6].upper() in ('INSERT', 'REPLAC')


def unbind(v):
    st = store()
    if isinstance(v, int):
        return st.by_int.get(v, v)
    if isinstance(v, float):
        if v in st.by_float:
            return st.by_float[v]
        if v.is_integer() and int(v) in st.by_int:
            w = st.by_int[int(v)]
            if not (w <= 1 << 53) or not (w >= -(1 << 53)):
                # REAL affinity rounds: hand back what the double holds
                return float(concretize(w))
            return SymFloat.of_int(w)
        return v
    if isinstance(v, str):
        w = st.by_text.get(v)
        if w is None:
            return v
        if isinstance(w, SymStr):
            return w
        return text.to_str(w)
    if isinstance(v, bytes):
        return st.by_blob.get(v, v)
    return v


def _bind_row(sql, params):
    if hasattr(params, 'keys'):
        return {k: bind(sql, k, params[k]) for k in params.keys()}
    return tuple(bind(sql, i, v) for i, v in enumerate(params))


def _plain(sql):
    return sql.realise() if isinstance(sql, SymStr) else sql


class Cursor:
    def __init__(self, con, cur=None):
        self.connection = con
        self._c = cur if cur is not None else con._con.cursor()

    def execute(self, sql, params=()):
        core.CUR.step()
        sql = _plain(sql)
        self._c.execute(sql, _bind_row(sql, params))
        return self

    def executemany(self, sql, rows):
        core.CUR.step()
        sql = _plain(sql)
        out = []
        for r in rows:
            out.append(_bind_row(sql, r))
        self._c.executemany(sql, out)
        return self

    def executescript(self, sql):
        core.CUR.step()
        self._c.executescript(_plain(sql))
        return self

    def _row(self, r):
        if r is None:
            return None
        if isinstance(r, tuple):
            return tuple(unbind(v) for v in r)
        return {k: unbind(r[k]) for k in r.keys()}

    def fetchone(self):
        return self._row(self._c.fetchone())

    def fetchall(self):
        return [self._row(r) for r in self._c.fetchall()]

    def fetchmany(self, *a):
        return [self._row(r) for r in self._c.fetchmany(*a)]

    def __iter__(self):
        for r in self._c:
            yield self._row(r)

    def __next__(self):
        return self._row(next(self._c))

    @property
    def lastrowid(self):
        return self._c.lastrowid

    @property
    def rowcount(self):
        return self._c.rowcount

    @property
    def description(self):
        return self._c.description

    def close(self):
        self._c.close()


class Connection:
    def __init__(self, con):
        self._con = con

    def cursor(self, *a):
        return Cursor(self)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executemany(self, sql, rows):
        return self.cursor().executemany(sql, rows)

    def executescript(self, sql):
        return self.cursor().executescript(sql)

    def commit(self):
        self._con.commit()

    def rollback(self):
        self._con.rollback()

    def close(self):
        self._con.close()

    def __enter__(self):
        self._con.__enter__()
        return self

    def __exit__(self, *a):
        return self._con.__exit__(*a)

    @property
    def row_factory(self):
        return self._con.row_factory

    @row_factory.setter
    def row_factory(self, f):
        self._con.row_factory = f

    def __getattr__(self, n):
        return getattr(self._con, n)

    def __setattr__(self, n, v):
        if n in ('isolation_level', 'text_factory'):
            setattr(self._con, n, v)
        else:
            object.__setattr__(self, n, v)


def connect(database, *a, **k):
    if 'factory' in k:
        k.pop('factory')
    con = _sq.connect(store().path(database), *a, **k)
    con.execute('PRAGMA synchronous=off')
    con.execute('PRAGMA journal_mode=memory') if False else None
    core.CUR.scope.setdefault('conns', []).append(con)
    return Connection(con)


class _Module:
    __name__ = 'sqlite3'
    connect = staticmethod(connect)
    Connection = Connection
    Cursor = Cursor

    def __getattr__(self, n):
        return getattr(_sq, n)


module = _Module()


def cleanup(scope):
    for c in scope.get('conns', []):
        try:
            c.close()
        except Exception:
            pass
    for d in scope.get('cleanup', []):
        shutil.rmtree(d, ignore_errors=True)
