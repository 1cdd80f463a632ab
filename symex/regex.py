"""Regular expressions over symbolic text.

The parse tree of Python's own regex parser is matched by backtracking, in the order in which the regex engine tries the
alternatives; every test of a symbolic character is a condition on which the execution forks. Concrete text goes to `re`.
"""
import re
import re._constants as K
import re._parser as P

from . import core, text
from .core import SymInt, And, Or, Not, Unsupported, concretize


def _plain(e, limit=127):
    """a code point that is concrete or at most 127"""
    if isinstance(e, SymInt) and e.hi > limit and not bool(e <= limit):
        return concretize(e)
    return e


def _between(e, lo, hi):
    return And(lo <= e, e <= hi)


_SPACE = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32]
_SPACE_A = [9, 10, 11, 12, 13, 32]


class Matcher:
    def __init__(self, pat):
        self.pat = pat
        self.is_str = isinstance(pat.pattern, str)
        self.tree = P.parse(pat.pattern, pat.flags & ~re.UNICODE if not self.is_str else pat.flags)
        self.flags = pat.flags
        if self.flags & re.LOCALE:
            raise Unsupported('locale regex')

    # ---------------------------------------------------------- characters

    def category(self, cat, e, fl):
        ascii_ = not self.is_str or fl & re.ASCII
        neg = cat in (K.CATEGORY_NOT_DIGIT, K.CATEGORY_NOT_SPACE, K.CATEGORY_NOT_WORD)
        if not isinstance(e, SymInt):
            c = chr(e)
            if cat in (K.CATEGORY_DIGIT, K.CATEGORY_NOT_DIGIT):
                r = 48 <= e <= 57 if ascii_ else c.isdecimal()
            elif cat in (K.CATEGORY_SPACE, K.CATEGORY_NOT_SPACE):
                r = e in _SPACE_A if ascii_ else c.isspace()
            else:
                r = c == '_' or c.isalnum() and (not ascii_ or e < 128)
            return r != neg
        if cat in (K.CATEGORY_DIGIT, K.CATEGORY_NOT_DIGIT):
            r = _between(e, 48, 57)
        elif cat in (K.CATEGORY_SPACE, K.CATEGORY_NOT_SPACE):
            r = Or(*[e == x for x in (_SPACE_A if ascii_ else _SPACE)])
        elif cat in (K.CATEGORY_WORD, K.CATEGORY_NOT_WORD):
            r = Or(_between(e, 48, 57), _between(e, 65, 90), _between(e, 97, 122), e == 95)
        else:
            raise Unsupported('regex category %s' % cat)
        return Not(r) if neg else r

    def literal(self, v, e, fl):
        if fl & re.IGNORECASE:
            c = chr(v)
            return Or(*[e == ord(x) for x in {c, c.lower(), c.upper()} if len(x) == 1])
        return e == v

    def char(self, op, av, e, fl):
        """condition under which one element is matched by a node of width one"""
        if op is K.LITERAL or op is K.NOT_LITERAL:
            if fl & re.IGNORECASE:
                e = _plain(e) if self.is_str else e
            r = self.literal(av, e, fl)
            return r if op is K.LITERAL else Not(r)
        if op is K.ANY:
            return True if fl & re.DOTALL else Not(e == 10)
        if op is K.ANY_ALL:
            return True
        if op is K.CATEGORY:
            return self.category(av, self._wide(e, fl), fl)
        assert op is K.IN
        neg, rs = False, []
        for o, v in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                rs.append(self.char(o, v, e, fl))
            elif o is K.RANGE:
                lo, hi = v
                if fl & re.IGNORECASE:
                    e = _plain(e) if self.is_str else e
                    if hi > 127:
                        raise Unsupported('regex range')
                    if isinstance(e, SymInt):
                        rs.append(Or(*[self.literal(x, e, fl) for x in range(lo, hi + 1)]))
                    else:
                        rs.append(bool(re.match('[%s-%s]' % (re.escape(chr(lo)), re.escape(chr(hi))), chr(e), re.I)))
                else:
                    rs.append(_between(e, lo, hi))
            else:
                e = self._wide(e, fl)
                rs.append(self.category(v, e, fl))
        r = Or(*rs)
        return Not(r) if neg else r

    def _wide(self, e, fl):
        return _plain(e) if self.is_str and not fl & re.ASCII else e

    # -------------------------------------------------------------- matching

    WIDTH1 = (K.LITERAL, K.NOT_LITERAL, K.ANY, K.ANY_ALL, K.IN)

    def run(self, el, start, full=False, must_advance=False):
        """(end, groups) of the first match at start, or None"""
        self.el = el
        for end, g in self.seq(list(self.tree), 0, start, {}, self.flags):
            if full and end != len(el):
                continue
            if must_advance and end == start:
                continue
            return end, g
        return None

    def seq(self, nodes, i, p, g, fl):
        if i == len(nodes):
            yield p, g
            return
        op, av = nodes[i]
        if op in self.WIDTH1:
            # no recursion while single characters follow each other
            while True:
                if p >= len(self.el) or not bool(self.char(op, av, self.el[p], fl)):
                    return
                p += 1
                i += 1
                if i == len(nodes):
                    yield p, g
                    return
                op, av = nodes[i]
                if op not in self.WIDTH1:
                    break
        for q, h in self.node(op, av, p, g, fl):
            yield from self.seq(nodes, i + 1, q, h, fl)

    def node(self, op, av, p, g, fl):
        el = self.el
        if op is K.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt), 0, p, g, fl)
        elif op is K.SUBPATTERN:
            n, add, rem, sub = av
            for q, h in self.seq(list(sub), 0, p, g, (fl | add) & ~rem):
                if n is not None:
                    h = dict(h)
                    h[n] = (p, q)
                    h[0] = n
                yield q, h
        elif op is K.ATOMIC_GROUP:
            for q, h in self.seq(list(av), 0, p, g, fl):
                yield q, h
                return
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if op is K.POSSESSIVE_REPEAT:
                for r in self.repeat(sub, lo, hi, p, g, fl, True):
                    yield r
                    return
            else:
                yield from self.repeat(sub, lo, hi, p, g, fl, op is K.MAX_REPEAT)
        elif op is K.AT:
            if self.at(av, p, fl):
                yield p, g
        elif op in (K.ASSERT, K.ASSERT_NOT):
            d, sub = av
            sub = list(sub)
            if d > 0:
                found = next(iter(self.seq(sub, 0, p, g, fl)), None)
            else:
                lo, hi = P.SubPattern(self.tree.state, sub).getwidth()
                found = None
                if lo == hi and p - lo >= 0:
                    for q, h in self.seq(sub, 0, p - lo, g, fl):
                        if q == p:
                            found = (q, h)
                            break
            if op is K.ASSERT and found:
                yield p, found[1]
            elif op is K.ASSERT_NOT and not found:
                yield p, g
        elif op is K.GROUPREF:
            if av in g:
                a, b = g[av]
                if p + b - a <= len(el):
                    for k in range(b - a):
                        if fl & re.IGNORECASE:
                            raise Unsupported('case of a backreference')
                        if not bool(el[a + k] == el[p + k]):
                            return
                    yield p + b - a, g
        elif op is K.GROUPREF_EXISTS:
            n, yes, no = av
            if n in g:
                yield from self.seq(list(yes), 0, p, g, fl)
            elif no is not None:
                yield from self.seq(list(no), 0, p, g, fl)
            else:
                yield p, g
        elif op is K.FAILURE:
            return
        else:
            raise Unsupported('regex %s' % op)

    def repeat(self, sub, lo, hi, p, g, fl, greedy):
        el = self.el
        hi = 1 << 60 if hi is K.MAXREPEAT else hi
        if len(sub) == 1 and sub[0][0] in self.WIDTH1:
            op, av = sub[0]
            n = 0
            if greedy:
                while n < hi and p + n < len(el) and bool(self.char(op, av, el[p + n], fl)):
                    n += 1
                while n >= lo:
                    yield p + n, g
                    n -= 1
            else:
                while True:
                    if n >= lo:
                        yield p + n, g
                    if n >= hi or p + n >= len(el) or not bool(self.char(op, av, el[p + n], fl)):
                        return
                    n += 1
            return
        yield from self.rep(sub, lo, hi, p, g, fl, greedy, 0, -1)

    def rep(self, sub, lo, hi, p, g, fl, greedy, n, last):
        if n >= lo and not greedy:
            yield p, g
        if n < hi and not (n >= lo and p == last):
            for q, h in self.seq(sub, 0, p, g, fl):
                yield from self.rep(sub, lo, hi, q, h, fl, greedy, n + 1, p)
        if n >= lo and greedy:
            yield p, g

    def at(self, av, p, fl):
        el, n = self.el, len(self.el)
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            if p == 0:
                return True
            return av is K.AT_BEGINNING and bool(fl & re.MULTILINE) and bool(el[p - 1] == 10)
        if av is K.AT_END_STRING:
            return p == n
        if av is K.AT_END:
            if p == n:
                return True
            if fl & re.MULTILINE or p == n - 1:
                return bool(el[p] == 10)
            return False
        if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
            if n == 0:
                return False
            def word(k):
                return 0 <= k < n and bool(self.category(K.CATEGORY_WORD, self._wide(el[k], fl), fl))
            return (word(p - 1) != word(p)) == (av is K.AT_BOUNDARY)
        raise Unsupported('regex %s' % av)


class Match:
    def __init__(self, pat, s, el, start, end, groups):
        self.re, self.string, self._el = pat, s, el
        self._g = dict(groups)
        self.lastindex = self._g.pop(0, None)
        self._g[0] = (start, end)
        self.pos, self.endpos = 0, len(el)

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def _n(self, k):
        if isinstance(k, str):
            if k not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[k]
        if not 0 <= k <= self.re.groups:
            raise IndexError('no such group')
        return k

    def span(self, k=0):
        return self._g.get(self._n(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        k = self._n(k)
        if k not in self._g:
            return default
        a, b = self._g[k]
        return _make(self.re, self._el[a:b])

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.re.groupindex.items()}

    def expand(self, template):
        return _make(self.re, _expand(self.re, template)(self))


def _make(pat, el):
    return text.mkstr(el) if isinstance(pat.pattern, str) else text.mkbytes(el)


def _elems(pat, s):
    el = text.selems(s) if isinstance(pat.pattern, str) else text.belems(s)
    if el is None:
        raise TypeError('cannot use this pattern on this object')
    if isinstance(s, text.SymStr):
        el = s._flat().el
    return el


def _expand(pat, repl):
    """template -> function of a match that gives elements"""
    if isinstance(repl, (text.SymStr, text.SymBytesBase)):
        raw = _elems(pat, repl)
        for e in raw:
            if bool(e == 92):
                raise Unsupported('symbolic template')
        return lambda m: raw
    parts = P.parse_template(repl, pat)

    def f(m):
        out = []
        for x in parts:
            if isinstance(x, int):
                v = m._one(x)
                out += _elems(pat, v) if v is not None else []
            else:
                out += [ord(ch) for ch in x] if isinstance(x, str) else list(x)
        return out
    return f


class SymPattern:
    """a compiled pattern; concrete arguments go to the real one"""

    def __init__(self, pat):
        self._p = pat
        self._m = None

    def __getattr__(self, n):
        return getattr(self._p, n)

    def __eq__(self, o):
        return self._p == (o._p if isinstance(o, SymPattern) else o)

    def __hash__(self):
        return hash(self._p)

    def _matcher(self):
        if self._m is None:
            self._m = Matcher(self._p)
        return self._m

    def _cut(self, s, pos, endpos):
        el = _elems(self._p, s)
        if pos or endpos is not None:
            raise Unsupported('pos of a regex search')
        return el

    def _sym(self, s):
        return isinstance(s, core.Sym)

    def _at(self, s, el, start, full=False, adv=False):
        r = self._matcher().run(el, start, full, adv)
        return None if r is None else Match(self._p, s, el, start, r[0], r[1])

    def _find(self, s, el, start, adv=False):
        for k in range(start, len(el) + 1):
            m = self._at(s, el, k, adv=adv and k == start)
            if m is not None:
                return m
        return None

    def match(self, string, pos=0, endpos=None):
        if not self._sym(string):
            return self._p.match(string, *_pos(pos, endpos))
        return self._at(string, self._cut(string, pos, endpos), 0)

    def fullmatch(self, string, pos=0, endpos=None):
        if not self._sym(string):
            return self._p.fullmatch(string, *_pos(pos, endpos))
        return self._at(string, self._cut(string, pos, endpos), 0, full=True)

    def search(self, string, pos=0, endpos=None):
        if not self._sym(string):
            return self._p.search(string, *_pos(pos, endpos))
        return self._find(string, self._cut(string, pos, endpos), 0)

    def _iter(self, s, el):
        k, adv = 0, False
        while k <= len(el):
            m = self._find(s, el, k, adv)
            if m is None:
                return
            yield m
            adv = m.end() == m.start()
            k = m.end()

    def finditer(self, string, pos=0, endpos=None):
        if not self._sym(string):
            return self._p.finditer(string, *_pos(pos, endpos))
        return iter(list(self._iter(string, self._cut(string, pos, endpos))))

    def findall(self, string, pos=0, endpos=None):
        if not self._sym(string):
            return self._p.findall(string, *_pos(pos, endpos))
        empty = '' if isinstance(self._p.pattern, str) else b''
        out = []
        for m in self._iter(string, self._cut(string, pos, endpos)):
            g = m.groups(empty)
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def split(self, string, maxsplit=0):
        if not self._sym(string):
            return self._p.split(string, maxsplit)
        el = _elems(self._p, string)
        out, last, n = [], 0, 0
        for m in self._iter(string, el):
            if maxsplit and n >= maxsplit:
                break
            out.append(_make(self._p, el[last:m.start()]))
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(_make(self._p, el[last:]))
        return out

    def subn(self, repl, string, count=0):
        if not self._sym(string) and not self._sym(repl) and not callable(repl):
            return self._p.subn(repl, string, count)
        el = _elems(self._p, string)
        if callable(repl):
            def f(m):
                return _elems(self._p, repl(m))
        else:
            f = _expand(self._p, repl)
        out, last, n = [], 0, 0
        for m in self._iter(string, el):
            if count and n >= count:
                break
            out += el[last:m.start()] + f(m)
            last = m.end()
            n += 1
        return _make(self._p, out + el[last:]), n

    def sub(self, repl, string, count=0):
        if not self._sym(string) and not self._sym(repl) and not callable(repl):
            return self._p.sub(repl, string, count)
        return self.subn(repl, string, count)[0]


def _pos(pos, endpos):
    return (pos,) if endpos is None else (pos, endpos)


_cache = {}


def pattern(p, flags=0):
    if isinstance(p, SymPattern):
        return p
    if isinstance(p, core.Sym):
        p = p.realise()
    k = (type(p), p, int(flags))
    if k not in _cache:
        _cache[k] = SymPattern(re.compile(p, flags))
    return _cache[k]


class ReFacade:
    """the module re"""

    def __getattr__(self, n):
        return getattr(re, n)

    def compile(self, p, flags=0):
        return pattern(p, flags)

    def match(self, p, s, flags=0):
        return pattern(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return pattern(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return pattern(p, flags).search(s)

    def findall(self, p, s, flags=0):
        return pattern(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return pattern(p, flags).finditer(s)

    def split(self, p, s, maxsplit=0, flags=0):
        return pattern(p, flags).split(s, maxsplit)

    def sub(self, p, repl, s, count=0, flags=0):
        return pattern(p, flags).sub(repl, s, count)

    def subn(self, p, repl, s, count=0, flags=0):
        return pattern(p, flags).subn(repl, s, count)

    def escape(self, s):
        return re.escape(s.realise() if isinstance(s, core.Sym) else s)
