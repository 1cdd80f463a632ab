"""Dictionaries and sets that accept symbolic keys (insertion ordered).

Keys are pairwise different on the current path: every insertion or lookup of a
key that may equal a stored one forks on that equality.
"""
import collections.abc
from . import core, text
from .core import Sym, And, Not

_MISS = object()


def is_symkey(k):
    if isinstance(k, Sym):
        return True
    if isinstance(k, tuple):
        return any(is_symkey(i) for i in k)
    return hasattr(type(k), '__sym_key__')


def key_eq(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[key_eq(x, y) for x, y in zip(a, b)])
    r = a == b
    if r is NotImplemented:
        return False
    return r


def norm_key(k):
    f = getattr(type(k), '__sym_key__', None)
    if f is not None:
        return f(k)
    return k


class Table:
    """slots: list of [key, value] in insertion order, or None when deleted"""

    def __init__(self):
        self.slots = []
        self.conc = {}      # concrete key -> slot number
        self.sym = []       # slot numbers with symbolic keys
        self.n = 0

    def find(self, k):
        if isinstance(k, text.SymBytearray):
            raise TypeError("unhashable type: 'bytearray'")
        k = norm_key(k)
        if not is_symkey(k):
            i = self.conc.get(k)
            if i is not None:
                return i
            cand = self.sym
        else:
            cand = [i for i, s in enumerate(self.slots) if s is not None]
        for i in cand:
            if bool(key_eq(self.slots[i][0], k)):
                return i
        return None

    def put(self, k, v):
        i = self.find(k)
        if i is None:
            self.slots.append([k, v])
            nk = norm_key(k)
            if is_symkey(nk):
                self.slots[-1][0] = nk
                self.sym.append(len(self.slots) - 1)
            else:
                self.conc[nk] = len(self.slots) - 1
            self.n += 1
        else:
            self.slots[i][1] = v

    def drop(self, i):
        k, v = self.slots[i]
        self.slots[i] = None
        if i in self.sym:
            self.sym.remove(i)
        else:
            del self.conc[norm_key(k)]
        self.n -= 1
        return k, v

    def live(self):
        return [s for s in self.slots if s is not None]


def _subset(a, b):
    return all([x in b for x in a])


class DictView:
    def __le__(self, o):
        return len(self) <= len(o) and _subset(self, o)

    def __lt__(self, o):
        return len(self) < len(o) and _subset(self, o)

    def __ge__(self, o):
        return len(self) >= len(o) and _subset(o, self)

    def __gt__(self, o):
        return len(self) > len(o) and _subset(o, self)

    def __init__(self, d, f):
        self.d = d
        self.f = f

    def __iter__(self):
        n = self.d.t.n
        for s in list(self.d.t.slots):
            if s is None:
                continue
            if self.d.t.n != n:
                raise RuntimeError('dictionary changed size during iteration')
            yield self.f(s)

    def __len__(self):
        return self.d.t.n

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __contains__(self, x):
        if self.f is _key:
            return x in self.d
        for y in self:
            if bool(key_eq(x, y)):
                return True
        return False

    def __eq__(self, o):
        a, b = list(self), list(o)
        if len(a) != len(b):
            return False
        for x in a:
            for y in b:
                if bool(key_eq(x, y)):
                    break
            else:
                return False
        return True

    def __ne__(self, o):
        return not self == o

    def _set(self):
        return SymSet(self)

    def __and__(self, o):
        return self._set() & o

    def __or__(self, o):
        return self._set() | o

    def __sub__(self, o):
        return self._set() - o

    def __xor__(self, o):
        return self._set() ^ o

    def __rsub__(self, o):
        return SymSet(o) - self

    __rand__ = __and__
    __ror__ = __or__

    def isdisjoint(self, o):
        return self._set().isdisjoint(o)

    def __repr__(self):
        return 'dict_view(%r)' % (list(self),)


def _key(s):
    return s[0]


def _val(s):
    return s[1]


def _item(s):
    return (s[0], s[1])


class SymDict:
    default_factory = None

    def __init__(self, *a, **kw):
        self.t = Table()
        self.update(*a, **kw)

    def update(self, *a, **kw):
        if a:
            src = a[0]
            if hasattr(src, 'keys'):
                for k in src.keys():
                    self.t.put(k, src[k])
            else:
                for k, v in src:
                    self.t.put(k, v)
        for k, v in kw.items():
            self.t.put(k, v)

    def __getitem__(self, k):
        i = self.t.find(k)
        if i is None:
            return self.__missing__(k)
        return self.t.slots[i][1]

    def __missing__(self, k):
        if self.default_factory is not None:
            v = self.default_factory()
            self.t.put(k, v)
            return v
        raise KeyError(k)

    def __setitem__(self, k, v):
        self.t.put(k, v)

    def __delitem__(self, k):
        i = self.t.find(k)
        if i is None:
            raise KeyError(k)
        self.t.drop(i)

    def __contains__(self, k):
        return self.t.find(k) is not None

    def __len__(self):
        return self.t.n

    def __iter__(self):
        return iter(DictView(self, _key))

    def __reversed__(self):
        return reversed(DictView(self, _key))

    def get(self, k, d=None):
        i = self.t.find(k)
        return d if i is None else self.t.slots[i][1]

    def keys(self):
        return DictView(self, _key)

    def values(self):
        return DictView(self, _val)

    def items(self):
        return DictView(self, _item)

    def setdefault(self, k, d=None):
        i = self.t.find(k)
        if i is not None:
            return self.t.slots[i][1]
        self.t.put(k, d)
        return d

    def pop(self, k, d=_MISS):
        i = self.t.find(k)
        if i is None:
            if d is _MISS:
                raise KeyError(k)
            return d
        return self.t.drop(i)[1]

    def popitem(self):
        for i in range(len(self.t.slots) - 1, -1, -1):
            if self.t.slots[i] is not None:
                kv = self.t.drop(i)
                del self.t.slots[i:]
                return kv
        raise KeyError('popitem(): dictionary is empty')

    def clear(self):
        self.t = Table()

    def copy(self):
        r = SymDict()
        for k, v in self.items():
            r.t.put(k, v)
        r.default_factory = self.default_factory
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        r = SymDict()
        for k, v in self.items():
            r.t.put(k, copy.deepcopy(v, memo))
        r.default_factory = self.default_factory
        return r

    def move_to_end(self, k, last=True):
        v = self.pop(k)
        if last:
            self[k] = v
        else:
            rest = list(self.items())
            self.clear()
            self[k] = v
            self.update(rest)

    @staticmethod
    def fromkeys(it, v=None):
        return SymDict([(k, v) for k in it])

    def __eq__(self, o):
        if not isinstance(o, (SymDict, dict)):
            return NotImplemented
        if len(self) != len(o):
            return False
        if isinstance(o, dict):
            o = SymDict(o)
        for k, v in self.items():
            w = o.get(k, _MISS)
            if w is _MISS:
                return False
            if v is w:
                continue
            if not (v == w):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return 'SymDict(%r)' % (list(self.items()),)

    def __sym_str__(self, mode='str'):
        if not self.t.n:
            return '{}'
        inner = text.join(', ', [text.to_str(k, 'repr') + ': ' + text.to_str(v, 'repr') for k, v in self.items()])
        return '{' + inner + '}'


collections.abc.MutableMapping.register(SymDict)


class SymSet:
    def __init__(self, it=()):
        self.t = Table()
        for x in it:
            self.t.put(x, None)

    def __contains__(self, k):
        return self.t.find(k) is not None

    def __len__(self):
        return self.t.n

    def __iter__(self):
        n = self.t.n
        for s in list(self.t.slots):
            if s is None:
                continue
            if self.t.n != n:
                raise RuntimeError('Set changed size during iteration')
            yield s[0]

    def add(self, x):
        self.t.put(x, None)

    def discard(self, x):
        i = self.t.find(x)
        if i is not None:
            self.t.drop(i)

    def remove(self, x):
        i = self.t.find(x)
        if i is None:
            raise KeyError(x)
        self.t.drop(i)

    def pop(self):
        for i, s in enumerate(self.t.slots):
            if s is not None:
                return self.t.drop(i)[0]
        raise KeyError('pop from an empty set')

    def clear(self):
        self.t = Table()

    def copy(self):
        return SymSet(self)

    __copy__ = copy

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = SymSet(self)
        r.update(*its)
        return r

    def intersection(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return SymSet([x for x in self if x in o])

    def difference(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return SymSet([x for x in self if x not in o])

    def symmetric_difference(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return SymSet([x for x in self if x not in o] + [x for x in o if x not in self])

    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    __or__ = union
    __and__ = intersection
    __sub__ = difference
    __xor__ = symmetric_difference
    __le__ = issubset
    __ge__ = issuperset

    def __ror__(self, o):
        return SymSet(o) | self

    def __rand__(self, o):
        return SymSet(o) & self

    def __rsub__(self, o):
        return SymSet(o) - self

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    def __iand__(self, o):
        keep = self & o
        self.t = keep.t
        return self

    def __lt__(self, o):
        return len(self) < len(o) and self <= o

    def __gt__(self, o):
        return len(self) > len(o) and self >= o

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and all(x in self for x in o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return 'SymSet(%r)' % (list(self),)
