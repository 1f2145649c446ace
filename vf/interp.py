"""Operations inserted into the code under test by the loader: calls, subscript
loads and membership tests that may involve symbolic values."""
import builtins
import collections
import functools
import math
import operator
import sys
import types
import numpy as np
from .sym import (SymInt, SymBool, Unsupported, band, bor, bnot, ite, eng, is_sym, merge, rng, FORMAT_CONCRETE)
from .symbytes import SymBytes, SymStr, join as bjoin, elems, le_int, be_int
from .symfloat import SymFloat, from_int, isnan as f_isnan
from . import symnp
from .symnp import SymArray, SA

SYM = (SymInt, SymBool, SymFloat, SymBytes, SymStr, SymArray)


class LazyStr(str):
    """Text that contains symbolic values; resolved only where it matters."""
    def __new__(cls, thunk, pieces=None):
        s = str.__new__(cls, '\ue000sym\ue000')
        s.thunk = thunk
        s._pieces = pieces
        return s

    def pieces(self):
        """What the text is made of (see pieces_of), None if not known."""
        if callable(self._pieces):
            self._pieces = self._pieces()
        return self._pieces

    def force(self):
        old = FORMAT_CONCRETE[0]
        FORMAT_CONCRETE[0] = True
        try:
            r = self.thunk()
            if isinstance(r, LazyStr):
                r = r.force()
            return r
        finally:
            FORMAT_CONCRETE[0] = old

    def __add__(self, o):
        return LazyStr(lambda: fstr(self) + fstr(o), lambda: cat([pieces_of(self), pieces_of(o)]))

    def __radd__(self, o):
        return LazyStr(lambda: fstr(o) + fstr(self), lambda: cat([pieces_of(o), pieces_of(self)]))

    def __eq__(self, o):
        return self.force() == fstr(o)

    def __ne__(self, o):
        return self.force() != fstr(o)

    def __hash__(self):
        return hash(self.force())

    def __len__(self):
        return len(self.force())

    def __bool__(self):
        return len(self.force()) > 0

    def __getitem__(self, i):
        return self.force()[i]

    def __iter__(self):
        return iter(self.force())

    def __contains__(self, x):
        return x in self.force()

    def __format__(self, spec):
        if FORMAT_CONCRETE[0]:
            return format(self.force(), spec)
        return '\ue000sym\ue000'

    def __str__(self):
        if FORMAT_CONCRETE[0]:
            return self.force()
        return self

    def __repr__(self):
        if FORMAT_CONCRETE[0]:
            return repr(self.force())
        return '\ue000sym\ue000'

    def encode(self, *a):
        return self.force().encode(*a)


for _m in 'strip lstrip rstrip split rsplit splitlines startswith endswith lower upper count find index replace partition rpartition ljust rjust center zfill isdigit title capitalize join format'.split():
    def _mk(n):
        def f(self, *a, **k):
            return getattr(self.force(), n)(*a, **k)
        return f
    setattr(LazyStr, _m, _mk(_m))


def fstr(x):
    if isinstance(x, LazyStr):
        return x.force()
    if isinstance(x, SymStr):
        return x.force()
    return x


def cat(ps):
    out = []
    for p in ps:
        if p is None:
            return None
        out += p
    return out


def np_binary_repr(num, width=None):
    if not isinstance(num, SymInt):
        return np.binary_repr(num, width)
    fits = width is not None and (num < 1 << width)
    if num >= 0:
        if fits or width is None:
            t = [(num, '0%db' % (width or 1))]
            return LazyStr(lambda: format(int(num), t[0][1]), t)
        raise ValueError('Insufficient bit width=%d provided for binwidth' % width)
    if width is None:
        t = ['-', (-num, 'b')]
        return LazyStr(lambda: format(int(num), 'b'), t)
    if num >= -(1 << width - 1):
        n = num + (1 << width)
        return LazyStr(lambda: format(int(n), 'b'), [(n, '0%db' % width)])
    raise ValueError('Insufficient bit width=%d provided for binwidth' % width)


symnp.NumpyFacade.binary_repr = staticmethod(np_binary_repr)


def pieces_of(v, conv=None, spec=''):
    """format(v, spec) as a list of str, SymStr and (symbolic value, spec); None if it
    cannot be said in that form."""
    if isinstance(spec, (LazyStr, SymStr)):
        return None
    conv = conv or None
    if conv in ('s', 'a') and not spec and isinstance(v, SYM + (str, SymDate)):
        conv = None if conv == 's' else conv
    if isinstance(v, (LazyStr, SymStr)) and conv is None:
        if spec:
            return None
        return v.pieces() if isinstance(v, LazyStr) else [v]
    if isinstance(v, SymBool):
        v = bool(v)
    if isinstance(v, (SymInt, SymFloat)):
        if conv == 'r' and isinstance(v, SymInt):
            conv = None
        return None if conv else [(v, spec)]
    if isinstance(v, SymDate):
        return None if conv or not spec else [(v, spec)]
    if isinstance(v, (SymArray, SymBytes, SymStr)):
        return None
    if not has_sym(v):
        v = {'r': repr, 's': str, 'a': ascii}[conv](v) if conv else v
        return [format(v, spec)]
    if getattr(type(v), '__module__', '').startswith('eventio'):
        t = {'r': repr, 's': str}[conv](v) if conv in ('r', 's') else format(v, spec)
        if isinstance(t, LazyStr):
            return None if conv and spec else t.pieces()
        return [t]
    if type(v) in (list, tuple) and conv is None and not spec:
        inner = cat([pieces_of(x, 'r') + [', '] if pieces_of(x, 'r') is not None else None for x in v])
        if inner is None:
            return None
        if type(v) is list or len(v) > 1:
            inner = inner[:-1]
        return ['[' if type(v) is list else '('] + inner + [']' if type(v) is list else ')']
    if type(v) is dict and conv in (None, 's', 'r') and not spec:
        out = ['{']
        for i, (k, x) in enumerate(v.items()):
            p = [pieces_of(y, 'r') or [(LazyStr(lambda y=y: fstr(format(y, ''))), None)] for y in (k, x)]
            out += [', '] * (i > 0) + p[0] + [': '] + p[1]
        return out + ['}']
    return None


def format_pieces(text, a, k):
    """str.format"""
    import string
    out, n = [], 0
    f = string.Formatter()
    for lit, field, spec, conv in f.parse(text):
        out.append([lit])
        if field is None:
            continue
        if '{' in spec:
            return None
        if field == '' or field[0] in '.[':
            field, n = str(n) + field, n + 1
        v, _ = f.get_field(field, a, k)
        out.append(pieces_of(v, conv, spec))
    return cat(out)


def percent_pieces(text, b):
    import re
    b = list(b) if isinstance(b, tuple) else [b]
    out, pos = [], 0
    for m in re.finditer(r'%(%|[0-9]*[sdi])|%', text):
        out.append([text[pos:m.start()]])
        pos = m.end()
        t = m.group(1)
        if t is None or (t[:-1] and t[-1] == 's'):
            return None
        if t == '%':
            out.append(['%'])
            continue
        v = b.pop(0)
        if t[-1] != 's' and not isinstance(v, (int, SymInt)):
            return None
        out.append(pieces_of(v, None, t[:-1] + 'd' if t[-1] != 's' and t[:-1] else ''))
    out.append([text[pos:]])
    return cat(out)


class SymDate:
    """datetime.fromtimestamp(t) for a symbolic number of seconds t."""
    ISO = '%Y-%m-%dT%H:%M:%S'

    def __init__(self, t, tz=None):
        self.t, self.tz = t, tz

    def real(self):
        import datetime
        return datetime.datetime.fromtimestamp(eng().concretize(self.t), self.tz)

    def __format__(self, spec):
        if not spec:
            spec = '%Y-%m-%d %H:%M:%S'
            if self.tz is not None:
                return str(self)
        return LazyStr(lambda: format(self.real(), spec), [(self, spec)])

    def strftime(self, spec):
        return self.__format__(spec)

    def isoformat(self, sep='T', timespec='auto'):
        if self.tz is None and sep in ('T', ' ') and timespec in ('auto', 'seconds'):
            return self.__format__(self.ISO.replace('T', sep, 1))
        return LazyStr(lambda: self.real().isoformat(sep, timespec))

    def __str__(self):
        return self.isoformat(' ')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.real(), n)

    def same(self, o):
        return self.tz == o.tz and self.t == o.t


def has_sym(x, depth=0):
    if isinstance(x, SYM) or isinstance(x, (LazyStr, SymDate)):
        return True
    if depth < 4:
        if isinstance(x, (list, tuple, set, frozenset)):
            return any(has_sym(y, depth + 1) for y in x)
        if isinstance(x, dict):
            return any(has_sym(k, depth + 1) or has_sym(v, depth + 1) for k, v in x.items())
    if type(x).__repr__ is not object.__repr__ and getattr(type(x), '__module__', '').startswith('eventio'):
        return True
    return False


# ---- dictionaries ---------------------------------------------------------
_MISS = object()


def _groups(d):
    g = {}
    for k, v in d.items():
        if type(k) in (int, bool) or isinstance(k, (SymInt, np.integer)):
            g.setdefault(id(v), (v, []))[1].append(k)
    return g.values()


def key_cond(k, keys):
    """k is one of keys (ints compressed into ranges)."""
    cs = []
    ints = sorted(int(x) for x in keys if not isinstance(x, SymInt))
    i = 0
    while i < len(ints):
        j = i
        while j + 1 < len(ints) and ints[j + 1] == ints[j] + 1:
            j += 1
        if j - i >= 2:
            cs.append(band(k >= ints[i], k <= ints[j]))
        else:
            cs += [k == x for x in ints[i:j + 1]]
        i = j + 1
    cs += [k == x for x in keys if isinstance(x, SymInt)]
    return bor(*cs)


def dict_get(d, k):
    """Value for a symbolic key or _MISS."""
    if isinstance(k, SymBool):
        k = k.as_int()
    if isinstance(k, SymInt):
        gs = list(_groups(d))
        if len(d) > 50 and gs:
            allk = [x for _, ks in gs for x in ks]
            if not key_cond(k, allk):
                return _MISS
        for v, keys in gs:
            if key_cond(k, keys):
                return v
        return _MISS
    if isinstance(k, (SymStr, SymBytes)):
        for kk, v in d.items():
            if isinstance(kk, (str, SymStr, bytes, SymBytes)) and (k == kk):
                return v
        return _MISS
    if isinstance(k, tuple) and has_sym(k):
        for kk, v in d.items():
            if isinstance(kk, tuple) and len(kk) == len(k) and bool(band(*[x == y for x, y in zip(k, kk)])):
                return v
        return _MISS
    if isinstance(k, LazyStr):
        return d.get(k.force(), _MISS)
    raise Unsupported('dictionary key %s' % type(k).__name__)


def symkey(k):
    return isinstance(k, (SymInt, SymBool, SymStr, SymBytes, LazyStr)) or (
        isinstance(k, tuple) and any(isinstance(x, SYM) for x in k))


PLAIN = frozenset((int, str, bytes, float, bool, type(None)))


def has_symkey(c):
    """Whether any of the elements is symbolic (fast for plain ones)."""
    ts = set(map(type, c))
    return not ts <= PLAIN and any(symkey(x) for x in c)


def clampidx(v, n):
    if isinstance(v, SymBool):
        v = v.as_int()
    if isinstance(v, SymInt):
        if v.hi >= n and bool(v >= n):
            return n
        if v.lo < -n and bool(v < -n):
            return -n if n else 0
        return eng().concretize(v, limit=600)
    return v


def seqidx(v, n, what='list'):
    if isinstance(v, SymInt):
        if (v.lo < -n or v.hi >= n) and not band(v >= -n, v < n):
            raise IndexError('%s index out of range' % what)
        return eng().concretize(v, limit=600)
    return v


def getitem(o, k):
    if isinstance(o, dict):
        if symkey(k):
            r = dict_get(o, k)
            if r is _MISS:
                if isinstance(o, collections.defaultdict) and o.default_factory is not None:
                    r = o.default_factory()
                    setitem(r, o, k)
                    return r
                if hasattr(type(o), '__missing__'):
                    return o[k]
                raise KeyError(k)
            return r
        if len(o) and has_symkey(o):
            for kk, v in o.items():
                if type(kk) is not type(k) and not (isinstance(k, (int, np.integer)) and isinstance(kk, SymInt)):
                    if not (isinstance(k, str) and isinstance(kk, SymStr)):
                        continue
                if bool(kk == k):
                    return v
        return o[k]
    if isinstance(k, slice):
        if isinstance(o, (list, tuple, str, bytes, bytearray, SymBytes, SymStr, range)) and \
                any(isinstance(v, (SymInt, SymBool)) for v in (k.start, k.stop, k.step)):
            n = len(o)
            k = slice(clampidx(k.start, n), clampidx(k.stop, n), clampidx(k.step, n))
        return o[k]
    if isinstance(k, SymInt) and isinstance(o, (list, tuple, str, bytes, bytearray, SymBytes, SymStr, range)):
        return o[seqidx(k, len(o), type(o).__name__)]
    if isinstance(k, SymBool) and isinstance(o, (list, tuple)):
        return o[int(k)]
    if isinstance(o, np.ndarray) and not isinstance(o, SymArray) and has_sym(k):
        return SA.from_real(o)[k]
    return o[k]


TEXTKEYS = (SymBytes, SymStr)


def setitem(v, o, k):
    """o[k] = v; text keys are compared, not hashed."""
    if isinstance(o, dict) and not isinstance(o, facades().VCounter):
        if isinstance(k, LazyStr):
            k = k.force()
        sym = isinstance(k, TEXTKEYS)
        if sym and k.real() is not None:
            k, sym = k.real(), False
        if sym or (isinstance(k, (str, bytes)) and any(isinstance(x, TEXTKEYS) for x in o)):
            text = isinstance(k, (str, SymStr))
            for kk in o:
                if isinstance(kk, (str, SymStr) if text else (bytes, SymBytes)) and bool(kk == k):
                    k = kk
                    break
            old, SymInt.HASH[0] = SymInt.HASH[0], True
            try:
                o[k] = v
            finally:
                SymInt.HASH[0] = old
            return
        if isinstance(k, tuple) and (symkey(k) or any(isinstance(x, tuple) and symkey(x) for x in o)):
            for kk in o:
                if isinstance(kk, tuple) and len(kk) == len(k) and bool(band(*[x == y for x, y in zip(k, kk)])):
                    k = kk
                    break
            old, SymInt.HASH[0] = SymInt.HASH[0], True
            try:
                o[k] = v
            finally:
                SymInt.HASH[0] = old
            return
    o[k] = v


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        setitem(v, d, k)
    return d


def facades():
    from . import facades as f
    return f


def contains(x, c):
    if isinstance(c, (list, tuple, set, frozenset, type({}.keys()), type({}.values()), dict)):
        if isinstance(x, (SymInt, SymBool)):
            ks = [k for k in c if isinstance(k, (int, SymInt, np.integer))]
            if len(ks) > 8:
                r = key_cond(x, ks)
            else:
                r = bor(*[x == k for k in ks])
            fl = [k for k in c if isinstance(k, (float, SymFloat, np.floating))]
            if fl:
                r = bor(r, *[x == k for k in fl])
            return r
        if isinstance(x, (SymStr, SymFloat)):
            return bor(*[x == k for k in c if not isinstance(k, (tuple, list)) and k is not None])
        if isinstance(x, SymBytes):
            return bor(*[x.eqx(k) for k in c if elems(k) is not None])
        if isinstance(c, (set, frozenset, dict, type({}.keys()))):
            sk = [k for k in c if symkey(k)] if has_symkey(c) else ()
            if sk and not symkey(x):
                if any(type(k) is type(x) and k == x for k in c if not symkey(k)):
                    return True
                return bor(*[k == x for k in sk if isinstance(k, SymInt) == isinstance(x, (int, np.integer)) or isinstance(k, SymStr)])
            return x in c
        return any(bool(x is k or x == k) for k in c)
    if isinstance(c, range) and isinstance(x, SymInt):
        if c.step == 1:
            return band(x >= c.start, x < c.stop)
        return bor(*[x == k for k in c])
    if isinstance(c, (str, SymStr)) and isinstance(x, (SymStr, LazyStr)):
        if isinstance(x, LazyStr):
            return x.force() in fstr(c)
        return x.in_str(c)
    return x in c


# ---- type questions -------------------------------------------------------
def pytypes(x):
    """Types a symbolic value stands for."""
    if isinstance(x, SymBool):
        return (bool,)
    if isinstance(x, SymInt):
        return (x.dt.type,) if x.dt is not None else (int,)
    if isinstance(x, SymFloat):
        return (x.dt.type,) if x.dt is not None else (float,)
    if isinstance(x, SymBytes):
        return (bytearray,) if x.mutable else (bytes,)
    if isinstance(x, SymStr):
        return (str,)
    if isinstance(x, LazyStr):
        return (str,)
    if isinstance(x, symnp.SR) and getattr(x, 'rec', False):
        return (np.recarray,)
    if isinstance(x, SymArray):
        return (np.ndarray,)
    if type(x).__name__ == 'SRec':
        return (np.void,)
    return None


def v_isinstance(x, t):
    p = pytypes(x)
    if p is None or isinstance(x, LazyStr):
        return isinstance(x, t)
    if isinstance(t, types.UnionType):
        t = t.__args__
    if not isinstance(t, tuple):
        t = (t,)
    for u in t:
        if isinstance(u, tuple):
            if v_isinstance(x, u):
                return True
        elif issubclass(p[0], u) or isinstance(x, u):
            return True
    return False


def v_type(*a):
    if len(a) == 1:
        p = pytypes(a[0])
        if p:
            return p[0]
    return type(*a)


def v_int(*a, **k):
    if not a:
        return int(**k)
    x = a[0]
    if isinstance(x, SymInt):
        return x.item() if x.dt is not None else x
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymFloat):
        if x.kind == 'lin' and x.c == 1:
            return x.a
        if x.kind == 'lin' and x.c == int(x.c) and x.c > 0 and isinstance(x.a, SymInt):
            lo, hi = rng(x.a)
            if -2 ** 53 < lo * int(x.c) and hi * int(x.c) < 2 ** 53:
                return x.a * int(x.c)
        return int(float(x))
    if isinstance(x, SA):
        return v_int(x._one())
    if isinstance(x, SymStr) and len(a) == 1 and not k:
        v = digits_value(x)
        if v is not None:
            return v
    if isinstance(x, (SymStr, SymBytes)):
        x = x.force()
    if isinstance(x, LazyStr):
        x = x.force()
    return int(x, *a[1:], **k)


def digits_value(s):
    """Value of a text of up to 12 decimal digits, None if it is something else."""
    if s.real() is not None or not 1 <= len(s.c) <= 12 or not bool(s.isdigit()):
        return None
    v = 0
    for x in s.c:
        d = x - 48
        v = v * 10 + (SymInt(d.e, d.s, 0, 9) if isinstance(d, SymInt) else d)
    return v


def v_float(*a):
    if not a:
        return 0.0
    x = a[0]
    if isinstance(x, (SymInt, SymBool)):
        return from_int(x)
    if isinstance(x, SymFloat):
        return SymFloat(x.kind, x.fmt, x.a, x.c)
    if isinstance(x, SA):
        return v_float(x._one())
    if isinstance(x, SymStr):
        v = digits_value(x)
        if v is not None:
            return from_int(v)
    return float(fstr(x))


def v_bool(*a):
    if not a:
        return False
    x = a[0]
    if isinstance(x, SymBool):
        return x
    if isinstance(x, (SymInt,)):
        r = x != 0
        return r
    return bool(x)


def v_bytes(*a, **k):
    if a:
        x = a[0]
        if isinstance(x, SymBytes):
            return SymBytes(x.b)
        if isinstance(x, SymStr):
            return x.encode(*a[1:])
        if isinstance(x, SymInt):
            return bytes(eng().concretize(x))
        if isinstance(x, SA):
            return x.tobytes()
        if isinstance(x, (list, tuple)) and any(isinstance(y, SymInt) for y in x):
            return SymBytes(x)
    return bytes(*a, **k)


def v_bytearray(*a, **k):
    if a:
        x = a[0]
        if isinstance(x, SymBytes):
            return SymBytes(x.b, True)
        if isinstance(x, SymInt):
            return SymBytes(bytes(eng().concretize(x)), True)
        if isinstance(x, (list, tuple)):
            return SymBytes(x, True)
        if isinstance(x, SymStr):
            return SymBytes(x.encode(*a[1:]).b, True)
    return SymBytes(bytearray(*a, **k), True)


def v_memoryview(x):
    if isinstance(x, SymBytes):
        return SymBytes(x.b) if not x.mutable else x
    return memoryview(x)


def v_minmax(name):
    real = getattr(builtins, name)
    op = operator.lt if name == 'min' else operator.gt

    def f(*a, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        if not k and items and all(isinstance(x, (int, SymInt, np.integer)) for x in items) and \
                any(isinstance(x, SymInt) for x in items):
            r = items[0]
            for x in items[1:]:
                r = ite(op(x, r), x, r)
            return r
        if len(a) == 1:
            if not items and 'default' in k:
                return k['default']
            return real(items, **{kk: v for kk, v in k.items() if kk != 'default'})
        return real(*a, **k)
    return f


def v_str(*a, **k):
    if a:
        x = a[0]
        if isinstance(x, SymBytes) and (len(a) > 1 or k):
            return x.decode(*a[1:], **k)
        if isinstance(x, (SymStr, LazyStr)):
            return x
        if has_sym(x):
            return LazyStr(lambda: str(x), lambda: pieces_of(x, 's'))
    return str(*a, **k)


def v_lazy(fn):
    def f(*a, **k):
        if any(has_sym(x) for x in a):
            def thunk():
                return fn(*[eng().concretize(x) if isinstance(x, SymInt) else x for x in a], **k)
            return LazyStr(thunk, (lambda: pieces_of(a[0], 'r')) if fn is repr else
                           (lambda: pieces_of(a[0], None, *a[1:])) if fn is format else None)
        return fn(*a, **k)
    return f


class VRange:
    """range() with a symbolic bound: one decision per element."""

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        i = self.start
        k = 0
        while True:
            if not ((i < self.stop) if self.step > 0 else (i > self.stop)):
                return
            k += 1
            if k > 3000:
                raise Unsupported('loop bound')
            yield i
            i = i + self.step

    def _real(self):
        return range(*[eng().concretize(x) if isinstance(x, SymInt) else x for x in (self.start, self.stop, self.step)])

    def __len__(self):
        return len(self._real())

    def __getitem__(self, i):
        return self._real()[i]

    def __reversed__(self):
        return reversed(self._real())

    def __contains__(self, x):
        return x in self._real()


def v_range(*a):
    a = [x.as_int() if isinstance(x, SymBool) else (plainint(x)) for x in a]
    if any(isinstance(x, SymInt) for x in a) and (len(a) < 3 or (isinstance(a[2], int) and a[2])):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        return VRange(lo, hi, st)
    return range(*[eng().concretize(x) if isinstance(x, SymInt) else (int(x) if isinstance(x, SymBool) else x) for x in a])


def plainint(x):
    if isinstance(x, SymInt):
        return x.item() if x.dt is not None else x
    if isinstance(x, SA) and x.ndim == 0:
        return plainint(x._one())
    return x


def truth(x):
    """Truth value without deciding it."""
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    return bool(x)


def merge_(c, f, g):
    if isinstance(c, SymInt):
        c = c != 0
    return merge(c, f, g) if isinstance(c, SymBool) else None


def ifexp(c, f, g):
    m = merge_(c, f, g)
    if m is not None:
        return m[0]
    return f() if c else g()


def v_map(f, *its):
    if len(its) == 1:
        return (call(f, x) for x in its[0])
    return (call(f, *xs) for xs in zip(*its))


def v_filter(f, it):
    return (x for x in it if (x if f is None else call(f, x)))


def v_iter(x, *a):
    if a:
        return _iter_sentinel(x, a[0])
    return iter(x)


def _iter_sentinel(f, s):
    while True:
        v = call(f)
        if v is s or bool(v == s):
            return
        yield v


def v_reduce(f, it, *init):
    it = iter(it)
    acc = init[0] if init else next(it)
    for x in it:
        acc = call(f, acc, x)
    return acc


def v_divmod(a, b):
    return a // b, a % b


def v_hash(x):
    return hash(x)


class Out:
    """What the code printed on this path."""
    lines = []
    warnings = []


def v_print(*a, sep=' ', end='\n', file=None, flush=False):
    import sys as _sys
    if file is not None and file not in (_sys.stdout, _sys.stderr):
        file.write(sep.join(str(fstr(x)) for x in a) + end)
        return
    if file is not None and file is _sys.stderr:
        return
    parts = [v_str(x) for x in a]
    if any(isinstance(p, (LazyStr, SymStr)) for p in parts):
        text = LazyStr(lambda: sep.join(str(fstr(p)) for p in parts) + end, lambda: cat(
            [x for p in parts for x in ([sep], pieces_of(p))][1:] + [[end]]))
        text.pieces()
        Out.lines.append(text)
    else:
        Out.lines.append(sep.join(parts) + end)


def v_next(it, *d):
    return next(it, *d)


def v_round(x, *a):
    if isinstance(x, SymInt):
        return x
    return round(x, *a)


def v_ord(x):
    if isinstance(x, SymStr):
        return x.c[0]
    if isinstance(x, SymBytes):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        return x.b[0]
    return ord(x)


def v_chr(x):
    if isinstance(x, SymInt):
        return SymStr([x])
    return chr(x)


def v_abs(x):
    return abs(x)


def v_math(fn):
    def f(*a):
        if fn is math.isnan and isinstance(a[0], SymFloat):
            return f_isnan(a[0])
        if any(isinstance(x, SymFloat) for x in a):
            raise Unsupported('math.%s of a symbolic float' % fn.__name__)
        return fn(*[eng().concretize(x) if isinstance(x, SymInt) else x for x in a])
    return f


OPEN = [None]      # virtual open, set by the file system


def v_open(*a, **k):
    if OPEN[0] is None:
        raise Unsupported('open')
    return OPEN[0](*a, **k)


def v_any(xs):
    acc = False
    for x in xs:
        if isinstance(x, SymBool):
            acc = bor(acc, x)
        elif x:
            return True
    return acc


def v_all(xs):
    acc = True
    for x in xs:
        if isinstance(x, SymBool):
            acc = band(acc, x)
        elif not x:
            return False
    return acc


def v_sorted(xs, **k):
    return sorted(xs, **k)


def v_dict(*a, **k):
    if len(a) == 1:
        src = a[0]
        pairs = list(src.items()) if isinstance(src, dict) else [tuple(p) for p in src]
        if all(len(p) == 2 for p in pairs) and any(isinstance(p[0], TEXTKEYS + (LazyStr,)) for p in pairs):
            d = mkdict(pairs)
            d.update(k)
            return d
        return dict(src if isinstance(src, dict) else pairs, **k)
    return dict(*a, **k)


def v_input(*a):
    raise Unsupported('input')


def v_len(x):
    return len(x)


HANDLERS = {id(k): v for k, v in [
    (isinstance, v_isinstance), (type, v_type), (int, v_int), (float, v_float), (bool, v_bool),
    (bytes, v_bytes), (bytearray, v_bytearray), (memoryview, v_memoryview), (min, v_minmax('min')),
    (max, v_minmax('max')), (str, v_str), (repr, v_lazy(repr)), (hex, v_lazy(hex)), (bin, v_lazy(bin)),
    (oct, v_lazy(oct)), (format, v_lazy(format)), (range, v_range), (divmod, v_divmod), (print, v_print),
    (round, v_round), (ord, v_ord), (chr, v_chr), (open, v_open), (any, v_any), (all, v_all), (input, v_input),
    (dict, v_dict), (np.dtype, symnp.np_dtype), (map, v_map), (filter, v_filter), (iter, v_iter), (functools.reduce, v_reduce),
] + [(getattr(math, n), v_math(getattr(math, n))) for n in ('floor', 'ceil', 'isnan', 'isinf', 'sqrt', 'log2', 'log10', 'log', 'pow', 'trunc', 'isfinite')]}
import io as _io
HANDLERS[id(_io.open)] = v_open

_BUILTIN_M = type([].append)
_METHOD_DESC = type(str.join)


def m_str(self, name, a, k):
    if name == 'format':
        return LazyStr(lambda: str.format(self, *a, **k), lambda: format_pieces(self, a, k))
    if name == 'join':
        items = list(a[0])
        if any(isinstance(x, SymStr) for x in items) and not any(isinstance(x, LazyStr) for x in items):
            out = []
            for i, x in enumerate(items):
                if i:
                    out += [ord(c) for c in self]
                out += SymStr.of(x).c
            return SymStr(out)
        return LazyStr(lambda: str.join(self, [fstr(x) for x in items]), lambda: cat(
            [y for x in items for y in ([self], pieces_of(x))][1:]))
    if name in ('startswith', 'endswith', 'find', 'index', 'count', 'split', 'replace', 'strip', 'partition'):
        return getattr(str, name)(self, *[fstr(x) for x in a], **k)
    raise Unsupported('str.%s with symbolic arguments' % name)


def m_bytes(self, name, a, k):
    if name == 'join':
        return bjoin(self, list(a[0]))
    r = SymBytes(list(self), isinstance(self, bytearray))
    return getattr(r, name)(*a, **k)


def m_dict(self, name, a, k):
    if name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__') and symkey(a[0]):
        if name == '__contains__':
            return contains(a[0], self)
        r = dict_get(self, a[0])
        if name == '__getitem__':
            return getitem(self, a[0])
        if name == 'get':
            return (a[1] if len(a) > 1 else k.get('default')) if r is _MISS else r
        if name == 'setdefault':
            if r is not _MISS:
                return r
            r = a[1] if len(a) > 1 else None
            setitem(r, self, a[0])
            return r
        if name == 'pop':
            if r is _MISS:
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            for kk in list(self):
                if bool(kk == a[0]):
                    del self[kk]
                    return r
    if name == 'update':
        for kk, v in v_dict(*a, **k).items():
            setitem(v, self, kk)
        return None
    if name == 'get' and has_symkey(self):
        try:
            return getitem(self, a[0])
        except KeyError:
            return a[1] if len(a) > 1 else None
    return getattr(dict, name)(self, *a, **k) if type(self) is dict else getattr(self, name)(*a, **k)


def m_seq(self, name, a, k):
    if name == 'index' and isinstance(a[0], SYM):
        for i, x in enumerate(self):
            if bool(a[0] == x):
                return i
        raise ValueError('not in list')
    if name == 'count' and isinstance(a[0], SYM):
        return sum(1 for x in self if bool(a[0] == x))
    return getattr(self, name)(*a, **k)


def call(f, /, *a, **k):
    h = HANDLERS.get(id(f))
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is _BUILTIN_M:
        s = f.__self__
        if s is int and f.__name__ == 'from_bytes':
            data = elems(a[0]) if elems(a[0]) is not None else list(a[0])
            order = a[1] if len(a) > 1 else k.get('byteorder', 'big')
            return (le_int if order == 'little' else be_int)(data, k.get('signed', False)) if data else 0
        if f.__name__ == 'write' and s is sys.stdout:
            v_print(a[0], end='')
            return 0 if isinstance(a[0], LazyStr) else len(a[0])
        if isinstance(s, (str, bytes, bytearray)):
            if (a or k) and (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
                if f.__name__ == 'join' and not isinstance(a[0], (list, tuple)):
                    a = (list(a[0]),)
                return (m_str if isinstance(s, str) else m_bytes)(s, f.__name__, a, k)
            if f.__name__ == 'join' and a and not isinstance(a[0], (list, tuple)):
                a = (list(a[0]),)
                if has_sym(a[0]):
                    return (m_str if isinstance(s, str) else m_bytes)(s, f.__name__, a, k)
                return f(*a)
        elif isinstance(s, dict):
            if a and (f.__name__ == 'get' or f.__name__ == 'update' and type(s) is dict
                      or f.__name__ != 'update' and symkey(a[0])):
                return m_dict(s, f.__name__, a, k)
        elif isinstance(s, (list, tuple)):
            if a and f.__name__ in ('index', 'count'):
                return m_seq(s, f.__name__, a, k)
    elif isinstance(f, type) and issubclass(f, np.generic):
        return symnp.scalar_call(f, *a, **k)
    return f(*a, **k)


def fstring(parts):
    """parts: list of str or (value, conversion, spec)."""
    if any(not isinstance(p, str) and has_sym(p[0]) for p in parts) or \
            any(isinstance(p, LazyStr) for p in parts):
        def thunk():
            out = []
            for p in parts:
                if isinstance(p, str):
                    out.append(fstr(p))
                else:
                    v, c, s = p
                    v = fstr(v)
                    v = {'r': repr, 's': str, 'a': ascii}[c](v) if c else v
                    out.append(format(v, fstr(s)))
            return ''.join(out)
        return LazyStr(thunk, lambda: cat([pieces_of(p) if isinstance(p, str) else pieces_of(*p) for p in parts]))
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            v, c, s = p
            v = {'r': repr, 's': str, 'a': ascii}[c](v) if c else v
            out.append(format(v, s))
    return ''.join(out)


def mod(a, b):
    """a % b where a may be a format string."""
    if isinstance(a, str) and has_sym(b):
        return LazyStr(lambda: str.__mod__(fstr(a), b), lambda: percent_pieces(a, b))
    return a % b
