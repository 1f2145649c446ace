"""Byte strings of concrete length whose elements may be symbolic, and the
strings obtained by decoding them."""
import z3
import numpy as np
from .sym import SymInt, SymBool, Unsupported, eng, band, mkint, tobv, is_sym


def elems(x):
    """List of byte values of a bytes-like, or None."""
    if isinstance(x, SymBytes):
        return x.b
    if isinstance(x, (bytes, bytearray, memoryview)):
        return list(bytes(x))
    return None


def mk(lst, mutable=False):
    return SymBytes(lst, mutable)


class SymBytes:
    __slots__ = ('b', 'mutable', '_iseq')

    def __init__(self, b, mutable=False):
        self.b = list(b)
        self.mutable = mutable

    @property
    def concrete(self):
        return all(not isinstance(x, SymInt) for x in self.b)

    def real(self):
        """Real bytes if fully concrete, else None."""
        if self.concrete:
            return (bytearray if self.mutable else bytes)(self.b)
        return None

    def force(self):
        """Real bytes by case split on every symbolic byte."""
        return bytes(int(x) for x in self.b)

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return len(self.b) > 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(None if v is None else v.__index__() for v in (i.start, i.stop, i.step)))
            return SymBytes(self.b[i], self.mutable)
        i = i.__index__()
        return self.b[i]

    def __setitem__(self, i, v):
        if not self.mutable:
            raise TypeError("'bytes' object does not support item assignment")
        if isinstance(i, slice):
            i = slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
            self.b[i] = elems(v) if elems(v) is not None else list(v)
        else:
            self.b[i.__index__()] = v

    def __iter__(self):
        return iter(list(self.b))

    def __add__(self, o):
        e = elems(o)
        if e is None:
            return NotImplemented
        return SymBytes(self.b + e, self.mutable)

    def __radd__(self, o):
        e = elems(o)
        if e is None:
            return NotImplemented
        return SymBytes(e + self.b, isinstance(o, bytearray))

    def __iadd__(self, o):
        e = elems(o)
        if e is None:
            return NotImplemented
        if self.mutable:
            self.b += e
            return self
        return SymBytes(self.b + e)

    def __mul__(self, n):
        return SymBytes(self.b * n.__index__(), self.mutable)
    __rmul__ = __mul__

    def eqx(self, o):
        e = elems(o)
        if e is None or len(e) != len(self.b):
            return False
        return band(*[x == y for x, y in zip(self.b, e)])

    def __eq__(self, o):
        if elems(o) is None:
            return False
        return self.eqx(o)

    def __ne__(self, o):
        from .sym import bnot
        return bnot(self == o)

    def _order(self, o, lt):
        a, b = self.b, elems(o)
        for x, y in zip(a, b):
            if bool(x != y):
                return bool(x < y) if lt else bool(x > y)
        return len(a) < len(b) if lt else len(a) > len(b)

    def __lt__(self, o): return self._order(o, True)
    def __gt__(self, o): return self._order(o, False)
    def __le__(self, o): return not self._order(o, False)
    def __ge__(self, o): return not self._order(o, True)

    def __hash__(self):
        if self.mutable:
            raise TypeError("unhashable type: 'bytearray'")
        if SymInt.HASH[0]:
            return 0x5eed
        return hash(self.force())

    def __contains__(self, o):
        if is_sym(o) or isinstance(o, int):
            return any(bool(x == o) for x in self.b)
        return self.find(o) >= 0

    def __repr__(self):
        r = self.real()
        return repr(r) if r is not None else "b'\ue000sym\ue000'"

    def find(self, sub, start=0, end=None):
        s = elems(sub) if elems(sub) is not None else [sub]
        end = len(self.b) if end is None else min(end, len(self.b))
        for i in range(start, end - len(s) + 1):
            if bool(SymBytes(self.b[i:i + len(s)]).eqx(SymBytes(s))):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        return len(p) <= len(self.b) and bool(SymBytes(self.b[:len(p)]).eqx(p))

    def endswith(self, p):
        return len(p) <= len(self.b) and bool(SymBytes(self.b[len(self.b) - len(p):]).eqx(p))

    def _strip(self, chars, left, right):
        cs = elems(chars) if chars is not None else list(b' \t\n\r\x0b\x0c')
        lo, hi = 0, len(self.b)
        hit = lambda x: any(bool(x == c) for c in cs)
        while left and lo < hi and hit(self.b[lo]):
            lo += 1
        while right and hi > lo and hit(self.b[hi - 1]):
            hi -= 1
        return SymBytes(self.b[lo:hi], self.mutable)

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('bytes.split without separator')
        out, cur, i = [], [], 0
        while i < len(self.b):
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(sep) <= len(self.b) and \
                    bool(SymBytes(self.b[i:i + len(sep)]).eqx(sep)):
                out.append(SymBytes(cur)); cur = []; i += len(sep)
            else:
                cur.append(self.b[i]); i += 1
        out.append(SymBytes(cur))
        return out

    def join(self, parts):
        return join(self, parts)

    def decode(self, encoding='utf-8', errors='strict'):
        return decode(self, encoding, errors)

    def hex(self):
        return self.force().hex()

    def tobytes(self):
        return SymBytes(self.b)

    def copy(self):
        return SymBytes(self.b, self.mutable)

    def extend(self, o):
        assert self.mutable
        self.b += elems(o) if elems(o) is not None else list(o)

    def append(self, o):
        assert self.mutable
        self.b.append(o)

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __buffer__(self, flags):
        raise Unsupported('symbolic bytes passed to code outside the engine')

    def cast(self, fmt):
        if fmt in ('B', 'c'):
            return SymBytes(self.b)
        raise Unsupported('memoryview.cast')

    nbytes = property(lambda self: len(self.b))
    shape = property(lambda self: (len(self.b),))
    itemsize = 1


def join(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out += elems(sep)
        out += elems(p)
    return SymBytes(out)


def le_int(b, signed):
    """Little-endian integer from a list of byte values."""
    if all(not isinstance(x, SymInt) for x in b):
        return int.from_bytes(bytes(b), 'little', signed=signed)
    parts = [tobv(x, 8) for x in reversed(b)]
    e = z3.Concat(*parts) if len(parts) > 1 else parts[0]
    return mkint(z3.simplify(e), signed)


def be_int(b, signed):
    return le_int(list(reversed(b)), signed)


# ---------------------------------------------------------------------------
class SymStr:
    """String of concrete length with (possibly symbolic) code points."""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = list(c)

    @staticmethod
    def of(x):
        if isinstance(x, SymStr):
            return x
        return SymStr([ord(ch) for ch in x])

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def real(self):
        if all(not isinstance(x, SymInt) for x in self.c):
            return ''.join(map(chr, self.c))
        return None

    def force(self):
        return ''.join(chr(int(x)) for x in self.c)

    def eqx(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        o = SymStr.of(o)
        if len(o.c) != len(self.c):
            return False
        return band(*[x == y for x, y in zip(self.c, o.c)])

    def __eq__(self, o): return self.eqx(o)

    def __ne__(self, o):
        from .sym import bnot
        return bnot(self.eqx(o))

    def __hash__(self):
        if SymInt.HASH[0]:
            return 0x5eed
        return hash(self.force())

    def __getitem__(self, i):
        r = self.c[i]
        return SymStr(r if isinstance(i, slice) else [r])

    def __iter__(self):
        return iter([SymStr([x]) for x in self.c])

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr(self.c + SymStr.of(o).c)

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr(SymStr.of(o).c + self.c)

    def __contains__(self, o):
        o = SymStr.of(o)
        n = len(o.c)
        return any(bool(SymStr(self.c[i:i + n]).eqx(o)) for i in range(len(self.c) - n + 1))

    def in_str(self, hay):
        """self in hay (hay a real or symbolic str) as a condition."""
        from .sym import bor
        hay = SymStr.of(hay)
        n = len(self.c)
        return bor(*[SymStr(hay.c[i:i + n]).eqx(self) for i in range(len(hay.c) - n + 1)])

    def __repr__(self):
        r = self.real()
        if r is not None:
            return repr(r)
        from .sym import FORMAT_CONCRETE
        if FORMAT_CONCRETE[0]:
            return repr(self.force())
        return "'\ue000sym\ue000'"

    def __str__(self):
        r = self.real()
        if r is not None:
            return r
        from .sym import FORMAT_CONCRETE
        if FORMAT_CONCRETE[0]:
            return self.force()
        return '\ue000sym\ue000'

    def __format__(self, spec):
        return format(str(self), spec)

    def startswith(self, p):
        return len(p) <= len(self.c) and bool(SymStr(self.c[:len(p)]).eqx(p))

    def endswith(self, p):
        return len(p) <= len(self.c) and bool(SymStr(self.c[len(self.c) - len(p):]).eqx(p))

    def _strip(self, chars, left, right):
        ws = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + \
            [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]
        cs = [ord(c) for c in chars] if chars is not None else ws
        from .sym import bor
        lo, hi = 0, len(self.c)
        hit = lambda x: bool(bor(*[x == c for c in cs]))
        while left and lo < hi and hit(self.c[lo]):
            lo += 1
        while right and hi > lo and hit(self.c[hi - 1]):
            hi -= 1
        return SymStr(self.c[lo:hi])

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def encode(self, encoding='utf-8', errors='strict'):
        out = []
        for x in self.c:
            if isinstance(x, SymInt):
                if bool(x < 0x80):
                    out.append(x)
                elif bool(x < 0x800):
                    out += [(x >> 6) | 0xc0, (x & 0x3f) | 0x80]
                elif bool(x < 0x10000):
                    out += [(x >> 12) | 0xe0, ((x >> 6) & 0x3f) | 0x80, (x & 0x3f) | 0x80]
                else:
                    out += [(x >> 18) | 0xf0, ((x >> 12) & 0x3f) | 0x80, ((x >> 6) & 0x3f) | 0x80, (x & 0x3f) | 0x80]
            else:
                out += list(chr(x).encode('utf-8'))
        return SymBytes(out)

    def isdigit(self):
        from .sym import Unsupported
        for x in self.c:
            if isinstance(x, SymInt) and not bool(x < 128):
                raise Unsupported('class of a symbolic non-ASCII character')
        return len(self.c) > 0 and band(*[band(x >= 48, x <= 57) for x in self.c])

    isdecimal = isnumeric = isdigit

    def lower(self):
        return self.force().lower()

    def upper(self):
        return self.force().upper()

    def splitlines(self):
        return self.force().splitlines()


def _err(kind, msg):
    raise UnicodeDecodeError(kind, b'', 0, 0, msg)


def decode(sb, encoding, errors='strict'):
    enc = encoding.lower().replace('_', '-')
    r = SymBytes(sb.b).real()
    if r is not None:
        return r.decode(encoding, errors)
    if errors != 'strict':
        raise Unsupported('decode with errors=' + errors)
    if enc in ('latin-1', 'latin1', 'iso-8859-1', 'iso8859-1'):
        return SymStr(sb.b)
    if enc == 'ascii':
        for x in sb.b:
            if not bool(x < 0x80):
                _err('ascii', 'ordinal not in range(128)')
        return SymStr(sb.b)
    if enc not in ('utf-8', 'utf8'):
        raise Unsupported('decode ' + encoding)
    out, i, b = [], 0, sb.b
    n = len(b)

    def cont(j, lo=0x80, hi=0xbf):
        if j >= n:
            _err('utf-8', 'unexpected end of data')
        if not bool(band(b[j] >= lo, b[j] <= hi)):
            _err('utf-8', 'invalid continuation byte')
        return b[j] & 0x3f
    while i < n:
        x = b[i]
        if bool(x < 0x80):
            out.append(x); i += 1
        elif bool(band(x >= 0xc2, x <= 0xdf)):
            out.append(((x & 0x1f) << 6) | cont(i + 1)); i += 2
        elif bool(band(x >= 0xe0, x <= 0xef)):
            lo, hi = 0x80, 0xbf
            if bool(x == 0xe0):
                lo = 0xa0
            elif bool(x == 0xed):
                hi = 0x9f
            c1 = cont(i + 1, lo, hi)
            out.append(((x & 0x0f) << 12) | (c1 << 6) | cont(i + 2)); i += 3
        elif bool(band(x >= 0xf0, x <= 0xf4)):
            lo, hi = 0x80, 0xbf
            if bool(x == 0xf0):
                lo = 0x90
            elif bool(x == 0xf4):
                hi = 0x8f
            c1 = cont(i + 1, lo, hi)
            c2 = cont(i + 2)
            out.append(((x & 0x07) << 18) | (c1 << 12) | (c2 << 6) | cont(i + 3)); i += 4
        else:
            _err('utf-8', 'invalid start byte')
    return SymStr(out)
