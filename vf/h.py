"""Harness vocabulary shared by the symbolic and the native mode."""
import struct


class CheckFail(BaseException):
    """A property assertion failed."""

    def __init__(self, msg):
        self.msg = msg
        BaseException.__init__(self, msg)


class Arr:
    """Expected array: shape, flat values in C order, optional dtype kind."""

    def __init__(self, shape, flat, kind=None):
        self.shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        self.flat = list(flat)
        self.kind = kind

    def nested(self):
        def rec(sh, fl):
            if len(sh) == 1:
                return list(fl)
            n = len(fl) // sh[0] if sh[0] else 0
            return [rec(sh[1:], fl[i * n:(i + 1) * n]) for i in range(sh[0])]
        return rec(self.shape, self.flat)


class Rec:
    """Expected structured array or record: field -> value (Arr of one more
    dimension, or scalars if shape is ())."""

    def __init__(self, n, fields, exact=True):
        self.n = n               # number of records, or None for a scalar record
        self.fields = fields     # name -> list of n values (or a value)
        self.exact = exact


class Approx:
    def __init__(self, v, rel=1e-6, abs=0.0):
        self.v, self.rel, self.abs = v, rel, abs


class ANY:
    pass


ANY = ANY()


class Seq:
    """Expected sequence (list, tuple or one-dimensional array)."""

    def __init__(self, items):
        self.items = list(items)


class Case:
    def __init__(self, name, fn, kw=None, seconds=60, witness=6, bounds='', funcs=None, split=0):
        self.name = name
        self.fn = fn
        self.kw = kw or {}
        self.seconds = seconds
        self.witness = witness
        self.bounds = bounds


VARINT_PREFIX = [0x00, 0x80, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc, 0xfe, 0xff]


class W:
    """Builds a payload and remembers nothing: every method returns the
    expected value of what it wrote."""

    def __init__(self, h):
        self.h = h
        self.parts = []

    def raw(self, b):
        self.parts.append(b)
        return b

    def _num(self, bits, signed, v):
        if v is None:
            v = self.h.int(bits, signed)
        self.parts.append(self.h.le(v, bits // 8))
        return v

    def u8(self, v=None): return self._num(8, False, v)
    def i8(self, v=None): return self._num(8, True, v)
    def u16(self, v=None): return self._num(16, False, v)
    def i16(self, v=None): return self._num(16, True, v)
    def u32(self, v=None): return self._num(32, False, v)
    def i32(self, v=None): return self._num(32, True, v)
    def u64(self, v=None): return self._num(64, False, v)
    def i64(self, v=None): return self._num(64, True, v)

    def f4(self, bits=None):
        b = self._num(32, False, bits)
        return self.h.f4(b)

    def f8(self, bits=None):
        b = self._num(64, False, bits)
        return self.h.f8(b)

    def many(self, kind, n):
        return [getattr(self, kind)() for _ in range(n)]

    def arr(self, kind, *shape):
        n = 1
        for s in shape:
            n *= s
        return Arr(shape, self.many(kind, n))

    def varint(self, n=1, v=None):
        """Unsigned variable-length integer with an encoding of n bytes."""
        h = self.h
        if v is not None:
            u = v
            n = vlen(v)
        else:
            u = h.int(7 * n if n < 9 else 64, False)
        self.parts.append(h.varint_bytes(u, n))
        return u

    def svarint(self, n=1, v=None):
        h = self.h
        if v is not None:
            self.varint(v=(2 * v if v >= 0 else -2 * v - 1))
            return v
        u = self.varint(n)
        return h.zigzag(u)

    def varstring(self, n):
        self.varint(v=n)
        return self.raw(self.h.bytes(n))

    def string(self, n):
        self.i16(n)
        return self.raw(self.h.bytes(n))

    def bytes(self):
        return self.h.join(self.parts)


def vlen(u):
    n = 1
    while n < 9 and u >= 1 << (7 * n):
        n += 1
    return n


def spec_varint_bytes(u, n):
    """Concrete encoding of u in n bytes."""
    if n == 9:
        return b'\xff' + struct.pack('>Q', u)
    x = u | (VARINT_PREFIX[n - 1] << (8 * (n - 1)))
    return x.to_bytes(n, 'big')


def array_types(x, is_array, path='', out=None):
    """The places of the arrays in a result and their element types."""
    if out is None:
        out = {}
    if is_array(x):
        d = x.dtype
        if d.names:
            for k in d.names:
                out.setdefault(path + '.' + k, set()).add(plain(d[k]))
        else:
            out.setdefault(path, set()).add(plain(d))
    elif hasattr(x, 'keys') and hasattr(x, 'items'):
        kind = ''
        if 'n_bins_x' in x:
            kind = '<floats>' if str(x['type']) in 'FD' else '<counts>'
        for k, v in x.items():
            array_types(v, is_array, '%s%s.%s' % (path, kind, k if isinstance(k, str) else '*'), out)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            array_types(v, is_array, '%s[%s]' % (path, '*' if isinstance(x, list) else i), out)
    return out


def plain(d):
    base = d.base.newbyteorder('=')
    return base.kind + str(base.itemsize)
