"""Symbolic floating point numbers.

Three forms:
  bits : an IEEE number given by its bit pattern (f2, f4 or f8)
  lin  : c * n, n a symbolic integer and c a concrete factor.  Rounding is not
         modelled; comparisons with an expected value use a relative tolerance.
         c == 1 (exact) is used for integers stored in floating point arrays.
  fp   : a z3 floating point term (exact IEEE semantics).
  pow10: 10 ** lin
"""
import math
import struct
import numpy as np
import z3
from .sym import (SymInt, SymBool, Unsupported, band, bor, bnot, ite, mkint, tobv, wrap,
                  is_intlike, eng, _bits_for, rng, BVV)

FMT = {'f2': (5, 11), 'f4': (8, 24), 'f8': (11, 53)}
SORT = {k: z3.FPSort(*v) for k, v in FMT.items()}
SIZE = {'f2': 2, 'f4': 4, 'f8': 8}
NPT = {'f2': np.float16, 'f4': np.float32, 'f8': np.float64}
PACK = {'f2': '<e', 'f4': '<f', 'f8': '<d'}


def fmt_of(dt):
    dt = np.dtype(dt)
    return 'f%d' % dt.itemsize


class SymFloat:
    __slots__ = ('kind', 'fmt', 'a', 'c', 'dt')
    __array_ufunc__ = None

    def __init__(self, kind, fmt, a, c=None, dt=None):
        self.kind = kind      # bits | lin | fp | pow10
        self.fmt = fmt        # precision of the stored pattern ('bits', 'fp')
        self.a = a            # bits: SymInt (unsigned) ; lin: SymInt ; fp: z3 fp ; pow10: SymFloat lin
        self.c = c
        self.dt = dt          # numpy dtype of the scalar, None for Python floats

    def __repr__(self):
        return '\ue000symf\ue000'
    __str__ = __repr__

    def __format__(self, spec):
        return '\ue000symf\ue000'

    def __hash__(self):
        return hash(self._concrete())

    def _concrete(self):
        if self.kind == 'bits':
            v = eng().concretize(self.a)
            return struct.unpack(PACK[self.fmt], v.to_bytes(SIZE[self.fmt], 'little'))[0]
        if self.kind == 'lin':
            return eng().concretize(self.a) * self.c if isinstance(self.a, SymInt) else self.a * self.c
        raise Unsupported('concrete value of a symbolic float')

    def __float__(self):
        return self._concrete()

    def __bool__(self):
        return bool(self != 0.0)

    def __int__(self):
        if self.kind == 'lin' and self.c == 1:
            return int(self.a)
        raise Unsupported('int() of a symbolic float')
    __trunc__ = __int__

    def item(self):
        return SymFloat(self.kind, self.fmt, self.a, self.c)

    @property
    def dtype(self):
        if self.dt is None:
            raise AttributeError("'float' object has no attribute 'dtype'")
        return self.dt

    def astype(self, dt):
        return to_dt(self, np.dtype(dt))

    @property
    def real(self):
        return self

    def __neg__(self):
        if self.kind == 'bits':
            n = SIZE[self.fmt] * 8
            return SymFloat('bits', self.fmt, self.a ^ (1 << (n - 1)), dt=self.dt)
        if self.kind == 'lin':
            return SymFloat('lin', self.fmt, self.a, -self.c, self.dt)
        return SymFloat('fp', self.fmt, z3.fpNeg(fp(self)), dt=self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.kind == 'bits':
            n = SIZE[self.fmt] * 8
            return SymFloat('bits', self.fmt, self.a & ((1 << (n - 1)) - 1), dt=self.dt)
        if self.kind == 'lin':
            return SymFloat('lin', self.fmt, abs(self.a), abs(self.c), self.dt)
        return SymFloat('fp', self.fmt, z3.fpAbs(fp(self)), dt=self.dt)

    def __add__(self, o): return fbin('add', self, o)
    def __radd__(self, o): return fbin('add', o, self)
    def __sub__(self, o): return fbin('sub', self, o)
    def __rsub__(self, o): return fbin('sub', o, self)
    def __mul__(self, o): return fbin('mul', self, o)
    def __rmul__(self, o): return fbin('mul', o, self)
    def __truediv__(self, o): return fbin('div', self, o)
    def __rtruediv__(self, o): return fbin('div', o, self)

    def __rpow__(self, o):
        if self.kind == 'lin' and float(o) == 10.0:
            return SymFloat('pow10', self.fmt, self, dt=self.dt)
        raise Unsupported('power of symbolic float')

    def __pow__(self, o):
        if isinstance(o, int) and o == 2:
            return self * self
        raise Unsupported('power of symbolic float')

    def __eq__(self, o): return fcmp('eq', self, o)
    def __ne__(self, o): return bnot(fcmp('eq', self, o))
    def __lt__(self, o): return fcmp('lt', self, o)
    def __le__(self, o): return fcmp('le', self, o)
    def __gt__(self, o): return fcmp('gt', self, o)
    def __ge__(self, o): return fcmp('ge', self, o)


def from_bits(a, fmt, dt=None):
    """Float with the given bit pattern; concrete patterns give real numbers."""
    if not isinstance(a, SymInt):
        v = struct.unpack(PACK[fmt], int(a).to_bytes(SIZE[fmt], 'little'))[0]
        return dt.type(v) if dt is not None else v
    return SymFloat('bits', fmt, a, dt=dt)


def from_int(a, dt=None):
    if isinstance(a, SymBool):
        a = a.as_int()
    if not isinstance(a, SymInt):
        return dt.type(int(a)) if dt is not None else float(a)
    return SymFloat('lin', 'f8', SymInt(a.e, a.s, a.lo, a.hi), 1, dt)


def isnan_bits(a, fmt):
    eb, sb = FMT[fmt]
    m = sb - 1
    mask = (1 << m) - 1
    em = ((1 << eb) - 1)
    return band(((a >> m) & em) == em, (a & mask) != 0)


def isnan(x):
    if isinstance(x, SymFloat):
        if x.kind == 'bits':
            return isnan_bits(x.a, x.fmt)
        if x.kind == 'fp':
            return SymBool(z3.fpIsNaN(x.a))
        return False
    return math.isnan(float(x)) if isinstance(x, (float, np.floating)) else False


def fp(x, fmt=None):
    """z3 FP term of x in format fmt (exact or correctly rounded)."""
    if isinstance(x, SymFloat):
        fmt = fmt or x.fmt
        if x.kind == 'bits':
            t = z3.fpBVToFP(tobv(x.a, SIZE[x.fmt] * 8), SORT[x.fmt])
            src = x.fmt
        elif x.kind == 'fp':
            t, src = x.a, x.fmt
        elif x.kind == 'lin' and x.c == 1:
            return z3.fpSignedToFP(z3.RNE(), tobv(x.a, x.a.e.size() + 1), SORT[fmt])
        else:
            raise Unsupported('scaled symbolic value in general floating point arithmetic')
        if src != fmt:
            t = z3.fpFPToFP(z3.RNE(), t, SORT[fmt])
        return t
    if isinstance(x, (SymInt, SymBool)):
        x = x if isinstance(x, SymInt) else x.as_int()
        return z3.fpSignedToFP(z3.RNE(), tobv(x, x.e.size() + 1), SORT[fmt])
    v = float(x)
    if fmt == 'f4':
        v = float(np.float32(v))
    return z3.FPVal(v, SORT[fmt])


def result_dt(a, b):
    da = getattr(a, 'dt', None) if isinstance(a, (SymFloat, SymInt)) else (a.dtype if isinstance(a, np.generic) else None)
    db = getattr(b, 'dt', None) if isinstance(b, (SymFloat, SymInt)) else (b.dtype if isinstance(b, np.generic) else None)
    if da is None and db is None:
        return None
    if da is None or db is None:
        d = da if da is not None else db
        o = b if da is not None else a
        if d.kind in 'iub':     # numpy int with Python float
            return np.dtype('f8') if isinstance(o, (float, SymFloat)) else d
        return d
    return np.result_type(da, db)


def fbin(op, a, b, dt=None):
    if not isinstance(a, SymFloat) and not isinstance(b, SymFloat):
        if isinstance(a, (SymInt, SymBool)):
            a = from_int(a, None)
        if isinstance(b, (SymInt, SymBool)):
            b = from_int(b, None)
        if not isinstance(a, SymFloat) and not isinstance(b, SymFloat):
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b}[op]()
    for x in (a, b):
        if not isinstance(x, (SymFloat, SymInt, SymBool, int, float, np.number, np.bool_)):
            return NotImplemented
    dt = dt or result_dt(a, b)
    if isinstance(a, (SymInt, SymBool)):
        a = from_int(a)
    if isinstance(b, (SymInt, SymBool)):
        b = from_int(b)
    ca = None if isinstance(a, SymFloat) else float(a)
    cb = None if isinstance(b, SymFloat) else float(b)
    if op == 'mul':
        if ca is not None and b.kind == 'lin':
            return SymFloat('lin', b.fmt, b.a, b.c * ca, dt)
        if cb is not None and a.kind == 'lin':
            return SymFloat('lin', a.fmt, a.a, a.c * cb, dt)
        if ca == 1.0:
            return b
        if cb == 1.0:
            return a
    if op == 'div' and cb is not None and cb != 0 and a.kind == 'lin':
        return SymFloat('lin', a.fmt, a.a, a.c / cb, dt)
    fmt = fmt_of(dt) if dt is not None else 'f8'
    x, y = fp(a, fmt), fp(b, fmt)
    if op in ('add', 'mul') and x.get_id() > y.get_id():
        x, y = y, x
    f = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[op]
    return SymFloat('fp', fmt, f(z3.RNE(), x, y), dt=dt)


def truediv(a, b):
    dt = result_dt(a, b)
    if dt is not None and dt.kind in 'iub':
        dt = np.dtype('f8')
    if isinstance(a, SymInt) and isinstance(b, (int, SymInt)) and not isinstance(b, bool):
        if isinstance(b, SymInt):
            lo, hi = rng(b)
            if lo <= 0 <= hi and not bool(b != 0):
                raise ZeroDivisionError('division by zero')
            b = eng().concretize(b)
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return SymFloat('lin', 'f8', SymInt(a.e, a.s, a.lo, a.hi), 1.0 / b, dt)
    if isinstance(b, SymInt):
        b = eng().concretize(b)
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return a / b
    return fbin('div', a, b, dt)


def _key(a, fmt):
    """Order-preserving unsigned key of a non-NaN bit pattern (-0 < +0)."""
    n = SIZE[fmt] * 8
    top = 1 << (n - 1)
    neg = (a & top) != 0
    return ite(neg, ((1 << n) - 1) ^ a, a | top) if isinstance(neg, SymBool) else (
        (((1 << n) - 1) ^ a) if neg else (a | top))


def _cbits(v, fmt):
    """Bits of a concrete float in fmt, or None if not exactly representable."""
    v = float(v)
    try:
        p = struct.pack(PACK[fmt], v)
    except OverflowError:
        return None
    back = struct.unpack(PACK[fmt], p)[0]
    if back != v and not (math.isnan(v)):
        return None
    return int.from_bytes(p, 'little')


def fcmp(op, a, b):
    if not isinstance(a, (SymFloat, SymInt, SymBool, int, float, np.number, np.bool_)) or \
            not isinstance(b, (SymFloat, SymInt, SymBool, int, float, np.number, np.bool_)):
        if op == 'eq':
            return False
        return NotImplemented
    if op == 'ne':
        return bnot(fcmp('eq', a, b))
    sa, sb = isinstance(a, SymFloat), isinstance(b, SymFloat)
    if not sa and sb:
        return fcmp({'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq'}[op], b, a)
    if isinstance(b, (SymInt, SymBool)):
        b = from_int(b)
        sb = True
    # numpy/Python: comparing an f4 scalar with a Python float converts the
    # Python float to f4 (NEP 50)
    if a.kind == 'bits' and not sb:
        v = float(b)
        if isinstance(a.dt, np.dtype) and isinstance(b, (float, int)) and not isinstance(b, np.generic):
            v = float(a.dt.type(v))
        if math.isnan(v):
            return False
        cb = _cbits(v, a.fmt)
        if cb is None:
            if op == 'eq':
                return False
        else:
            nn = bnot(isnan_bits(a.a, a.fmt))
            n = SIZE[a.fmt] * 8
            if op == 'eq':
                if v == 0.0:
                    return (a.a & ((1 << (n - 1)) - 1)) == 0
                return a.a == cb
            if v == 0.0:
                # treat both zeros alike
                top = 1 << (n - 1)
                zero = (a.a & (top - 1)) == 0
                neg = (a.a & top) != 0
                lt = band(nn, neg, bnot(zero))
                return {'lt': lt, 'ge': band(nn, bnot(lt)), 'le': band(nn, bor(lt, zero)),
                        'gt': band(nn, bnot(bor(lt, zero)))}[op]
            ka, kb = _key(a.a, a.fmt), _key(cb, a.fmt)
            return band(nn, {'lt': ka < kb, 'le': ka <= kb, 'gt': ka > kb, 'ge': ka >= kb}[op])
    if a.kind == 'lin' and not sb:
        v = float(b)
        if math.isnan(v):
            return False
        if a.c == 0:
            return {'eq': v == 0, 'lt': 0 < v, 'le': 0 <= v, 'gt': 0 > v, 'ge': 0 >= v}[op]
        q = v / a.c
        r = round(q)
        exact = abs(q - r) <= 1e-9 * max(1, abs(q))
        o = op
        if a.c < 0:
            o = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq'}[op]
        if exact:
            return {'eq': a.a == r, 'lt': a.a < r, 'le': a.a <= r, 'gt': a.a > r, 'ge': a.a >= r}[o]
        if math.isinf(q):
            return {'eq': False, 'lt': q > 0, 'le': q > 0, 'gt': q < 0, 'ge': q < 0}[o]
        f = math.floor(q)
        return {'eq': False, 'lt': a.a <= f, 'le': a.a <= f, 'gt': a.a > f, 'ge': a.a > f}[o]
    if a.kind == 'lin' and sb and b.kind == 'lin' and a.c == b.c and a.c > 0:
        return {'eq': a.a == b.a, 'lt': a.a < b.a, 'le': a.a <= b.a, 'gt': a.a > b.a, 'ge': a.a >= b.a}[op]
    fmt = 'f8'
    if sb and a.fmt == b.fmt and a.kind != 'lin' and b.kind != 'lin':
        fmt = a.fmt
    x, y = fp(a, fmt), fp(b, fmt)
    return SymBool({'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[op](x, y))


def clip(x, lo, hi):
    if not isinstance(x, SymFloat):
        return min(max(x, lo), hi)
    if x.kind == 'lin' and x.c > 0:
        a = x.a
        for lim, up in ((hi, True), (lo, False)):
            if lim is None:
                continue
            q = float(lim) / x.c
            r = round(q)
            if abs(q - r) > 1e-6 * max(1, abs(q)):
                raise Unsupported('clip at a fractional multiple')
            a = ite(a > r, r, a) if up else ite(a < r, r, a)
        return SymFloat('lin', x.fmt, a, x.c, x.dt) if isinstance(a, SymInt) else x.dt.type(a * x.c)
    if lo is not None and bool(x < lo):
        return lo
    if hi is not None and bool(x > hi):
        return hi
    return x


def to_dt(v, dt):
    """Convert a value to a floating dtype (element of an array of dtype dt)."""
    fmt = fmt_of(dt)
    if isinstance(v, (SymInt, SymBool)):
        v = from_int(v, dt)
        return to_dt(v, dt) if isinstance(v, SymFloat) else dt.type(v)
    if isinstance(v, SymFloat):
        if v.kind == 'bits':
            if SIZE[v.fmt] <= SIZE[fmt]:
                return SymFloat('bits', v.fmt, v.a, dt=dt)   # exact widening, pattern kept
            return SymFloat('fp', fmt, fp(v, fmt), dt=dt)
        if v.kind == 'fp' and SIZE[v.fmt] > SIZE[fmt]:
            return SymFloat('fp', fmt, fp(v, fmt), dt=dt)
        if v.kind == 'lin' and v.c == 1:
            # integer-valued: exact if it fits the mantissa
            m = FMT[fmt][1]
            if max(abs(v.a.lo), abs(v.a.hi)) > (1 << m):
                return SymFloat('fp', fmt, fp(v, fmt), dt=dt)
        return SymFloat(v.kind, v.fmt, v.a, v.c, dt)
    return dt.type(v)


def bits_of(v, fmt):
    """Bit pattern (int or SymInt) of v in fmt, or None."""
    if isinstance(v, SymFloat):
        if v.kind == 'bits' and v.fmt == fmt:
            return v.a
        return None
    if isinstance(v, (float, np.floating, int, np.integer)):
        return int.from_bytes(np.asarray(v, dtype='<' + fmt).tobytes(), 'little')
    return None


def fsame(a, b, rel=None):
    """Condition: a and b are the same number (NaN equals NaN, the sign of zero
    is ignored), up to a relative tolerance for scaled integers."""
    sa, sb = isinstance(a, SymFloat), isinstance(b, SymFloat)
    if isinstance(a, (SymInt, SymBool)):
        a, sa = from_int(a), True
        sa = isinstance(a, SymFloat)
    if isinstance(b, (SymInt, SymBool)):
        b = from_int(b)
        sb = isinstance(b, SymFloat)
    if not sa and not sb:
        x, y = float(a), float(b)
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) and math.isnan(y)
        if x == y:
            return True
        return rel is not None and abs(x - y) <= rel * max(abs(x), abs(y))
    if not sa:
        return fsame(b, a, rel)
    if a.kind == 'pow10' or (sb and b.kind == 'pow10'):
        if sb and a.kind == b.kind == 'pow10':
            return fsame(a.a, b.a, rel)
        raise Unsupported('comparison of a symbolic power')
    if a.kind == 'bits' and sb and b.kind == 'bits':
        if a.fmt == b.fmt:
            n = SIZE[a.fmt] * 8
            z = (1 << (n - 1)) - 1
            return bor(a.a == b.a, band(isnan(a), isnan(b)), band((a.a & z) == 0, (b.a & z) == 0))
    if a.kind == 'bits' and not sb:
        if math.isnan(float(b)):
            return isnan(a)
        return fcmp('eq', SymFloat('bits', a.fmt, a.a), float(b))
    if a.kind == 'lin' and not sb:
        if rel is None:
            return fcmp('eq', a, b)
        v = float(b)
        if math.isnan(v) or math.isinf(v):
            return False
        q = v / a.c if a.c else 0
        return a.a == round(q) if abs(q - round(q)) <= 1e-4 * max(1, abs(q)) else False
    if a.kind == 'lin' and sb and b.kind == 'lin':
        if a.c == b.c or (rel is not None and abs(a.c - b.c) <= rel * abs(a.c)):
            return a.a == b.a
        if (a.c > 0) == (b.c < 0) and abs(a.c + b.c) <= (rel or 0) * abs(a.c):
            return a.a == -b.a
        from fractions import Fraction
        r = Fraction(b.c / a.c).limit_denominator(100000)
        if abs(float(r) - b.c / a.c) <= 1e-6 * abs(b.c / a.c):
            return a.a * r.denominator == b.a * r.numerator
        return band(a.a == 0, b.a == 0)
    if a.kind == 'fp' and sb and b.kind == 'fp' and a.fmt == b.fmt:
        if a.a.eq(b.a):
            return True
    fmt = 'f8'
    if sb and a.fmt == b.fmt:
        fmt = a.fmt
    x, y = fp(a, fmt), fp(b, fmt)
    return SymBool(z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))))
