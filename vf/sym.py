"""Symbolic values and the path-exploration engine.

Python integers are represented exactly (never wrapping) as bit-vectors whose
width grows with the value range; machine integers wrap explicitly (`wrap`).
A branch on a symbolic condition asks the solver which sides are feasible under
the current path condition and explores every feasible side (depth first, by
re-execution).  `Engine.check` asks the solver for a value that breaks the
asserted condition under the path condition.
"""
import time
import numpy as np
import z3

BVV = z3.BitVecVal


class PathAbort(BaseException):
    """The current path is infeasible (an assumption excludes it)."""


class Unsupported(BaseException):
    """The engine cannot follow the code any further on this path."""


class NoFork(BaseException):
    """A decision would be needed while both sides of a branch are evaluated."""


class CaseBudget(BaseException):
    """The time budget of the case is used up."""


class Engine:
    cur = None

    def __init__(self, timeout_ms=20000, max_enum=70, deadline=None):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', 1)
        self.trail = []      # entries: dict(kind, val, alt, expr)
        self.pos = 0
        self.lits = {}
        self.ints = {}
        self.keep = []
        self.queries = 0
        self.solver_time = 0.0
        self.paths = 0
        self.branches = 0
        self.max_enum = max_enum
        self.deadline = deadline
        self.inputs = {}     # name -> (z3 const, kind, lo)
        self.order = []
        self.proved = {}     # (pos, n) -> True
        self.ncheck = 0
        self.unknowns = 0
        self.obligations = 0
        self.discharged = 0
        self.forks = 0
        self.notes = set()
        self._lastmodel = None
        self.spec = 0

    # ---- exploration -------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.lits = {}
        self.ints = {}
        self.keep = []
        self.inputs = {}
        self.order = []
        self.ncheck = 0
        self._lastmodel = None
        Engine.cur = self

    def next_path(self):
        """Backtrack to the deepest open alternative; False if none is left."""
        # drop entries not reached (defensive)
        while self.trail:
            d = self.trail[-1]
            if d['alt'] is not None:
                self.solver.pop()
                alt = d['alt']
                self.trail[-1] = alt
                self.solver.push()
                self.solver.add(alt['expr'])
                n = len(self.trail) - 1
                self.proved = {k: v for k, v in self.proved.items() if k[0] <= n}
                return True
            self.solver.pop()
            self.trail.pop()
        return False

    def _sat(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise CaseBudget()
        self.queries += 1
        t = time.time()
        if extra:
            r = self.solver.check(*extra)
        else:
            r = self.solver.check()
        self.solver_time += time.time() - t
        return r

    def _push(self, entry):
        self.trail.append(entry)
        self.pos = len(self.trail)
        self.solver.push()
        self.solver.add(entry['expr'])

    def _replay(self):
        """True while we are still inside the recorded prefix."""
        return self.pos < len(self.trail)

    def lit(self, e, val):
        self.keep.append(e)
        self.lits[e.get_id()] = val

    def known(self, c):
        """Truth value of a SymBool if it is already decided on this path."""
        e = z3.simplify(c.e)
        neg = False
        while z3.is_not(e):
            e = e.arg(0)
            neg = not neg
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e) != neg
        k = self.lits.get(e.get_id())
        return None if k is None else k != neg

    def branch(self, e):
        """Decide a z3 Bool on this path."""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        neg = False
        while z3.is_not(e):
            e = e.arg(0)
            neg = not neg
        known = self.lits.get(e.get_id())
        if known is not None:
            return known != neg
        if self.spec:
            raise NoFork()
        if self._replay():
            d = self.trail[self.pos]
            assert d['kind'] == 'b', 'non-deterministic re-execution'
            self.pos += 1
            v = d['val']
            self.lit(e, v)
            return v != neg
        self.forks += 1
        ne = z3.Not(e)
        r1 = self._sat(e)
        if r1 == z3.unsat:
            # path condition implies not e (path itself is feasible by invariant)
            self._push(dict(kind='b', val=False, alt=None, expr=ne))
            self.lit(e, False)
            return neg
        r2 = self._sat(ne)
        if r1 == z3.unknown or r2 == z3.unknown:
            self.unknowns += 1
            if r1 == z3.unknown and r2 == z3.unknown:
                raise Unsupported('solver gave no answer on a branch')
        if r2 == z3.unsat:
            self._push(dict(kind='b', val=True, alt=None, expr=e))
            self.lit(e, True)
            return True != neg
        if r2 == z3.unknown or r1 == z3.unknown:
            raise Unsupported('solver gave no answer on a branch')
        self.branches += 1
        alt = dict(kind='b', val=False, alt=None, expr=ne)
        self._push(dict(kind='b', val=True, alt=alt, expr=e))
        self.lit(e, True)
        return True != neg

    def concretize(self, x, limit=None):
        """Case split on the value of a SymInt: explores every feasible value."""
        if not isinstance(x, SymInt):
            return int(x)
        e = z3.simplify(x.e)
        if z3.is_bv_value(e):
            v = e.as_long() if not x.s else e.as_signed_long()
            return v
        k = (e.get_id(), x.s)
        if k in self.ints:
            return self.ints[k]
        if self.spec:
            raise NoFork()
        self.keep.append(e)
        limit = limit or self.max_enum
        n = 0
        while True:
            if self._replay():
                d = self.trail[self.pos]
                assert d['kind'] == 'v', 'non-deterministic re-execution'
                self.pos += 1
                if d['val'] is None:
                    n = d['n']
                    continue
                self.ints[k] = d['val']
                return d['val']
            self.forks += 1
            r = self._sat()
            if r == z3.unknown:
                self.unknowns += 1
                raise Unsupported('solver gave no answer on a case split')
            if r == z3.unsat:
                raise PathAbort()
            m = self.solver.model()
            mv = m.eval(e, model_completion=True)
            v = mv.as_signed_long() if x.s else mv.as_long()
            n += 1
            if n > limit:
                raise Unsupported('case split over more than %d values' % limit)
            eq = e == mv
            ne = z3.Not(eq)
            r2 = self._sat(ne)
            if r2 == z3.unknown:
                self.unknowns += 1
                raise Unsupported('solver gave no answer on a case split')
            alt = None
            if r2 == z3.sat:
                self.branches += 1
                alt = dict(kind='v', val=None, n=n, alt=None, expr=ne)
            self._push(dict(kind='v', val=v, alt=alt, expr=eq))
            self.ints[k] = v
            return v

    def assume(self, c):
        if isinstance(c, SymBool):
            e = z3.simplify(c.e)
        elif c is True or c is False or isinstance(c, (bool, np.bool_)):
            if not c:
                raise PathAbort()
            return
        else:
            raise TypeError(type(c))
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathAbort()
        if self.spec:
            raise NoFork()
        if self._replay():
            d = self.trail[self.pos]
            assert d['kind'] == 'a', 'non-deterministic re-execution'
            self.pos += 1
            if d['val'] is False:
                raise PathAbort()
            return
        self._push(dict(kind='a', val=True, alt=None, expr=e))
        r = self._sat()
        if r == z3.unsat:
            self.trail[-1]['val'] = False
            raise PathAbort()
        if r == z3.unknown:
            self.unknowns += 1
            raise Unsupported('solver gave no answer on an assumption')

    def check(self, c):
        """None if c holds for all values on this path, else a model (or 'unknown')."""
        self.ncheck += 1
        self.obligations += 1
        if isinstance(c, (bool, np.bool_)):
            if c:
                self.discharged += 1
                return None
            return self.model()
        e = z3.simplify(c.e)
        if z3.is_true(e):
            self.discharged += 1
            return None
        key = (self.pos, self.ncheck)
        if self._replay() and self.proved.get(key):
            self.obligations -= 1
            return None
        if key in self.proved:
            self.obligations -= 1
            return None
        ne = z3.simplify(z3.Not(e))
        # inputs need the path condition; prefix entries not yet replayed are
        # part of the solver state already, which only strengthens it.
        if self._replay():
            return 'later'
        r = self._sat(ne)
        if r == z3.unsat:
            self.discharged += 1
            self.proved[key] = True
            return None
        if r == z3.sat:
            m = self.solver.model()
            return self._inputs_from(m)
        self.unknowns += 1
        return 'unknown'

    def model(self):
        r = self._sat()
        if r != z3.sat:
            return 'unknown'
        return self._inputs_from(self.solver.model())

    def _inputs_from(self, m):
        out = {}
        for name in self.order:
            c, kind = self.inputs[name]
            v = m.eval(c, model_completion=True)
            if kind == 'u':
                out[name] = v.as_long()
            elif kind == 's':
                out[name] = v.as_signed_long()
            else:
                out[name] = bool(z3.is_true(v))
        return out

    def models(self, n, seed=0):
        """Up to n different models of the path condition (sampling fallback)."""
        res = []
        self.solver.push()
        try:
            import random
            rnd = random.Random(seed)
            consts = [self.inputs[k][0] for k in self.order if self.inputs[k][1] in 'us']
            for i in range(n):
                extra = []
                if consts and i:
                    for c in rnd.sample(consts, min(len(consts), 6)):
                        w = c.size()
                        b = rnd.randrange(w)
                        extra.append(z3.Extract(b, b, c) == rnd.randrange(2))
                r = self._sat(*extra)
                if r != z3.sat:
                    r = self._sat()
                if r != z3.sat:
                    break
                m = self.solver.model()
                res.append(self._inputs_from(m))
                if consts:
                    self.solver.add(z3.Or([c != m.eval(c, model_completion=True) for c in consts]))
        finally:
            self.solver.pop()
        return res

    # ---- inputs ------------------------------------------------------
    def new_bv(self, name, bits, signed=False):
        c = z3.BitVec(name, bits)
        assert name not in self.inputs, name
        self.inputs[name] = (c, 's' if signed else 'u')
        self.order.append(name)
        return SymInt(c, signed)

    def new_bool(self, name):
        c = z3.Bool(name)
        assert name not in self.inputs, name
        self.inputs[name] = (c, 'b')
        self.order.append(name)
        return SymBool(c)


def eng():
    return Engine.cur


# ---------------------------------------------------------------------------
def _bits_for(lo, hi):
    """(width, signed) able to hold lo..hi."""
    if lo >= 0:
        return max(1, hi.bit_length()), False
    return max((~lo).bit_length(), hi.bit_length() if hi >= 0 else 0) + 1, True


def tobv(x, w):
    """BV of width w congruent to x modulo 2^w."""
    if isinstance(x, SymInt):
        n = x.e.size()
        if n == w:
            return x.e
        if n > w:
            return z3.Extract(w - 1, 0, x.e)
        return z3.SignExt(w - n, x.e) if x.s else z3.ZeroExt(w - n, x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, BVV(1, w), BVV(0, w))
    return BVV(int(x), w)


def rng(x):
    if isinstance(x, SymInt):
        return x.lo, x.hi
    if isinstance(x, SymBool):
        return 0, 1
    v = int(x)
    return v, v


def mkint(e, s, lo=None, hi=None, dt=None):
    if z3.is_bv_value(e):
        v = e.as_signed_long() if s else e.as_long()
        return dt.type(v) if dt is not None else v
    return SymInt(e, s, lo, hi, dt)


def is_intlike(x):
    return isinstance(x, (int, SymInt, SymBool, np.integer, np.bool_))


def npdt(x):
    """numpy dtype tag of an int-like, or None for Python ints."""
    if isinstance(x, SymInt):
        return x.dt
    if isinstance(x, np.generic):
        return x.dtype
    return None


def _join_dt(a, b):
    """dtype of the result of a numpy scalar/array op with NEP 50 rules."""
    da, db = npdt(a), npdt(b)
    if da is None:
        return db
    if db is None:
        return da
    return np.result_type(da, db)


def dt_wrap(x, dt):
    if dt is None:
        return x
    if dt.kind == 'b':
        if isinstance(x, SymInt):
            return SymBool(x.e != 0)
        return bool(x)
    if dt.kind in 'iu':
        r = wrap(x, dt.itemsize * 8, dt.kind == 'i')
        if isinstance(r, SymInt):
            if r.dt is not dt:
                r = SymInt(r.e, r.s, r.lo, r.hi, dt)
            return r
        return dt.type(r)
    return x


def wrap(x, bits, signed):
    """x modulo 2^bits as an unsigned or two's complement number."""
    if isinstance(x, SymBool):
        x = x.as_int()
    if not isinstance(x, SymInt):
        v = int(x) & ((1 << bits) - 1)
        if signed and v >> (bits - 1):
            v -= 1 << bits
        return v
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if lo <= x.lo and x.hi <= hi:
        return x if x.dt is None else SymInt(x.e, x.s, x.lo, x.hi)
    return mkint(z3.simplify(tobv(x, bits)), signed)


class SymBool:
    __slots__ = ('e',)
    __array_ufunc__ = None

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def as_int(self):
        return mkint(z3.simplify(z3.If(self.e, BVV(1, 1), BVV(0, 1))), False, 0, 1)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __repr__(self):
        return '<SymBool>'

    def __format__(self, spec):
        return format(bool(self), spec)

    def __invert__(self):     # numpy bool semantics (Python bools are never inverted with ~ here)
        return SymBool(z3.Not(self.e))

    def _b(self, o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        b = self._b(o)
        if b is None:
            return self.as_int() & o
        return SymBool(z3.And(self.e, b))
    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        if b is None:
            return self.as_int() | o
        return SymBool(z3.Or(self.e, b))
    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        if b is None:
            return self.as_int() ^ o
        return SymBool(z3.Xor(self.e, b))
    __rxor__ = __xor__

    def __eq__(self, o):
        b = self._b(o)
        if b is not None:
            return SymBool(self.e == b)
        return self.as_int() == o

    def __ne__(self, o):
        r = self == o
        return bnot(r)


def _deleg(name):
    def f(self, *a):
        i = self.as_int()
        return getattr(i if isinstance(i, SymInt) else int(i), name)(*a)
    return f


for _n in ('__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lt__ __le__ __gt__ __ge__ '
           '__lshift__ __rshift__ __rlshift__ __rrshift__ __floordiv__ __rfloordiv__ __mod__ __rmod__ '
           '__neg__ __truediv__ __rtruediv__ __float__').split():
    setattr(SymBool, _n, _deleg(_n))


def bnot(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.e))
    return not x


def band(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif not x:
            return False
    if not es:
        return True
    return SymBool(z3.And(es)) if len(es) > 1 else SymBool(es[0])


def bor(*xs):
    es = []
    for x in xs:
        if isinstance(x, SymBool):
            es.append(x.e)
        elif x:
            return True
    if not es:
        return False
    return SymBool(z3.Or(es)) if len(es) > 1 else SymBool(es[0])


def ite(c, a, b):
    """Value-level if (ints only)."""
    if not isinstance(c, SymBool):
        return a if c else b
    la, ha = rng(a)
    lb, hb = rng(b)
    lo, hi = min(la, lb), max(ha, hb)
    w, s = _bits_for(lo, hi)
    return mkint(z3.simplify(z3.If(c.e, tobv(a, w), tobv(b, w))), s, lo, hi)


def merge(c, f, g):
    """(value,) of `f() if c else g()` for an undecided condition c without
    deciding it, or None if that is not possible.  f and g have no effects."""
    e = eng()
    e.spec += 1
    try:
        k = e.known(c)
        if k is not None:
            return None
        return (mergeval(c, f(), g()),)
    except (NoFork, Unsupported, Exception):
        return None
    finally:
        e.spec -= 1


def mergeval(c, a, b):
    if a is b:
        return a
    if isinstance(a, tuple) and type(a) is type(b) and len(a) == len(b):
        return tuple(mergeval(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        if isinstance(a, np.bool_) or isinstance(b, np.bool_):
            raise NoFork()
        return bor(band(c, a), band(bnot(c), b))
    if type(a) in (int, SymInt) and type(b) in (int, SymInt):
        if getattr(a, 'dt', None) is not None or getattr(b, 'dt', None) is not None:
            raise NoFork()
        return ite(c, a, b)
    raise NoFork()


FORMAT_CONCRETE = [False]


class SymInt:
    """Exact integer (or a numpy integer scalar if dt is set)."""
    __slots__ = ('e', 's', 'lo', 'hi', 'dt')
    __array_ufunc__ = None

    def __init__(self, e, s, lo=None, hi=None, dt=None):
        self.e = e
        self.s = s
        w = e.size()
        tlo, thi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        self.lo = tlo if lo is None else max(lo, tlo)
        self.hi = thi if hi is None else min(hi, thi)
        self.dt = dt

    # -- concretisation
    def __index__(self):
        return eng().concretize(self)

    def __int__(self):
        return eng().concretize(self)

    HASH = [False]        # keys of a facades.VCounter

    def __hash__(self):
        if SymInt.HASH[0]:
            return 0x5eed
        return hash(eng().concretize(self))

    def __float__(self):
        return float(eng().concretize(self))

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return eng().branch(self.e != 0)

    def __repr__(self):
        if FORMAT_CONCRETE[0]:
            return repr(eng().concretize(self))
        return '\ue000sym\ue000'

    __str__ = __repr__

    def __format__(self, spec):
        if FORMAT_CONCRETE[0]:
            return format(eng().concretize(self), spec)
        return '\ue000sym\ue000'

    def item(self):
        return SymInt(self.e, self.s, self.lo, self.hi)

    @property
    def dtype(self):
        if self.dt is None:
            raise AttributeError("'int' object has no attribute 'dtype'")
        return self.dt

    def astype(self, dt):
        dt = np.dtype(dt)
        if dt.kind in 'iub':
            return dt_wrap(self, dt)
        raise Unsupported('astype of a symbolic scalar to %s' % dt)

    @property
    def real(self):
        return self

    @property
    def size(self):
        return 1

    def bit_length(self):
        n = 0
        for i in range(self.e.size()):
            n = ite(abs(self) >= (1 << i), i + 1, n)
        return n

    def bit_count(self):
        a = abs(self)
        w = a.e.size() if isinstance(a, SymInt) else None
        if w is None:
            return int(a).bit_count()
        n = 0
        k = w.bit_length()
        tot = BVV(0, k)
        for i in range(w):
            tot = tot + z3.ZeroExt(k - 1, z3.Extract(i, i, a.e))
        return SymInt(z3.simplify(tot), False, 0, w)

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from .symbytes import SymBytes
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << 8 * length) - 1)
        if not (self >= lo) or not (self <= hi):
            raise OverflowError('int too big to convert')
        bv = tobv(self, 8 * length)
        out = [mkint(z3.simplify(z3.Extract(8 * i + 7, 8 * i, bv)), False) for i in range(length)]
        if byteorder == 'big':
            out.reverse()
        return SymBytes(out)

    # -- arithmetic
    def _coerce(self, o):
        if isinstance(o, SymInt):
            return o
        if isinstance(o, SymBool):
            return o.as_int()
        if isinstance(o, (bool, np.bool_)):
            return int(o)
        if isinstance(o, (int, np.integer)):
            return o
        return None

    def _fin(self, o, e, s, lo, hi):
        r = mkint(z3.simplify(e), s, lo, hi)
        dt = _join_dt(self, o)
        if dt is not None and dt.kind == 'f':
            raise Unsupported('integer/float promotion of symbolic numpy scalars')
        return dt_wrap(r, dt) if dt is not None else r

    def _float_op(self, o, name, refl=False):
        from .symfloat import SymFloat, fbin, from_int
        if isinstance(o, (float, np.floating, SymFloat)):
            a = from_int(self)
            return fbin(name, o, a) if refl else fbin(name, a, o)
        return NotImplemented

    def _addsub(self, o, sub, refl=False):
        c = self._coerce(o)
        if c is None:
            return self._float_op(o, 'sub' if sub else 'add', refl)
        a, b = (c, self) if refl else (self, c)
        la, ha = rng(a)
        lb, hb = rng(b)
        lo, hi = (la - hb, ha - lb) if sub else (la + lb, ha + hb)
        w, s = _bits_for(lo, hi)
        x, y = tobv(a, w), tobv(b, w)
        return self._fin(c, x - y if sub else x + y, s, lo, hi)

    def __add__(self, o): return self._addsub(o, False)
    def __radd__(self, o): return self._addsub(o, False, True)
    def __sub__(self, o): return self._addsub(o, True)
    def __rsub__(self, o): return self._addsub(o, True, True)

    def __mul__(self, o):
        if isinstance(o, (bytes, str, list, tuple)):
            return o * eng().concretize(self)
        c = self._coerce(o)
        if c is None:
            return self._float_op(o, 'mul')
        la, ha = rng(self)
        lb, hb = rng(c)
        ps = (la * lb, la * hb, ha * lb, ha * hb)
        lo, hi = min(ps), max(ps)
        w, s = _bits_for(lo, hi)
        return self._fin(c, tobv(self, w) * tobv(c, w), s, lo, hi)

    def __rmul__(self, o):
        if isinstance(o, (bytes, str, list, tuple)):
            return o * eng().concretize(self)
        c = self._coerce(o)
        if c is None:
            return self._float_op(o, 'mul', True)
        return self * o

    def __neg__(self):
        lo, hi = -self.hi, -self.lo
        w, s = _bits_for(lo, hi)
        return self._fin(0, -tobv(self, w), s, lo, hi)

    def __pos__(self):
        return self

    def __invert__(self):
        lo, hi = ~self.hi, ~self.lo
        w, s = _bits_for(lo, hi)
        return self._fin(0, ~tobv(self, w), s, lo, hi)

    def __abs__(self):
        if self.lo >= 0:
            return self
        n = -self
        return ite(self < 0, n, self)

    def _bitop(self, o, f):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        la, ha = rng(self)
        lb, hb = rng(c)
        if f == 'and':
            if la >= 0 and lb >= 0:
                lo, hi = 0, min(ha, hb)
            elif la >= 0:
                lo, hi = 0, ha
            elif lb >= 0:
                lo, hi = 0, hb
            else:
                w, s = _bits_for(min(la, lb), max(ha, hb))
                lo, hi = -(1 << (w - 1)), max(ha, hb, 0)
                hi = (1 << (w - 1)) - 1
        else:
            if la >= 0 and lb >= 0:
                lo, hi = 0, (1 << max(ha.bit_length(), hb.bit_length())) - 1
            else:
                w, s = _bits_for(min(la, lb), max(ha, hb))
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        w, s = _bits_for(lo, hi)
        x, y = tobv(self, w), tobv(c, w)
        e = x & y if f == 'and' else (x | y if f == 'or' else x ^ y)
        return self._fin(c, e, s, lo, hi)

    def __and__(self, o): return self._bitop(o, 'and')
    __rand__ = __and__
    def __or__(self, o): return self._bitop(o, 'or')
    __ror__ = __or__
    def __xor__(self, o): return self._bitop(o, 'xor')
    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = eng().concretize(o if isinstance(o, SymInt) else o.as_int())
        k = int(o)
        if k < 0:
            raise ValueError('negative shift count')
        lo, hi = self.lo << k, self.hi << k
        w, s = _bits_for(lo, hi)
        return self._fin(o, tobv(self, w) << BVV(k, w), s, lo, hi)

    def __rlshift__(self, o):
        if isinstance(o, np.generic):
            dt = _join_dt(self, o)
            return dt_wrap(int(o) << eng().concretize(self), dt)
        return o << eng().concretize(self)

    def __rshift__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = eng().concretize(o if isinstance(o, SymInt) else o.as_int())
        k = int(o)
        if k < 0:
            raise ValueError('negative shift count')
        lo, hi = self.lo >> k, self.hi >> k
        w0 = self.e.size()
        if k >= w0:
            e = BVV(0, w0) if not self.s else self.e >> BVV(w0 - 1, w0)
        else:
            e = (self.e >> BVV(k, w0)) if self.s else z3.LShR(self.e, BVV(k, w0))
        w, s = _bits_for(lo, hi)
        t = SymInt(e, self.s)
        return self._fin(o, tobv(t, w), s, lo, hi)

    def __rrshift__(self, o):
        return o >> eng().concretize(self)

    def _divmod(self, a, b):
        """Floor division on exact ints; forks on a zero divisor."""
        lb, hb = rng(b)
        if lb <= 0 <= hb:
            if not (b != 0):
                raise ZeroDivisionError('integer division or modulo by zero')
        la, ha = rng(a)
        if not isinstance(b, SymInt) and int(b) > 0 and (int(b) & (int(b) - 1)) == 0:
            k = int(b).bit_length() - 1
            ai = a if isinstance(a, SymInt) else int(a)
            ai = SymInt(ai.e, ai.s, ai.lo, ai.hi) if isinstance(ai, SymInt) else ai
            return ai >> k, ai & (int(b) - 1)
        m = max(abs(la), abs(ha)) + 1
        w, _ = _bits_for(min(la, lb, -m), max(ha, hb, m))
        w += 1
        x, y = tobv(a, w), tobv(b, w)
        if la >= 0 and lb >= 0:
            q, r = z3.UDiv(x, y), z3.URem(x, y)
        else:
            r = x - y * 0
            q0, r0 = x / y, z3.SRem(x, y)       # truncating
            adj = z3.And(r0 != 0, (r0 < 0) != (y < 0))
            q = z3.If(adj, q0 - 1, q0)
            r = z3.If(adj, r0 + y, r0)
        if lb == hb and lb > 0:
            qlo, qhi, rlo, rhi = la // lb, ha // lb, 0, lb - 1
        else:
            mb = max(abs(lb), abs(hb))
            qlo, qhi = -m, m
            if la >= 0 and lb >= 0:
                qlo = 0
            rlo, rhi = (0 if lb >= 0 else -mb), (mb if hb > 0 else 0)
        wq, sq = _bits_for(qlo, qhi)
        wr, sr = _bits_for(rlo, rhi)
        Q = mkint(z3.simplify(tobv(SymInt(q, True), wq)), sq, qlo, qhi)
        R = mkint(z3.simplify(tobv(SymInt(r, True), wr)), sr, rlo, rhi)
        return Q, R

    def _dm(self, o, which, refl):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        a, b = (c, self) if refl else (self, c)
        r = self._divmod(a, b)[which]
        dt = _join_dt(self, c)
        return dt_wrap(r, dt) if dt is not None else r

    def __floordiv__(self, o): return self._dm(o, 0, False)
    def __rfloordiv__(self, o): return self._dm(o, 0, True)
    def __mod__(self, o): return self._dm(o, 1, False)
    def __rmod__(self, o): return self._dm(o, 1, True)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self

    def __truediv__(self, o):
        from .symfloat import truediv
        return truediv(self, o)

    def __rtruediv__(self, o):
        from .symfloat import truediv
        return truediv(o, self)

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and mod is None and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return eng().concretize(self) ** o

    def __rpow__(self, o):
        return o ** eng().concretize(self)

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    # -- comparison
    def _cmp(self, o, op):
        c = self._coerce(o)
        if c is None:
            from .symfloat import SymFloat, fcmp, from_int
            if isinstance(o, (float, np.floating, SymFloat)):
                return fcmp(op, from_int(self), o)
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        la, ha = self.lo, self.hi
        lb, hb = rng(c)
        if op == 'lt':
            if ha < lb: return True
            if la >= hb: return False
        elif op == 'le':
            if ha <= lb: return True
            if la > hb: return False
        elif op == 'gt':
            if la > hb: return True
            if ha <= lb: return False
        elif op == 'ge':
            if la >= hb: return True
            if ha < lb: return False
        else:
            if ha < lb or la > hb:
                return op == 'ne'
            if la == ha == lb == hb:
                return op == 'eq'
        w, s = _bits_for(min(la, lb), max(ha, hb))
        x, y = tobv(self, w), tobv(c, w)
        if op == 'eq': e = x == y
        elif op == 'ne': e = x != y
        elif op == 'lt': e = x < y if s else z3.ULT(x, y)
        elif op == 'le': e = x <= y if s else z3.ULE(x, y)
        elif op == 'gt': e = x > y if s else z3.UGT(x, y)
        else: e = x >= y if s else z3.UGE(x, y)
        return SymBool(e)

    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')
    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')


def is_sym(x):
    return isinstance(x, (SymInt, SymBool)) or type(x).__name__ == 'SymFloat'
