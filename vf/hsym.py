"""Symbolic mode of the harness vocabulary."""
import datetime
import numpy as np
import z3
from . import h as H
from . import interp, facades, symnp, cyx, sym
from .sym import (Engine, SymInt, SymBool, PathAbort, Unsupported, band, bor, bnot, ite, tobv, mkint, is_sym, BVV)
from .symbytes import SymBytes, SymStr, elems, mk, join
from .symfloat import SymFloat, from_bits, fsame, isnan
from .symnp import SymArray, SA, SR, SRec

SYMK = (SymInt, SymBool, SymFloat, SymBytes, SymStr, SymArray, SRec)


class PathDone(BaseException):
    """The path ended with a failed or undecided assertion."""

    def __init__(self, msg, inputs, unknown=False):
        self.msg, self.inputs, self.unknown = msg, inputs, unknown
        BaseException.__init__(self, msg)


class SymH:
    sym = True

    def __init__(self, engine, loader):
        self.e = engine
        self.loader = loader
        self.n = 0
        self.fs = facades.FS()
        self.nfile = 0
        interp.Out.lines = []
        interp.Out.warnings = []
        del cyx.OOB[:]
        symnp.UNINIT[0] = 0
        cyx.NGARB[0] = 0

    # ---- code under test
    def load(self, name):
        return self.loader.load(name)

    @property
    def oob(self):
        return list(cyx.OOB)

    @property
    def warnings(self):
        return list(interp.Out.warnings)

    @property
    def printed(self):
        return list(interp.Out.lines)

    # ---- inputs
    def _name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def int(self, bits, signed=False, name=None):
        return self.e.new_bv(self._name(name or ('s' if signed else 'u')), bits, signed)

    def byte(self):
        return self.int(8)

    def bytes(self, n):
        return mk([self.int(8) for _ in range(n)])

    def bool(self):
        return self.e.new_bool(self._name('b'))

    def pick(self, options, name=None):
        options = list(options)
        if len(options) == 1:
            return options[0]
        w = max(1, (len(options) - 1).bit_length())
        x = self.int(w, False, name or 'pick')
        self.assume(x < len(options))
        return options[self.e.concretize(x, limit=max(70, len(options) + 1))]

    def range(self, lo, hi, name=None):
        """Integer lo..hi, decided per path."""
        return self.pick(range(lo, hi + 1), name)

    def concrete(self, x):
        return self.e.concretize(x) if isinstance(x, SymInt) else (bool(x) if isinstance(x, SymBool) else x)

    # ---- logic
    def assume(self, c):
        self.e.assume(c if isinstance(c, SymBool) else bool(c))

    def ite(self, c, a, b):
        if not isinstance(c, SymBool):
            return a if c else b
        if isinstance(a, SymFloat) or isinstance(b, SymFloat):
            return symnp._sel(c, a, b)
        return ite(c, a, b)

    def And(self, *a): return band(*a)
    def Or(self, *a): return bor(*a)
    def Not(self, a): return bnot(a)

    # ---- data
    def le(self, v, n):
        if isinstance(v, (SymInt, SymBool)):
            bv = tobv(v, 8 * n)
            return mk([mkint(z3.simplify(z3.Extract(8 * i + 7, 8 * i, bv)), False) for i in range(n)])
        return (int(v) & ((1 << 8 * n) - 1)).to_bytes(n, 'little')

    def f4(self, bits):
        return from_bits(bits, 'f4', np.dtype('f4')) if isinstance(bits, SymInt) else np.frombuffer(int(bits).to_bytes(4, 'little'), 'f4')[0]

    def f8(self, bits):
        return from_bits(bits, 'f8', np.dtype('f8')) if isinstance(bits, SymInt) else np.frombuffer(int(bits).to_bytes(8, 'little'), 'f8')[0]

    def f2(self, bits):
        return from_bits(bits, 'f2', np.dtype('f2')) if isinstance(bits, SymInt) else np.frombuffer(int(bits).to_bytes(2, 'little'), 'f2')[0]

    def signed32(self, u):
        """An unsigned 32-bit number read as signed."""
        return ite((u >> 31) & 1 == 1, u - (1 << 32), u)

    def hex(self, u):
        """hex() of a number (only checked on the real code if symbolic)."""
        return H.ANY if isinstance(u, SymInt) else hex(u)

    def scaled(self, n, c):
        """n * c."""
        from .symfloat import from_int
        x = from_int(n)
        return x * float(c)

    def pow10(self, n, c):
        """10 ** (c * n), up to rounding."""
        return H.Approx(10.0 ** self.scaled(n, c), 1e-4)

    def varint_bytes(self, u, n):
        if not isinstance(u, SymInt):
            return H.spec_varint_bytes(int(u), n)
        if n == 9:
            bv = tobv(u, 64)
            out = [0xff]
            k = 8
        else:
            bv = z3.simplify(tobv(u, 8 * n) | BVV(H.VARINT_PREFIX[n - 1] << (8 * (n - 1)), 8 * n))
            out = []
            k = n
        out += [mkint(z3.simplify(z3.Extract(8 * i + 7, 8 * i, bv)), False) for i in reversed(range(k))]
        return mk(out)

    def zigzag(self, u):
        return ite((u & 1) == 1, -(u >> 1) - 1, u >> 1)

    def join(self, parts):
        out = []
        for p in parts:
            out += elems(p)
        return mk(out)

    def isnan(self, x):
        return isnan(x)

    def text(self, b, enc='utf-8'):
        """Expected text for bytes that are assumed ASCII."""
        for x in elems(b):
            self.assume(x < 128)
        return mk_text(b)

    def utf8(self, lens):
        """Characters with encodings of the given lengths: bytes and text."""
        b, t = [], []
        for n in lens:
            c = self.int((7, 11, 16, 21)[n - 1])
            if n > 1:
                self.assume(c >= (0, 0, 0x80, 0x800, 0x10000)[n])
            if n == 3:
                self.assume(bor(c < 0xd800, c > 0xdfff))
            if n == 4:
                self.assume(c <= 0x10ffff)
            t.append(c)
            b.append(c if n == 1 else (c >> 6 * (n - 1)) | (0, 0, 0xc0, 0xe0, 0xf0)[n])
            b += [((c >> 6 * i) & 0x3f) | 0x80 for i in reversed(range(n - 1))]
        return mk([x if isinstance(x, int) else mkint(z3.simplify(z3.Extract(7, 0, tobv(x, 24))), False) for x in b]), SymStr(t)

    def ascii(self, n, printable=True):
        b = self.bytes(n)
        for x in elems(b):
            self.assume(x < 128)
            if printable:
                self.assume(x >= 32)
                self.assume(x != 127)
        return b

    def writer(self):
        return H.W(self)

    # ---- files
    def file(self, content, kind='plain', cuts=(), name=None, fail=None, raw=None):
        """A file with the given (decompressed) content; returns its path.
        cuts: positions where the compressed frames or members are split."""
        self.nfile += 1
        path = name or '/vf/file%d.dat' % self.nfile
        e = elems(content)
        frames = []
        last = 0
        for c in list(cuts) + [len(e)]:
            frames.append(mk(e[last:c]))
            last = c
        self.fs.files[path] = facades.VFile(kind, frames, raw=raw, fail=fail)
        return path

    def sparse(self, parts, length):
        """A file of that length with holes (zeros) between the parts (position, bytes)."""
        self.nfile += 1
        path = '/vf/file%d.dat' % self.nfile
        self.fs.files[path] = facades.VFile('plain', facades.Holes(parts, length))
        return path

    def open_handles(self):
        """How many files and pipes are open."""
        return self.fs.open_handles()

    def no_gzip(self):
        """No external gzip can be started."""
        self.fs.no_gzip_binary = True

    def pipe(self, content, blocks=()):
        """Buffered forward-only reader over a transport that delivers blocks of these sizes."""
        return facades.PipeOut(mk(elems(content)))

    def rawfile(self, content):
        """A file of exactly these bytes (magic included)."""
        return self.file(content, 'plain')

    def out_path(self, name):
        return '/vf/out/' + name

    def written(self, path):
        """(kind, bytes) written to path or None."""
        r = self.fs.written.get(path)
        if r is None:
            return None
        return r

    # ---- assertions
    def check(self, c, msg):
        if isinstance(c, SymArray):
            c = c.all()
        r = self.e.check(c if isinstance(c, SymBool) else bool(c))
        if r is None:
            return
        if r == 'unknown' or r == 'later':
            raise PathDone(msg, None, True)
        raise PathDone(msg, r)

    def fail(self, msg):
        self.check(False, msg)

    def eq(self, got, want, msg=''):
        conds = []
        self._eq(got, want, msg, conds)
        # long comparisons in parts: each is easy, all together need not be
        for k in range(0, max(len(conds), 1), 40):
            part = conds[k:k + 40]
            c = band(*[x for x, _ in part]) if part else True
            r = self.e.check(c if isinstance(c, SymBool) else bool(c))
            if r is not None:
                break
        if r is None:
            return
        if r == 'unknown' or r == 'later':
            raise PathDone(msg, None, True)
        # which part fails (for the message only)
        for x, m in conds:
            if not isinstance(x, SymBool):
                if not x:
                    raise PathDone(m, r)
                continue
        raise PathDone(msg + ' (one of: %s)' % ', '.join(m for x, m in conds if isinstance(x, SymBool))[:300], r)

    def cond(self, got, want):
        conds = []
        self._eq(got, want, '', conds)
        return band(*[x for x, _ in conds]) if conds else True

    def _eq(self, g, w, m, out):
        if w is H.ANY:
            return
        if isinstance(w, H.Approx):
            out.append((fsame(g, w.v, w.rel), m))
            return
        if isinstance(w, H.Arr):
            return self._eq_arr(g, w, m, out)
        if isinstance(w, H.Rec):
            return self._eq_rec(g, w, m, out)
        if isinstance(w, H.Seq):
            if isinstance(g, (SymArray, np.ndarray)) and g.ndim != 1:
                out.append((False, m + ': not one-dimensional'))
                return
            try:
                n = len(g)
            except TypeError:
                out.append((False, m + ': not a sequence'))
                return
            if n != len(w.items):
                out.append((False, '%s: length %d instead of %d' % (m, n, len(w.items))))
                return
            for i in range(n):
                self._eq(g[i], w.items[i], '%s[%d]' % (m, i), out)
            return
        if isinstance(w, dict):
            if not hasattr(g, 'keys') or isinstance(g, (SymArray, SRec)):
                out.append((False, '%s: %s instead of a dict' % (m, type(g).__name__)))
                return
            gk = list(g.keys())
            if any(isinstance(k, SYMK) for k in list(w) + gk):
                return self._eq_symdict(g, w, m, out)
            if set(gk) != set(w):
                out.append((False, '%s: keys %r instead of %r' % (m, sorted(map(str, set(gk) - set(w))), sorted(map(str, set(w) - set(gk))))))
                return
            for k in w:
                self._eq(g[k], w[k], '%s[%r]' % (m, k), out)
            return
        if isinstance(w, (list, tuple)):
            if isinstance(g, (SymArray, np.ndarray)):
                return self._eq_arr(g, H.Arr(*shape_of(w)), m, out)
            if type(g).__name__ == 'CyArray':
                g = g.v
            if not isinstance(g, (list, tuple)):
                out.append((False, '%s: %s instead of a sequence' % (m, type(g).__name__)))
                return
            if len(g) != len(w):
                out.append((False, '%s: length %d instead of %d' % (m, len(g), len(w))))
                return
            for i, (a, b) in enumerate(zip(g, w)):
                self._eq(a, b, '%s[%d]' % (m, i), out)
            return
        out.append((self._scalar(g, w), m))

    def _eq_symdict(self, g, w, m, out):
        gi, wi = list(g.items()), list(w.items())
        if len(gi) != len(wi):
            out.append((False, '%s: %d entries instead of %d' % (m, len(gi), len(wi))))
            return
        for (a, b), (c, d) in zip(gi, wi):
            out.append((self._scalar(a, c), m + ' key'))
            self._eq(b, d, m + ' value', out)

    def _scalar(self, g, w):
        if isinstance(g, SA) and g.ndim == 0:
            g = g._one()
        if w is None or g is None:
            return g is w
        if isinstance(w, (str, SymStr)):
            if isinstance(g, interp.LazyStr):
                g = g.force()
            if not isinstance(g, (str, SymStr)):
                return False
            if isinstance(w, SymStr):
                return w.eqx(g)
            return g.eqx(w) if isinstance(g, SymStr) else str(g) == str(w)
        if isinstance(w, (bytes, SymBytes)):
            eg, ew = elems(g), elems(w)
            if isinstance(g, (SymArray, np.ndarray)) or eg is None:
                return False
            if len(eg) != len(ew):
                return False
            return band(*[a == b for a, b in zip(eg, ew)])
        if isinstance(g, (str, bytes, SymStr, SymBytes, list, tuple, dict, SymArray)):
            return False
        if isinstance(w, bool) or isinstance(w, SymBool):
            if isinstance(g, (SymInt,)):
                g = SymBool(g.e != 0) if (g.lo >= 0 and g.hi <= 1) else g
            if isinstance(g, (bool, SymBool, np.bool_)):
                if isinstance(g, SymBool) or isinstance(w, SymBool):
                    r = SymBool(z3.Not(z3.Xor(_b(g), _b(w))))
                    return r
                return bool(g) == bool(w)
            r = g == w
            return r if isinstance(r, SymBool) else bool(r)
        if isinstance(g, (SymFloat, float, np.floating)) or isinstance(w, (SymFloat, float, np.floating)):
            return fsame(g, w)
        if isinstance(g, (int, SymInt, SymBool, np.integer, np.bool_)) and isinstance(w, (int, SymInt, np.integer)):
            r = g == w
            return r if isinstance(r, SymBool) else bool(r)
        r = g == w
        return r if isinstance(r, SymBool) else bool(r)

    def _eq_arr(self, g, w, m, out):
        if type(g).__name__ == 'CyArray':
            g = SA.from_list(g.v, symnp.np.dtype('i8')) if g.ct[0] == 'i' else SA.from_list(g.v, np.dtype('f8'))
        if isinstance(g, np.ndarray) and not isinstance(g, SymArray):
            g = SA.from_real(g)
        if isinstance(g, (list, tuple)) and len(w.shape) == 1:
            return self._eq(list(g), w.flat, m, out)
        if not isinstance(g, SymArray) or isinstance(g, SR):
            out.append((False, '%s: %s instead of an array' % (m, type(g).__name__)))
            return
        if tuple(g.shape) != tuple(w.shape):
            out.append((False, '%s: shape %r instead of %r' % (m, tuple(g.shape), tuple(w.shape))))
            return
        if w.kind and g.dtype.kind not in w.kind:
            out.append((False, '%s: dtype %s instead of kind %s' % (m, g.dtype, w.kind)))
            return
        for i, (a, b) in enumerate(zip(list(g._a.flat), w.flat)):
            self._eq(a, b, '%s[%d]' % (m, i), out)

    def _eq_rec(self, g, w, m, out):
        if isinstance(g, np.ndarray) and not isinstance(g, SymArray):
            g = SR.from_real(g)
        if isinstance(g, np.void):
            names = g.dtype.names
        else:
            if not isinstance(g, (SR, SRec)):
                out.append((False, '%s: %s instead of records' % (m, type(g).__name__)))
                return
            names = g.dtype.names
        if w.exact and set(names) != set(w.fields):
            out.append((False, '%s: fields %r' % (m, sorted(set(names) ^ set(w.fields)))))
            return
        if not set(w.fields) <= set(names):
            out.append((False, '%s: fields %r missing' % (m, sorted(set(w.fields) - set(names)))))
            return
        if w.n is not None:
            sh = tuple(g.shape) if not isinstance(g, SRec) else None
            n = w.n if isinstance(w.n, tuple) else (w.n,)
            if sh != n:
                out.append((False, '%s: shape %r instead of %r' % (m, sh, n)))
                return
        for k, v in w.fields.items():
            f = g[k]
            if w.n is None and isinstance(f, SymArray) and f.shape in ((), (1,)) and not isinstance(v, (H.Arr, list, tuple)):
                f = f._one()
            if isinstance(v, list):
                v = H.Arr(w.n if isinstance(w.n, tuple) else (len(v),), v) if not any(isinstance(x, (H.Arr, list)) for x in v) else H.Arr(*shape_of(v))
            self._eq(f, v, '%s[%s]' % (m, k), out)

    def types(self, x):
        """The element types of the arrays in a result: place -> set of types."""
        return H.array_types(x, lambda v: isinstance(v, (SymArray, np.ndarray)))

    def same(self, a, b, msg=''):
        """Two results of the code under test are equal."""
        conds = []
        self._same(a, b, msg, conds)
        self.decide(conds, msg)

    def decide(self, conds, msg):
        c = band(*[x for x, _ in conds]) if conds else True
        r = self.e.check(c if isinstance(c, SymBool) else bool(c))
        if r is None:
            return
        if r == 'unknown' or r == 'later':
            raise PathDone(msg, None, True)
        raise PathDone(next((m for x, m in conds if not isinstance(x, SymBool) and not x), msg), r)

    def _same(self, a, b, m, out):
        if a is b or (isinstance(a, interp.LazyStr) and isinstance(b, interp.LazyStr)):
            return        # texts made of symbolic values are compared in the native runs
        if isinstance(a, np.ndarray) and not isinstance(a, SymArray):
            a = SR.from_real(a) if a.dtype.names else SA.from_real(a)
        if isinstance(b, np.ndarray) and not isinstance(b, SymArray):
            b = SR.from_real(b) if b.dtype.names else SA.from_real(b)
        if type(a).__name__ == 'CyArray' and type(b).__name__ == 'CyArray':
            a, b = list(a.v), list(b.v)
        if isinstance(a, SR) or isinstance(b, SR):
            if not (isinstance(a, SR) and isinstance(b, SR)) or a.dtype != b.dtype or tuple(a.shape) != tuple(b.shape):
                out.append((False, m + ': records differ'))
                return
            for k in a.dtype.names:
                self._same(a[k], b[k], '%s[%s]' % (m, k), out)
        elif isinstance(a, SRec) or isinstance(b, SRec):
            if not (isinstance(a, SRec) and isinstance(b, SRec)) or a.dtype != b.dtype:
                out.append((False, m + ': records differ'))
                return
            for k in a.dtype.names:
                self._same(a[k], b[k], '%s[%s]' % (m, k), out)
        elif isinstance(a, SymArray) or isinstance(b, SymArray):
            if not (isinstance(a, SymArray) and isinstance(b, SymArray)) or a.dtype != b.dtype or tuple(a.shape) != tuple(b.shape):
                out.append((False, m + ': arrays differ'))
                return
            for i, (x, y) in enumerate(zip(list(a._a.flat), list(b._a.flat))):
                out.append((self._scalar(x, y), '%s[%d]' % (m, i)))
        elif hasattr(a, 'keys') and hasattr(b, 'keys'):
            ka, kb = list(a.keys()), list(b.keys())
            if any(isinstance(k, SYMK) for k in ka + kb):
                return self._eq_symdict_same(a, b, m, out)
            if set(ka) != set(kb):
                out.append((False, m + ': keys differ'))
                return
            for k in ka:
                self._same(a[k], b[k], '%s[%r]' % (m, k), out)
        elif isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not isinstance(b, (list, tuple)) or not isinstance(a, (list, tuple)) or len(a) != len(b):
                out.append((False, m + ': sequences differ'))
                return
            for i, (x, y) in enumerate(zip(a, b)):
                self._same(x, y, '%s[%d]' % (m, i), out)
        else:
            out.append((self._scalar(a, b), m))

    def _eq_symdict_same(self, a, b, m, out):
        x, y = list(a.items()), list(b.items())
        if len(x) != len(y):
            out.append((False, m + ': number of entries'))
            return
        for (k, v), (l, w) in zip(x, y):
            out.append((self._scalar(k, l), m + ' key'))
            self._same(v, w, m + ' value', out)

    def raises(self, f, *a, **k):
        """The exception f raises, or None."""
        try:
            f(*a, **k)
        except Exception as e:
            if unsup(e):
                raise Unsupported('proxy: %r' % (e,))
            return e
        return None

    def attempt(self, f, *a, **k):
        """(value, None) or (None, exception)."""
        try:
            return f(*a, **k), None
        except Exception as e:
            if unsup(e):
                raise Unsupported('proxy: %r' % (e,))
            return None, e

    def note(self, s):
        self.e.notes.add(s)

    def force(self, s):
        """Concrete text of something printed (forks)."""
        return interp.fstr(s)

    def printed_text(self):
        return ''.join(interp.fstr(x) for x in interp.Out.lines)

    def date(self, t, spec):
        """Local time t (seconds) in this format."""
        if not isinstance(t, SymInt):
            return datetime.datetime.fromtimestamp(t).strftime(spec)
        return (interp.SymDate(t), spec)

    def latin1(self, b):
        return mk_text(b) if any(isinstance(x, SymInt) for x in elems(b)) else bytes(elems(b)).decode('latin1')

    def printed_starts(self, want, msg='printed text'):
        """The printed text starts like this and goes on."""
        self.printed_is(want, msg, 'more')

    def printed_is(self, want, msg='printed text', start=False):
        """want: list of text, numbers, (number, format), h.date."""
        got = []
        for x in interp.Out.lines:
            p = interp.pieces_of(x)
            if p is None:
                got.append((x, None))
                continue
            got += p
        self._texts(got, want, msg, start)

    def text_is(self, x, want, msg='', start=False):
        """A text; want: list of text, numbers, (number, format)."""
        p = interp.pieces_of(x)
        self._texts([(x, None)] if p is None else p, want, msg, start)

    def says(self, x, text):
        """Does the text x contain this constant text?"""
        p = interp.pieces_of(x)
        if p is None:
            return text in untoken((x, None)) if isinstance(x, interp.LazyStr) else text in str(x)
        return text in ''.join(chr(t) if type(t) is int else '\0' for t in tokens(p))

    def _texts(self, got, want, msg, start):
        g, w = [tokens(x) for x in (got, want)]
        out = []
        i = 0
        while i < len(g) and i < len(w):
            if isinstance(g[i], tuple) != isinstance(w[i], tuple):
                number(g, i) or number(w, i)
            a, b = g[i], w[i]
            if isinstance(a, tuple) or isinstance(b, tuple):
                if not (isinstance(a, tuple) and isinstance(b, tuple) and a[1] == b[1] and type(a[0]) is type(b[0])):
                    break
                c = a[0].same(b[0]) if isinstance(a[0], interp.SymDate) else self._scalar(a[0], b[0])
            else:
                c = a == b
                if c is False:
                    break
            out.append((c, '%s, after %d characters' % (msg, i)))
            i += 1
        if i == len(w) and (i == len(g) if not start else i < len(g) or start != 'more'):
            return self.decide(out, msg)
        # not the same form: compare the texts
        gt, wt = ''.join(untoken(x) for x in g), ''.join(untoken(x) for x in w)
        if start and gt != wt[:len(gt)]:
            gt = gt[:len(wt)]
        self.check(gt == wt and start != 'more', '%s: %r instead of %r%s' % (msg, gt, wt, ' and more' if start == 'more' else ''))


def shape_of(v):
    """shape and flat values of nested lists / Arr."""
    if isinstance(v, H.Arr):
        return v.shape, v.flat
    if isinstance(v, (list, tuple)):
        if v and isinstance(v[0], (list, tuple, H.Arr)):
            subs = [shape_of(x) for x in v]
            return (len(v),) + tuple(subs[0][0]), [y for s in subs for y in s[1]]
        return (len(v),), list(v)
    return (), [v]


def _b(x):
    return x.e if isinstance(x, SymBool) else z3.BoolVal(bool(x))


def tokens(items):
    out = []
    for x in items:
        if isinstance(x, interp.LazyStr):
            p = x.pieces()
            out += tokens(p) if p is not None else [(x, None)]
        elif isinstance(x, str):
            out += [ord(c) for c in x]
        elif isinstance(x, SymStr):
            out += x.c
        else:
            v, spec = x if isinstance(x, tuple) else (x, '')
            if isinstance(v, (SymInt, SymFloat, interp.SymDate, interp.LazyStr)):
                out.append((v, spec))
            else:
                out += [ord(c) for c in format(v, spec)]
    return out


def number(g, i):
    """Joins the digits from g[i] on to a number."""
    j = i + 1 if i < len(g) and not isinstance(g[i], tuple) and g[i] == 45 else i
    k = j
    while k < len(g) and type(g[k]) is int and 48 <= g[k] <= 57:
        k += 1
    if k == j:
        return False
    g[i:k] = [(SymInt(z3.BitVecVal(int(''.join(map(chr, g[i:k]))), 64), True), '')]
    return True


def untoken(x):
    if not isinstance(x, tuple):
        return chr(int(x))
    v, spec = x
    if isinstance(v, interp.LazyStr):
        return v.force()
    old = interp.FORMAT_CONCRETE[0]
    interp.FORMAT_CONCRETE[0] = True
    try:
        return str(interp.fstr(format(v, spec)))
    finally:
        interp.FORMAT_CONCRETE[0] = old


def mk_text(b):
    e = elems(b)
    if all(not isinstance(x, SymInt) for x in e):
        return bytes(e).decode()
    return SymStr(list(e))


PROXY_NAMES = ('SymInt', 'SymBool', 'SymFloat', 'SymBytes', 'SymStr', 'SA', 'SR', 'SRec', 'SymArray', 'LazyStr', 'VRange',
               'CyArray', 'MV', 'NumpyFacade', 'Stream', 'RawFile', 'BytesIO', 'VFile')


def unsup(e):
    """Errors that speak about the stand-ins are limits of the engine."""
    if isinstance(e, (AttributeError, TypeError, NotImplementedError, ValueError, NameError)):
        if any(isinstance(x, interp.LazyStr) for x in e.args):
            return False         # formatted by the code under test
        s = str(e)
        import re
        for n in PROXY_NAMES:
            if re.search(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % n, s):
                return True
        if 'namespace(' in s or 'SimpleNamespace' in s:
            return True
    if isinstance(e, (RecursionError, AssertionError)) and 'non-deterministic' in str(e):
        return True
    return False
