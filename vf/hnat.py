"""Native mode: runs a harness against the built package with concrete inputs.

As a program: reads one JSON request per line ({prop, tier, case, inputs}) and
answers with one JSON line ({ok, msg})."""
import contextlib
import gzip
import importlib
import io
import json
import os
import shutil
import struct
import sys
import tempfile
import traceback
import warnings as W_
import datetime
import numpy as np
from . import h as H
from .h import CheckFail


class AssumptionFailed(BaseException):
    pass


class Blocks(io.RawIOBase):
    """Raw forward-only stream that delivers one block at a time."""

    def __init__(self, data, blocks):
        self.data, self.blocks, self.p = data, blocks or [1], 0
        self.i = 0

    def readable(self):
        return True

    def readinto(self, b):
        n = min(len(b), self.blocks[self.i % len(self.blocks)], len(self.data) - self.p)
        self.i += 1
        b[:n] = self.data[self.p:self.p + n]
        self.p += n
        return n

def nsame(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.dtype != b.dtype or a.shape != b.shape:
            return False
        return np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes() or nsame(a.tolist(), b.tolist())
    if hasattr(a, 'keys') and hasattr(b, 'keys'):
        return list(a.keys()) == list(b.keys()) and all(nsame(a[k], b[k]) for k in a.keys())
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(nsame(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)) and a != a and b != b:
        return True
    r = a == b
    return bool(r) and type(a) is type(b)


class NatH:
    sym = False

    def __init__(self, inputs, scratch):
        self.inputs = inputs
        self.n = 0
        self.dir = scratch
        self.nfile = 0
        self._warn = []
        self._out = io.StringIO()
        self.oob = []
        self._base = {}
        self._base = self._fds()

    # ---- code under test
    def load(self, name):
        return importlib.import_module(name)

    @property
    def warnings(self):
        return [(w.category, w.message) for w in self._warn]

    def printed_text(self):
        return self._out.getvalue()

    def date(self, t, spec):
        return datetime.datetime.fromtimestamp(t).strftime(spec)

    def latin1(self, b):
        return bytes(b).decode('latin1')

    def printed_starts(self, want, msg='printed text'):
        self.printed_is(want, msg, 'more')

    def printed_is(self, want, msg='printed text', start=False):
        w = ''.join(x if isinstance(x, str) else format(x[0], x[1]) if isinstance(x, tuple) else format(x, '') for x in want)
        g = self._out.getvalue()
        if start:
            self.check(start != 'more' or len(g) > len(w), '%s: nothing after %r' % (msg, w))
            g = g[:len(w)]
        self.check(g == w, '%s: %r instead of %r' % (msg, g, w))

    def text_is(self, x, want, msg='', start=False):
        w = ''.join(x if isinstance(x, str) else format(x[0], x[1]) if isinstance(x, tuple) else format(x, '') for x in want)
        x = x[:len(w)] if start else x
        self.check(x == w, '%s: %r instead of %r' % (msg, x, w))

    def says(self, x, text):
        return text in str(x)

    # ---- inputs
    def _name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def int(self, bits, signed=False, name=None):
        return self.inputs.get(self._name(name or ('s' if signed else 'u')), 0)

    def byte(self):
        return self.int(8)

    def bytes(self, n):
        return bytes([self.int(8) for _ in range(n)])

    def bool(self):
        return bool(self.inputs.get(self._name('b'), False))

    def pick(self, options, name=None):
        options = list(options)
        if len(options) == 1:
            return options[0]
        w = max(1, (len(options) - 1).bit_length())
        x = self.int(w, False, name or 'pick')
        self.assume(x < len(options))
        return options[x]

    def range(self, lo, hi, name=None):
        return self.pick(range(lo, hi + 1), name)

    def concrete(self, x):
        return x

    # ---- logic
    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *a): return all(a)
    def Or(self, *a): return any(a)
    def Not(self, a): return not a

    # ---- data
    def le(self, v, n):
        return (int(v) & ((1 << 8 * n) - 1)).to_bytes(n, 'little')

    def f4(self, bits):
        return np.frombuffer(int(bits).to_bytes(4, 'little'), 'f4')[0]

    def f8(self, bits):
        return np.frombuffer(int(bits).to_bytes(8, 'little'), 'f8')[0]

    def f2(self, bits):
        return np.frombuffer(int(bits).to_bytes(2, 'little'), 'f2')[0]

    def signed32(self, u):
        return u - (1 << 32) if u >> 31 & 1 else u

    def hex(self, u):
        return hex(u)

    def scaled(self, n, c):
        return float(n) * float(c)

    def pow10(self, n, c):
        return H.Approx(10.0 ** (float(n) * float(c)), 1e-4)

    def varint_bytes(self, u, n):
        return H.spec_varint_bytes(int(u), n)

    def zigzag(self, u):
        return -(u >> 1) - 1 if u & 1 else u >> 1

    def join(self, parts):
        return b''.join(bytes(p) for p in parts)

    def isnan(self, x):
        return bool(np.isnan(x))

    def text(self, b, enc='utf-8'):
        self.assume(all(x < 128 for x in b))
        return bytes(b).decode('ascii')

    def utf8(self, lens):
        t = ''
        for n in lens:
            c = self.int((7, 11, 16, 21)[n - 1])
            if n > 1:
                self.assume(c >= (0, 0, 0x80, 0x800, 0x10000)[n])
            if n == 3:
                self.assume(c < 0xd800 or c > 0xdfff)
            if n == 4:
                self.assume(c <= 0x10ffff)
            t += chr(c)
        return t.encode('utf-8'), t

    def ascii(self, n, printable=True):
        b = self.bytes(n)
        self.assume(all(x < 128 for x in b))
        if printable:
            self.assume(all(32 <= x != 127 for x in b))
        return b

    def writer(self):
        return H.W(self)

    # ---- files
    def file(self, content, kind='plain', cuts=(), name=None, fail=None, raw=None):
        self.nfile += 1
        fn = os.path.basename(name) if name else 'file%d.dat' % self.nfile
        path = os.path.join(self.dir, fn)
        content = bytes(content)
        frames = []
        last = 0
        for c in list(cuts) + [len(content)]:
            frames.append(content[last:c])
            last = c
        with open(path, 'wb') as f:
            if raw is not None:
                f.write(bytes(raw))
            elif kind == 'plain':
                f.write(content)
            elif kind == 'gzip':
                for x in frames:
                    f.write(gzip.compress(x))
            else:
                import zstandard
                for x in frames:
                    f.write(zstandard.ZstdCompressor().compress(x))
        if name and '/' not in name:
            os.chdir(self.dir)      # a relative path
            return name
        return path

    def sparse(self, parts, length):
        self.nfile += 1
        path = os.path.join(self.dir, 'file%d.dat' % self.nfile)
        with open(path, 'wb') as f:
            for at, p in parts:
                f.seek(at)
                f.write(bytes(p))
            f.truncate(length)
        return path

    def pipe(self, content, blocks=()):
        return io.BufferedReader(Blocks(bytes(content), list(blocks)))

    def rawfile(self, content):
        return self.file(content, 'plain')

    def _fds(self):
        out = {}
        for n in os.listdir('/proc/self/fd'):
            try:
                t = os.readlink('/proc/self/fd/' + n)
            except OSError:
                continue
            if t.startswith((self.dir, 'pipe:')):
                out[n] = t
        return out

    def open_handles(self):
        return sum(self._base.get(n) != t for n, t in self._fds().items())

    def no_gzip(self):
        os.environ['PATH'] = '/nonexistent'

    def out_path(self, name):
        d = os.path.join(self.dir, 'out')
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)

    def written(self, path):
        if not os.path.exists(path):
            return None
        with open(path, 'rb') as f:
            b = f.read()
        if b[:2] == b'\x1f\x8b':
            return 'gzip', list(gzip.decompress(b))
        return 'plain', list(b)

    # ---- assertions
    def check(self, c, msg):
        if not (c.all() if isinstance(c, np.ndarray) else c):
            raise CheckFail(msg)

    def fail(self, msg):
        raise CheckFail(msg)

    def eq(self, g, w, msg=''):
        m = self._eq(g, w, msg)
        if m:
            raise CheckFail(m)

    def cond(self, g, w):
        return not self._eq(g, w, '')

    def _eq(self, g, w, m):
        if w is H.ANY:
            return
        if isinstance(w, H.Approx):
            if isinstance(w.v, (float, np.floating)) and np.isnan(w.v):
                return None if np.isnan(g) else m
            if not (g == w.v or abs(float(g) - float(w.v)) <= w.rel * abs(float(w.v)) + w.abs):
                return '%s: %r instead of %r' % (m, g, w.v)
            return
        if isinstance(w, H.Arr):
            return self._eq_arr(g, w, m)
        if isinstance(w, H.Rec):
            return self._eq_rec(g, w, m)
        if isinstance(w, H.Seq):
            if isinstance(g, np.ndarray) and g.ndim != 1:
                return m + ': not one-dimensional'
            try:
                n = len(g)
            except TypeError:
                return m + ': not a sequence'
            if n != len(w.items):
                return '%s: length %d instead of %d' % (m, n, len(w.items))
            for i in range(n):
                r = self._eq(g[i], w.items[i], '%s[%d]' % (m, i))
                if r:
                    return r
            return
        if isinstance(w, dict):
            if not hasattr(g, 'keys'):
                return '%s: %s instead of a dict' % (m, type(g).__name__)
            if set(g.keys()) != set(w):
                return '%s: keys %r instead of %r' % (m, sorted(map(str, set(g) - set(w))), sorted(map(str, set(w) - set(g))))
            for k in w:
                r = self._eq(g[k], w[k], '%s[%r]' % (m, k))
                if r:
                    return r
            return
        if isinstance(w, (list, tuple)):
            if isinstance(g, np.ndarray):
                return self._eq_arr(g, H.Arr(*shape_of(w)), m)
            if type(g).__name__ == 'array':
                g = list(g)
            if not isinstance(g, (list, tuple)):
                return '%s: %s instead of a sequence' % (m, type(g).__name__)
            if len(g) != len(w):
                return '%s: length %d instead of %d' % (m, len(g), len(w))
            for i, (a, b) in enumerate(zip(g, w)):
                r = self._eq(a, b, '%s[%d]' % (m, i))
                if r:
                    return r
            return
        if not self._scalar(g, w):
            return '%s: %r instead of %r' % (m, g, w)

    def _scalar(self, g, w):
        if isinstance(g, np.ndarray) and g.ndim == 0:
            g = g[()]
        if w is None or g is None:
            return g is w
        if isinstance(w, str):
            return isinstance(g, str) and g == w
        if isinstance(w, bytes):
            return isinstance(g, (bytes, bytearray, memoryview)) and bytes(g) == w
        if isinstance(g, (str, bytes, list, tuple, dict, np.ndarray)):
            return False
        if isinstance(w, (float, np.floating)) or isinstance(g, (float, np.floating)):
            if w != w:
                return bool(g != g)
            return bool(g == w)
        return bool(g == w)

    def _eq_arr(self, g, w, m):
        if type(g).__name__ == 'array':
            g = np.array(list(g))
        if isinstance(g, (list, tuple)) and len(w.shape) == 1:
            return self._eq(list(g), w.flat, m)
        if not isinstance(g, np.ndarray) or g.dtype.names:
            return '%s: %s instead of an array' % (m, type(g).__name__)
        if g.shape != w.shape:
            return '%s: shape %r instead of %r' % (m, g.shape, w.shape)
        if w.kind and g.dtype.kind not in w.kind:
            return '%s: dtype %s instead of kind %s' % (m, g.dtype, w.kind)
        for i, (a, b) in enumerate(zip(g.ravel(), w.flat)):
            r = self._eq(a, b, '%s[%d]' % (m, i))
            if r:
                return r

    def _eq_rec(self, g, w, m):
        if not isinstance(g, (np.ndarray, np.void)) or not g.dtype.names:
            return '%s: %s instead of records' % (m, type(g).__name__)
        names = g.dtype.names
        if w.exact and set(names) != set(w.fields):
            return '%s: fields %r' % (m, sorted(set(names) ^ set(w.fields)))
        if not set(w.fields) <= set(names):
            return '%s: fields %r missing' % (m, sorted(set(w.fields) - set(names)))
        if w.n is not None:
            n = w.n if isinstance(w.n, tuple) else (w.n,)
            if g.shape != n:
                return '%s: shape %r instead of %r' % (m, g.shape, n)
        for k, v in w.fields.items():
            f = g[k]
            if w.n is None and isinstance(f, np.ndarray) and f.shape in ((), (1,)) and not isinstance(v, (H.Arr, list, tuple)):
                f = f.reshape(-1)[0]
            if isinstance(v, list):
                v = H.Arr(w.n if isinstance(w.n, tuple) else (len(v),), v) if not any(isinstance(x, (H.Arr, list)) for x in v) else H.Arr(*shape_of(v))
            r = self._eq(f, v, '%s[%s]' % (m, k))
            if r:
                return r

    def types(self, x):
        return H.array_types(x, lambda v: isinstance(v, np.ndarray))

    def same(self, a, b, msg=''):
        if not nsame(a, b):
            raise CheckFail(msg)

    def raises(self, f, *a, **k):
        try:
            f(*a, **k)
        except Exception as e:
            return e
        return None

    def attempt(self, f, *a, **k):
        try:
            return f(*a, **k), None
        except Exception as e:
            return None, e

    def note(self, s):
        pass

    def force(self, s):
        return s


def shape_of(v):
    if isinstance(v, H.Arr):
        return v.shape, v.flat
    if isinstance(v, (list, tuple)):
        if v and isinstance(v[0], (list, tuple, H.Arr)):
            subs = [shape_of(x) for x in v]
            return (len(v),) + tuple(subs[0][0]), [y for s in subs for y in s[1]]
        return (len(v),), list(v)
    return (), [v]


def run_one(case, inputs):
    d = tempfile.mkdtemp(prefix='vf_nat_')
    path = os.environ.get('PATH')
    cwd = os.getcwd()
    h = NatH(inputs, d)
    try:
        with W_.catch_warnings(record=True) as rec, contextlib.redirect_stdout(h._out), \
                contextlib.redirect_stderr(io.StringIO()):
            W_.simplefilter('always')
            h._warn = rec
            with np.errstate(all='ignore'):
                case.fn(h, **case.kw)
        return True, ''
    except AssumptionFailed:
        return None, 'inputs do not meet the assumptions'
    except CheckFail as e:
        return False, e.msg
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ' at %s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else ''
        return False, 'raised %s: %s%s' % (type(e).__name__, e, where)
    finally:
        if path is not None:
            os.environ['PATH'] = path
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def main():
    site = os.environ['VF_SITE']
    sys.path.insert(0, site)
    import eventio
    import eventio.simtel, eventio.iact
    assert os.path.realpath(eventio.__file__).startswith(os.path.realpath(site)), eventio.__file__
    out = os.fdopen(os.dup(1), 'w')
    cases = {}
    print('ready', file=out, flush=True)
    for line in sys.stdin:
        r = json.loads(line)
        k = (r['prop'], r['tier'])
        if k not in cases:
            m = importlib.import_module('props.' + r['prop'].lower())
            cases[k] = {c.name: c for c in m.cases(r['tier'])}
        ok, msg = run_one(cases[k][r['case']], r['inputs'])
        print(json.dumps({'ok': ok, 'msg': msg[:1500]}), file=out, flush=True)


if __name__ == '__main__':
    main()

