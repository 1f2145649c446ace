"""Stand-ins for library modules: struct, io, functools, warnings and the
virtual file system with its decompressors."""
import collections
import datetime as _datetime
import functools
import gzip as _gzip
import io as _io
import json as _json
import os
import struct as _struct
import re as _re
import types
import weakref
import warnings as _warnings
import numpy as np
from .sym import SymInt, SymBool, Unsupported, eng, tobv, mkint, band, bor
from .symbytes import SymBytes, SymStr, elems, le_int
from .symfloat import SymFloat, from_bits, bits_of, from_int
from .symnp import SA, SymArray
from . import interp
from .interp import LazyStr, fstr
import z3


# ---- struct -----------------------------------------------------------------
_FMT = _re.compile(r'(\d*)([xcbB?hHiIlLqQnNefdspP])')


@functools.lru_cache(maxsize=None)
def layout(fmt):
    """[(code, offset, size)], total size"""
    total = _struct.calcsize(fmt)
    order = ''
    body = fmt
    if fmt and fmt[0] in '@=<>!':
        order, body = fmt[0], fmt[1:]
    items = []
    prefix = order
    for cnt, code in _FMT.findall(body.replace(' ', '')):
        n = int(cnt) if cnt else 1
        if code in 'sp':
            items.append((code, _struct.calcsize(prefix), n))
            prefix += '%d%s' % (n, code)
            continue
        for _ in range(n):
            if code != 'x':
                off = _struct.calcsize(prefix + '0' + code)
                items.append((code, off, _struct.calcsize((order or '@') + code)))
            prefix += code
    big = order in ('>', '!')
    return tuple(items), total, big


def buf(x):
    if isinstance(x, SymArray):
        return x._bytes()
    e = elems(x)
    if e is None:
        raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)
    return e


def decode_item(code, b, big):
    if big:
        b = b[::-1]
    if code in 'bhilqn':
        return le_int(b, True)
    if code in 'BHILQN':
        return le_int(b, False)
    if code == '?':
        v = b[0]
        return (v != 0) if isinstance(v, SymInt) else bool(v)
    if code in 'efd':
        return from_bits(le_int(b, False), {'e': 'f2', 'f': 'f4', 'd': 'f8'}[code])
    if code in 'cs':
        s = SymBytes(b[::-1] if big else b)
        r = s.real()
        return s if r is None else r
    raise Unsupported('struct code ' + code)


def s_unpack(fmt, b):
    fmt = fstr(fmt)
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    items, total, big = layout(fmt)
    e = buf(b)
    if len(e) != total:
        _struct.unpack(fmt, bytes(len(e)))     # raises struct.error
    return tuple(decode_item(c, e[o:o + n], big) for c, o, n in items)


def s_unpack_from(fmt, buffer, offset=0):
    fmt = fstr(fmt)
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    items, total, big = layout(fmt)
    e = buf(buffer)
    if isinstance(offset, SymInt):
        offset = eng().concretize(offset, limit=600)
    _struct.unpack_from(fmt, bytes(len(e)), offset)
    if offset < 0:
        offset += len(e)
    return tuple(decode_item(c, e[offset + o:offset + o + n], big) for c, o, n in items)


def s_iter_unpack(fmt, b):
    fmt = fstr(fmt)
    items, total, big = layout(fmt)
    e = buf(b)
    _struct.iter_unpack(fmt, bytes(len(e)))
    return iter([tuple(decode_item(c, e[p + o:p + o + n], big) for c, o, n in items)
                 for p in range(0, len(e), total)])


def s_pack(fmt, *vals):
    fmt = fstr(fmt)
    if not interp.has_sym(list(vals)):
        return _struct.pack(fmt, *vals)
    items, total, big = layout(fmt)
    out = [0] * total
    if len(items) != len(vals):
        raise _struct.error('pack expected %d items for packing (got %d)' % (len(items), len(vals)))
    for (c, o, n), v in zip(items, vals):
        if c in 'bhilqnBHILQN':
            b = v.to_bytes(n, 'little', signed=c.islower())
            b = list(b.b) if isinstance(b, SymBytes) else list(b)
        elif c in 'efd':
            if isinstance(v, (SymInt,)):
                raise Unsupported('packing a symbolic integer as a float')
            p = bits_of(v, {'e': 'f2', 'f': 'f4', 'd': 'f8'}[c])
            if p is None:
                raise Unsupported('packing a computed float')
            p = mkint(tobv(p, 8 * n), False)
            b = [mkint(z3.simplify(z3.Extract(8 * i + 7, 8 * i, tobv(p, 8 * n))), False) for i in range(n)]
        elif c in 'cs':
            b = (buf(v) + [0] * n)[:n]
        else:
            raise Unsupported('struct code ' + c)
        out[o:o + n] = b[::-1] if big and c not in 'cs' else b
    return SymBytes(out)


class SStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def unpack(self, b):
        return s_unpack(self.format, b)

    def unpack_from(self, buffer, offset=0):
        return s_unpack_from(self.format, buffer, offset)

    def pack(self, *v):
        return s_pack(self.format, *v)

    def iter_unpack(self, b):
        return s_iter_unpack(self.format, b)


struct = types.SimpleNamespace(
    unpack=s_unpack, unpack_from=s_unpack_from, pack=s_pack, iter_unpack=s_iter_unpack,
    calcsize=lambda f: _struct.calcsize(fstr(f)), Struct=SStruct, error=_struct.error)


# ---- byte streams -------------------------------------------------------------
def rdlen(n, avail, neg_all=True, what='file'):
    """Number of bytes a read of n delivers when avail are left."""
    if n is None:
        return avail
    if isinstance(n, SymBool):
        n = n.as_int()
    if isinstance(n, SymInt):
        if n.hi > avail and bool(n >= avail):
            return avail
        if n.lo < 0 and bool(n < 0):
            if neg_all or bool(n == -1):
                return avail
            raise ValueError('read length must be non-negative or -1')
        return eng().concretize(n, limit=600)
    if isinstance(n, (float, np.floating)) or (isinstance(n, SymFloat)):
        raise TypeError('argument should be integer or None')
    n = n.__index__()
    if n < 0:
        if neg_all or n == -1:
            return avail
        raise ValueError('read length must be non-negative or -1')
    return min(n, avail)


def cpos(x, n):
    """Concrete stream position; everything past the end is kept apart."""
    if isinstance(x, SymBool):
        x = x.as_int()
    if isinstance(x, SymInt):
        if x.lo >= 0 and x.hi <= n:
            return eng().concretize(x, limit=600)
        if x.hi > n and bool(x > n):
            return x            # stays symbolic, past the end
        if x.lo < 0 and bool(x < 0):
            return x
        return eng().concretize(x, limit=600)
    if isinstance(x, (float, np.floating, SymFloat)):
        raise TypeError('integer argument expected')
    return x.__index__()


def ipos(x):
    if isinstance(x, SymBool):
        return x.as_int()
    if isinstance(x, SymInt):
        return x
    if isinstance(x, (float, np.floating, SymFloat)):
        raise TypeError('integer argument expected')
    return x.__index__()


class Stream:
    """Seekable stream over bytes of concrete length."""
    neg_all = False
    what = 'file'

    def __init__(self, data):
        self.data = list(elems(data))
        self.p = 0
        self.closed = False

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def read(self, size=-1):
        self._chk()
        n = len(self.data)
        if isinstance(self.p, SymInt):
            self.p = cpos(self.p, n)
        if isinstance(self.p, SymInt) or self.p >= n:
            rdlen(size, 0, self.neg_all)
            return b''
        k = rdlen(size, n - self.p, self.neg_all)
        r = SymBytes(self.data[self.p:self.p + k])
        self.p += k
        real = r.real()
        return r if real is None else real

    read1 = read

    def readinto(self, b):
        raise Unsupported('readinto')

    def seek(self, offset, whence=0):
        self._chk()
        if isinstance(whence, SymInt):
            whence = eng().concretize(whence)
        n = len(self.data)
        if whence == 0:
            base = 0
        elif whence == 1:
            base = self.p
        elif whence == 2:
            base = n
        else:
            raise ValueError('invalid whence')
        return self._to(base + offset, offset, whence)

    def _to(self, new, offset, whence):
        new = ipos(new)
        if bool(new < 0):
            self._neg(new, whence)
            new = 0
        self.p = new
        return new

    def _neg(self, new, whence):
        raise OSError(22, 'Invalid argument')

    def tell(self):
        self._chk()
        return self.p

    def close(self):
        self.closed = True

    def seekable(self):
        return True

    def readable(self):
        return True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def fileno(self):
        raise Unsupported('fileno')


class BytesIO(Stream):
    neg_all = True

    def __init__(self, initial_bytes=b''):
        if initial_bytes is None:
            initial_bytes = b''
        if isinstance(initial_bytes, SymArray):
            initial_bytes = initial_bytes.tobytes()
        if elems(initial_bytes) is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(initial_bytes).__name__)
        super().__init__(initial_bytes)

    def getvalue(self):
        return SymBytes(self.data)

    def getbuffer(self):
        return SymBytes(self.data)

    def write(self, b):
        e = buf(b)
        p = self.p
        if p > len(self.data):
            self.data += [0] * (p - len(self.data))
        self.data[p:p + len(e)] = e
        self.p += len(e)
        return len(e)

    def _neg(self, new, whence):
        if whence == 0:
            raise ValueError('negative seek value %r' % new)
        # relative seeks before the start end up at the start


class Written:
    """Output file: records what was written."""

    def __init__(self, fs, path, kind):
        self.fs, self.path, self.kind = fs, path, kind
        fs.written[path] = (kind, [])

    def write(self, b):
        if isinstance(b, str):
            e = [b]
        else:
            e = buf(b)
        self.fs.written[self.path][1].extend(e)
        return len(e)

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class VFile:
    """A file: kind plain | gzip | zstd, the decompressed content as a list of
    frames, or raw bytes."""

    def __init__(self, kind, frames, raw=None, fail=None):
        self.kind = kind
        self.frames = frames
        self.raw = raw
        self.fail = fail


GZ = list(b'\x1f\x8b\x08\x00\x00\x00\x00\x00')
ZS = list(b'\x28\xb5\x2f\xfd\x00\x00\x00\x00')


class Holes:
    """Content of a file with holes: zeros except for the given parts."""

    def __init__(self, parts, length):
        self.parts = [(a, elems(p)) for a, p in parts]
        self.length = length

    def __len__(self):
        return self.length

    def __getitem__(self, s):
        a, z, _ = s.indices(self.length)
        if z - a > 1 << 16:
            raise Unsupported('long read from a file with holes')
        out = [0] * max(0, z - a)
        for at, p in self.parts:
            for i, x in enumerate(p):
                if a <= at + i < z:
                    out[at + i - a] = x
        return out


class RawFile(Stream):
    """open(path, 'rb')"""

    def __init__(self, vf):
        self.vf = vf
        if isinstance(vf.frames, Holes):
            super().__init__(b'')
            self.data = vf.frames
            return
        if vf.kind == 'plain':
            data = [x for fr in vf.frames for x in elems(fr)]
        else:
            data = vf.raw if vf.raw is not None else (GZ if vf.kind == 'gzip' else ZS)
        super().__init__(SymBytes(data))


class PipeOut(Stream):
    """stdout of a decompressing child process: forward only.  read() waits for
    all bytes asked for (a buffered reader); read1() and unbuffered reads
    deliver what has arrived, the block sizes being free."""

    def __init__(self, data, buffered=True):
        super().__init__(data)
        self.buffered = buffered

    def read1(self, size=-1):
        e = eng()
        n = len(self.data) - self.p
        k = rdlen(size, n, True)
        if k > 1:
            b = e.new_bv('block%d_%d' % (len(self.data), self.p), 8, False)
            k = 1 if bool(b == 0) else k
        return super().read(k)

    def seek(self, *a):
        raise OSError(29, 'Illegal seek')

    def tell(self):
        raise OSError(29, 'Illegal seek')

    def read(self, size=-1):
        if not self.buffered:
            return self.read1(size)
        return super().read(size)


class GzipFile(Stream):
    """gzip module reader: all members one after another; seekable."""
    neg_all = True

    def __init__(self, data):
        super().__init__(data)

    def _neg(self, new, whence):
        # io.DecompressReader: a negative target rewinds to the start
        pass

    def _to(self, new, offset, whence):
        n = len(self.data)
        new = ipos(new)
        if bool(new < 0):
            new = 0
        if bool(new > n):
            new = n        # reads up to the end
        self.p = new
        return new


class ZstdReader(Stream):
    def __init__(self, frames, across, source=None):
        self.source = source
        data = []
        for i, fr in enumerate(frames):
            data += elems(fr)
            if not across:
                break
        super().__init__(SymBytes(data))

    def close(self):
        self.closed = True
        if self.source is not None:
            self.source.close()

    def seek(self, pos, whence=0):
        self._chk()
        # python-zstandard: seeking is only possible forward and by reading
        if isinstance(whence, SymInt):
            whence = eng().concretize(whence)
        if whence == 0:
            if bool(pos < 0):
                raise OSError('cannot seek to negative position with SEEK_SET')
            if bool(pos < self.p):
                raise OSError('cannot seek zstd decompression stream backwards')
            amount = pos - self.p
        elif whence == 1:
            if bool(pos < 0):
                raise OSError('cannot seek zstd decompression stream backwards')
            amount = pos
        elif whence == 2:
            raise OSError('zstd decompression streams cannot be seeked with SEEK_END')
        else:
            raise ValueError('invalid value for whence argument')
        self.read(amount)
        return self.p


class FS:
    """Virtual files of the current path."""
    cur = None

    def __init__(self):
        self.files = {}
        self.written = {}
        self.no_gzip_binary = False
        self.handles = []        # what was opened for reading
        FS.cur = self

    def opened(self, s):
        self.handles.append(weakref.ref(s))      # dropped objects are closed
        return s

    def open_handles(self):
        return sum(s is not None and not s.closed for s in (r() for r in self.handles))

    def get(self, path):
        path = str(path)
        if path not in self.files:
            # names in the working directory
            for k in self.files:
                if '/' not in k and os.path.abspath(k) == os.path.abspath(path):
                    return self.files[k]
            raise FileNotFoundError(2, 'No such file or directory', path)
        return self.files[path]


def vopen(path, mode='r', *a, **k):
    if 'mode' in k:
        mode = k['mode']
    if 'w' in mode or 'x' in mode:
        return Written(FS.cur, str(path), 'plain')
    vf = FS.cur.get(path)
    if 'b' not in mode:
        raise Unsupported('text file')
    return FS.cur.opened(RawFile(vf))


interp.OPEN[0] = vopen


class BadGzipFile(OSError):
    pass


def gzip_open(path, mode='rb', *a, **k):
    if 'w' in mode:
        return Written(FS.cur, str(path), 'gzip')
    if isinstance(path, RawFile):
        vf = path.vf
    else:
        vf = FS.cur.get(path)
    if vf.kind != 'gzip':
        raise Unsupported('gzip module on other data')
    g = GzipFile(SymBytes([x for fr in vf.frames for x in elems(fr)]))
    return g if isinstance(path, RawFile) else FS.cur.opened(g)


gzip = types.SimpleNamespace(open=gzip_open, GzipFile=lambda filename=None, mode='rb', fileobj=None, **k:
                             gzip_open(filename if fileobj is None else fileobj, mode),
                             BadGzipFile=_gzip.BadGzipFile)


class ZstdDecompressor:
    def __init__(self, *a, **k):
        pass

    def stream_reader(self, source, read_size=None, read_across_frames=False, closefd=True, **k):
        if not isinstance(source, RawFile) or source.vf.kind != 'zstd':
            raise Unsupported('zstd on other data')
        return ZstdReader(source.vf.frames, bool(read_across_frames), source if closefd else None)


def _zstd_open(path, mode='rb', *a, **k):
    return FS.cur.opened(ZstdReader(FS.cur.get(path).frames, True))


zstandard = types.SimpleNamespace(ZstdDecompressor=ZstdDecompressor, ZstdError=type('ZstdError', (Exception,), {}),
                                  open=_zstd_open)


class Popen:
    """gzip -cd <path> writing to a pipe."""

    def __init__(self, args, bufsize=-1, stdout=None, stderr=None, **k):
        fs = FS.cur
        if fs.no_gzip_binary:
            raise FileNotFoundError(2, 'No such file or directory: gzip')
        args = list(args)
        if args[0] not in ('gzip', 'zcat', 'gunzip', '/bin/gzip', '/usr/bin/gzip', 'pigz', 'unpigz'):
            raise Unsupported('child process %s' % args[0])
        if str(args[-1]).startswith('-') and '--' not in args[1:-1]:
            # taken for options
            self.stdout, self.stderr = PipeOut(b'', buffered=bufsize != 0), PipeOut(b'gzip: invalid option')
        else:
            vf = fs.get(args[-1])
            if vf.kind != 'gzip':
                raise Unsupported('gzip child on other data')
            self.stdout = PipeOut(SymBytes([x for fr in vf.frames for x in elems(fr)]), buffered=bufsize != 0)
            self.stderr = PipeOut(b'')
        for s, where in ((self.stdout, stdout), (self.stderr, stderr)):
            if where == -1:
                fs.opened(s)
        self.returncode = None

    def poll(self):
        return self.returncode

    def terminate(self):
        pass

    kill = terminate

    def wait(self, timeout=None):
        self.returncode = 0
        return 0


subprocess = types.SimpleNamespace(Popen=Popen, PIPE=-1, DEVNULL=-3, STDOUT=-2,
                                   TimeoutExpired=type('TimeoutExpired', (Exception,), {}))


# ---- functools / warnings -------------------------------------------------------
def _desym_args(a, k):
    def d(x):
        if isinstance(x, SymInt):
            return eng().concretize(x, limit=600)
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, SymFloat):
            return float(x)
        if isinstance(x, tuple):
            return tuple(d(y) for y in x)
        return x
    return tuple(d(x) for x in a), {kk: d(v) for kk, v in k.items()}


def lru_cache(maxsize=128, typed=False):
    def deco(fn):
        c = functools.lru_cache(maxsize if not callable(maxsize) else 128, typed)(fn)

        @functools.wraps(fn)
        def w(*a, **k):
            a, k = _desym_args(a, k)
            return c(*a, **k)
        w.cache_clear = c.cache_clear
        w.cache_info = c.cache_info
        return w
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


class _Functools(types.ModuleType):
    def __getattr__(self, n):
        return getattr(functools, n)


functools_f = _Functools('functools')
functools_f.lru_cache = lru_cache
functools_f.cache = lambda fn: lru_cache(None)(fn)


def w_warn(message, category=None, stacklevel=1, **k):
    if isinstance(message, Warning):
        category = type(message)
    interp.Out.warnings.append((category or UserWarning, message))


class _W(types.ModuleType):
    def __getattr__(self, n):
        return getattr(_warnings, n)


warnings = _W('warnings')
warnings.warn = w_warn
warnings.filterwarnings = lambda *a, **k: None
warnings.simplefilter = lambda *a, **k: None


class _Forward(types.ModuleType):
    """A module with some of its contents replaced."""

    def __init__(self, real, **own):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(own)

    def __getattr__(self, n):
        return getattr(self._real, n)


class VCounter(collections.Counter):
    """Counter whose keys may contain symbolic values: a key is looked up by comparing
    it with every key, not by its hash."""

    def _find(self, key):
        key = key.force() if isinstance(key, LazyStr) else key
        if interp.has_sym(key) or any(interp.has_sym(k) for k in self):
            for k in list(self):
                if type(k) is type(key) and isinstance(key, tuple) and len(k) == len(key):
                    if all(bool(interp_eq(x, y)) for x, y in zip(k, key)):
                        return k
                elif not isinstance(k, tuple) and not isinstance(key, tuple) and bool(interp_eq(k, key)):
                    return k
        return key

    def __getitem__(self, key):
        key = self._find(key)
        return self._quiet(dict.get, key, 0)

    def _quiet(self, f, key, *a):
        old, SymInt.HASH[0] = SymInt.HASH[0], True
        try:
            return f(self, key, *a)
        finally:
            SymInt.HASH[0] = old

    def get(self, key, default=None):
        return self._quiet(dict.get, self._find(key), default)

    def __contains__(self, key):
        return self._quiet(dict.__contains__, self._find(key))

    def __setitem__(self, key, v):
        self._quiet(dict.__setitem__, self._find(key), v)

    def __delitem__(self, key):
        if key in self:
            self._quiet(dict.__delitem__, self._find(key))

    def pop(self, *a):
        raise Unsupported('Counter.pop')

    def setdefault(self, key, v=None):
        if key not in self:
            self[key] = v
        return self[key]

    def update(self, it=None, **k):
        if isinstance(it, dict):
            for x, n in it.items():
                self[x] = self[x] + n
        else:
            for x in it or ():
                self[x] = self[x] + 1
        if k:
            self.update(k)

    def __add__(self, o):
        r = VCounter()
        r.update(self)
        r.update(o)
        return r

    def __iadd__(self, o):
        self.update(o)
        return self

    def most_common(self, n=None):
        return sorted(self.items(), key=lambda x: x[1], reverse=True)[:n]


def interp_eq(a, b):
    r = a == b
    return False if r is NotImplemented else r


collections_f = _Forward(collections, Counter=VCounter)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_datetime.datetime, interp.SymDate))


class VDatetime(_datetime.datetime, metaclass=_Meta):
    @classmethod
    def fromtimestamp(cls, t, tz=None):
        if isinstance(t, SymInt):
            return interp.SymDate(t, tz)
        return _datetime.datetime.fromtimestamp(t, tz)

    @classmethod
    def utcfromtimestamp(cls, t):
        if isinstance(t, SymInt):
            raise Unsupported('utcfromtimestamp')
        return _datetime.datetime.utcfromtimestamp(t)


datetime_f = _Forward(_datetime, datetime=VDatetime)


def json_dumps(obj, **k):
    if not interp.has_sym(obj):
        return _json.dumps(obj, **k)
    items = []

    def plain(x, key=False):
        if isinstance(x, SymBool):
            x = bool(x)
        if isinstance(x, LazyStr):
            x = x.force()
        if isinstance(x, SymInt):
            items.append((x, ''))
            return '@vf%d%s@' % (len(items) - 1, 'k' if key else 'n')
        if isinstance(x, SymStr):
            out = []
            for c in x.c:
                if isinstance(c, SymInt) and bool(band(c >= 32, c < 127, c != 34, c != 92)):
                    items.append(SymStr([c]))
                    out.append('@vf%dc@' % (len(items) - 1))
                else:
                    out.append(chr(int(c)))
            return ''.join(out)
        if isinstance(x, dict):
            if k.get('sort_keys') and any(interp.has_sym(y) for y in x):
                raise Unsupported('json.dumps sorting symbolic keys')
            return {plain(a, True): plain(b) for a, b in x.items()}
        if isinstance(x, (list, tuple)):
            return [plain(y) for y in x]
        if interp.has_sym(x):
            raise Unsupported('json.dumps of %s' % type(x).__name__)
        return x
    text = _json.dumps(plain(obj), **k)
    pieces = []
    pos = 0
    for m in _re.finditer(r'"@vf(\d+)n@"|@vf(\d+)[kc]@', text):
        pieces += [text[pos:m.start()], items[int(m.group(1) or m.group(2))]]
        pos = m.end()
    pieces.append(text[pos:])

    def thunk():
        return ''.join(p if isinstance(p, str) else p.force() if isinstance(p, SymStr) else format(p[0], p[1]) for p in pieces)
    return LazyStr(thunk, pieces)


json_f = _Forward(_json, dumps=json_dumps, dump=lambda obj, f, **k: f.write(json_dumps(obj, **k)))


class _Io(types.ModuleType):
    def __getattr__(self, n):
        if n in ('BufferedReader', 'FileIO', 'StringIO'):
            raise Unsupported('io.' + n)
        return getattr(_io, n)


io = _Io('io')
io.BytesIO = BytesIO
io.open = vopen
io.SEEK_SET, io.SEEK_CUR, io.SEEK_END = 0, 1, 2

_re_real = _re


class _Re(types.ModuleType):
    def __getattr__(self, n):
        real = getattr(_re_real, n)
        if n in ('match', 'fullmatch', 'search'):
            def m(pattern, string, flags=0):
                p = pattern.p if isinstance(pattern, RePattern) else pattern
                if isinstance(string, SymStr) and string.real() is None:
                    from .symre import find
                    return find(n, p, string, flags)
                return real(p, fstr(string) if not isinstance(string, SymBytes) else string.force(), flags)
            return m
        if n in ('match', 'fullmatch', 'search', 'sub', 'split', 'findall', 'finditer'):
            def f(*a, **k):
                return real(*[fstr(x) if not isinstance(x, SymBytes) else x.force() for x in a], **k)
            return f
        if n == 'compile':
            def c(*a, **k):
                return RePattern(real(*a, **k))
            return c
        return real


class RePattern:
    def __init__(self, p):
        self.p = p

    def __getattr__(self, n):
        r = getattr(self.p, n)
        if not callable(r):
            return r

        def f(*a, **k):
            if n in ('match', 'fullmatch', 'search') and len(a) == 1 and isinstance(a[0], SymStr) and a[0].real() is None:
                from .symre import find
                return find(n, self.p, a[0])
            return r(*[fstr(x) if not isinstance(x, SymBytes) else x.force() for x in a], **k)
        return f


re = _Re('re')
