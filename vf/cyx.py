"""Symbolic interpreter for the Cython modules: walks Cython's own analysed,
typed tree (the tree its C code generator prints) with C integer and float
semantics, memoryview bounds checks and raw pointer loads."""
import os
import re
import sys
import types as pytypes
import numpy as np
from . import interp, symnp
from .sym import (SymInt, SymBool, Unsupported, band, bor, bnot, ite, wrap, eng, is_sym, merge)
from .symbytes import SymBytes, elems
from .symfloat import SymFloat, fbin, from_int, fcmp
from .symnp import SA, SymArray, conv, decode, encode

OOB = []           # events: reads or writes outside a buffer on the current path
LOOP_LIMIT = 100000


def typed_tree(path, modname, src):
    site = '/opt/venv/lib/python3.12/site-packages'
    if site not in sys.path:
        sys.path.append(site)
    from Cython.Compiler import Pipeline, Errors
    from Cython.Compiler.Main import (CompilationOptions, default_options, Context, create_default_resultobj,
                                      CompilationSource)
    from Cython.Compiler.Scanning import FileSourceDescriptor
    opts = CompilationOptions(default_options, language_level=3, include_path=[src])
    ctx = Context.from_options(opts)
    cs = CompilationSource(FileSourceDescriptor(path, path), modname, src)
    res = create_default_resultobj(cs, opts)
    Errors.init_thread()
    pl = Pipeline.create_pyx_pipeline(ctx, opts, res)
    stop = [i for i, p in enumerate(pl) if p.__class__.__name__ == 'IterationTransform'][0]
    err, tree = Pipeline.run_pipeline(pl[:stop + 1], cs)
    if err:
        raise SyntaxError('cython: %s' % (err,))
    return tree


TREES = {}


def tree_of(path, modname, src):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in TREES:
        TREES[k] = typed_tree(path, modname, src)
    return TREES[k]


# ---- C types ---------------------------------------------------------------
INTS = {
    'uint8_t': (8, 0), 'uint16_t': (16, 0), 'uint32_t': (32, 0), 'uint64_t': (64, 0),
    'int8_t': (8, 1), 'int16_t': (16, 1), 'int32_t': (32, 1), 'int64_t': (64, 1),
    'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0),
    'int': (32, 1), 'signed int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0),
    'long long': (64, 1), 'PY_LONG_LONG': (64, 1), 'unsigned PY_LONG_LONG': (64, 0), 'unsigned long long': (64, 0),
    'Py_ssize_t': (64, 1), 'size_t': (64, 0), 'ssize_t': (64, 1), 'npy_intp': (64, 1), 'intp_t': (64, 1),
    'uintptr_t': (64, 0), 'bint': (32, 1), 'Py_intptr_t': (64, 1), 'ptrdiff_t': (64, 1), 'Py_UCS4': (32, 0),
    'npy_int8': (8, 1), 'npy_int16': (16, 1), 'npy_int32': (32, 1), 'npy_int64': (64, 1),
    'npy_uint8': (8, 0), 'npy_uint16': (16, 0), 'npy_uint32': (32, 0), 'npy_uint64': (64, 0),
    'npy_bool': (8, 0), 'npy_byte': (8, 1), 'npy_ubyte': (8, 0),
}
FLOATS = {'float': 32, 'double': 64, 'float32_t': 32, 'float64_t': 64, 'npy_float32': 32, 'npy_float64': 64}


def base_type(t):
    while True:
        if getattr(t, 'is_cv_qualified', False):
            t = t.cv_base_type
            continue
        if getattr(t, 'is_const', False) and hasattr(t, 'const_base_type'):
            t = t.const_base_type
            continue
        if getattr(t, 'is_reference', False):
            t = t.ref_base_type
            continue
        return t


CT = {}


def ctype(t):
    """('i', bits, signed) | ('f', bits) | ('o',) | ('p', ctype) | ('mv',) | ('t', ...) | ('a', ct, n) | ('v',)"""
    k = id(t)
    if k in CT and CT[k][0] is t:
        return CT[k][1]
    r = _ctype(t)
    CT[k] = (t, r)
    return r


def _ctype(t):
    t = base_type(t)
    if getattr(t, 'is_pyobject', False):
        return ('o',)
    if getattr(t, 'is_memoryviewslice', False):
        return ('mv',)
    if getattr(t, 'is_ctuple', False):
        return ('t',) + tuple(ctype(c) for c in t.components)
    if getattr(t, 'is_array', False):
        return ('a', ctype(t.base_type), t.size)
    if getattr(t, 'is_ptr', False):
        return ('p', ctype(t.base_type))
    if getattr(t, 'is_void', False):
        return ('v',)
    if getattr(t, 'is_enum', False):
        return ('i', 32, 1)
    s = str(t)
    if getattr(t, 'is_typedef', False):
        s = t.typedef_name if getattr(t, 'typedef_name', None) else s
        if s not in INTS and s not in FLOATS:
            return ctype(t.typedef_base_type)
    if s in INTS:
        b, sg = INTS[s]
        return ('i', b, sg)
    if s in FLOATS:
        return ('f', FLOATS[s])
    if getattr(t, 'is_cfunction', False):
        return ('fn',)
    raise Unsupported('C type %s' % s)


def npdtype(ct):
    if ct[0] == 'i':
        return np.dtype('%s%d' % ('i' if ct[2] else 'u', ct[1] // 8))
    if ct[0] == 'f':
        return np.dtype('f%d' % (ct[1] // 8))
    raise Unsupported('buffer of %s' % (ct,))


INT = ('i', 32, 1)
SSIZE = ('i', 64, 1)


def promote(ct):
    if ct[0] == 'i' and ct[1] < 32:
        return INT
    return ct


def usual(a, b):
    if a[0] == 'f' or b[0] == 'f':
        return ('f', max(x[1] for x in (a, b) if x[0] == 'f'))
    a, b = promote(a), promote(b)
    if a[1] != b[1]:
        return a if a[1] > b[1] else b
    return a if not a[2] else b


def ccast(v, src, dst):
    """C conversion of a number."""
    if dst[0] == 'i':
        if src[0] == 'f':
            if isinstance(v, SymFloat):
                if v.kind == 'lin' and v.c == 1:
                    return wrap(v.a, dst[1], bool(dst[2]))
                raise Unsupported('float to integer')
            return wrap(int(v), dst[1], bool(dst[2]))
        if isinstance(v, (SymBool, bool, np.bool_)):
            return v
        return wrap(v, dst[1], bool(dst[2]))
    if dst[0] == 'f':
        dt = npdtype(dst)
        if src[0] == 'f' and src[1] == dst[1]:
            return v
        if isinstance(v, (SymInt, SymBool, SymFloat)):
            return conv(v, dt)
        return dt.type(v)
    if dst[0] == 'v':
        return None
    if dst[0] == 'p' and isinstance(v, CArr):
        return Ptr(v.v, v.ct, 0, dst[1])
    return v


def plain(v):
    """Drop numpy dtype tags (C numbers carry none)."""
    if isinstance(v, SymInt):
        return SymInt(v.e, v.s, v.lo, v.hi) if v.dt is not None else v
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.bool_):
        return bool(v)
    return v


def from_py(v, ct, what=None):
    """Python object -> C number."""
    if ct[0] == 'i':
        if isinstance(v, SymArray):
            v = v._one() if isinstance(v, SA) and v.size == 1 else v
        if isinstance(v, (SymBool,)):
            v = v.as_int()
        if isinstance(v, SymInt):
            lo, hi = (-(1 << (ct[1] - 1)), (1 << (ct[1] - 1)) - 1) if ct[2] else (0, (1 << ct[1]) - 1)
            if v.lo < lo and bool(v < lo):
                raise OverflowError("can't convert negative value to %s" % (what or 'C integer') if lo == 0 else 'value too large to convert')
            if v.hi > hi and bool(v > hi):
                raise OverflowError('value too large to convert to %s' % (what or 'C integer'))
            return SymInt(v.e, v.s, v.lo, v.hi) if v.dt is not None else v
        if isinstance(v, SymFloat):
            raise Unsupported('float passed as C integer')
        if v is None or isinstance(v, (str, bytes, list, tuple, dict)):
            raise TypeError('an integer is required')
        if isinstance(v, (float, np.floating)):
            v = int(v)
        elif isinstance(v, np.ndarray):
            v = int(v)
        elif not isinstance(v, (int, np.integer, np.bool_)):
            if hasattr(v, '__index__'):
                v = v.__index__()
            elif hasattr(v, '__int__'):
                v = v.__int__()
            else:
                raise TypeError('an integer is required')
        v = int(v)
        lo, hi = (-(1 << (ct[1] - 1)), (1 << (ct[1] - 1)) - 1) if ct[2] else (0, (1 << ct[1]) - 1)
        if not lo <= v <= hi:
            raise OverflowError('value too large to convert')
        return v
    if ct[0] == 'f':
        dt = npdtype(ct)
        if isinstance(v, (SymFloat, SymInt, SymBool)):
            return conv(v, dt)
        if v is None or isinstance(v, (str, bytes)):
            raise TypeError('must be real number')
        return dt.type(float(v))
    if ct[0] == 't':
        v = list(v)
        if len(v) != len(ct) - 1:
            raise ValueError('wrong number of values to unpack')
        return tuple(from_py(x, c) for x, c in zip(v, ct[1:]))
    raise Unsupported('conversion from Python to %s' % (ct,))


def to_py(v, ct, bint=False):
    if bint:
        if isinstance(v, SymInt):
            return v != 0
        return v if isinstance(v, SymBool) else bool(v)
    if ct[0] == 'i':
        if isinstance(v, SymBool):
            return v.as_int()
        return plain(v) if not isinstance(v, bool) else int(v)
    if ct[0] == 'f':
        if isinstance(v, SymFloat):
            return v if v.dt is None else SymFloat(v.kind, v.fmt, v.a, v.c, None) if v.fmt == 64 else _widen(v)
        return float(v)
    if ct[0] == 't':
        return tuple(to_py(x, c) for x, c in zip(v, ct[1:]))
    return v


def _widen(v):
    r = conv(v, np.dtype('f8'))
    if isinstance(r, SymFloat):
        return SymFloat(r.kind, r.fmt, r.a, r.c, None)
    return float(r)


def is_bint(t):
    t = base_type(t)
    return str(t) == 'bint'


# ---- memory ------------------------------------------------------------------
class MV:
    """Typed memoryview slice: an object ndarray view plus its element type."""
    __slots__ = ('a', 'ct', 'owner', 'off', 'ro')

    def __init__(self, a, ct, owner=None, off=0, ro=False):
        self.a = a              # object ndarray (view)
        self.ct = ct
        self.owner = owner      # 1-d object ndarray of the whole buffer (1-d contiguous views only)
        self.off = off
        self.ro = ro

    @property
    def shape(self):
        return self.a.shape

    def __len__(self):
        return self.a.shape[0]


class Ptr:
    """Pointer into a buffer: element array, element type, byte offset."""
    __slots__ = ('a', 'ct', 'byte', 'to')

    def __init__(self, a, ct, byte, to):
        self.a, self.ct, self.byte, self.to = a, ct, byte, to


class VarPtr(Ptr):
    """Pointer to a C variable."""
    __slots__ = ('store', 'name')

    def __init__(self, store, name, ct, to=None):
        Ptr.__init__(self, None, ct, 0, to or ct)
        self.store, self.name = store, name


class CArr:
    __slots__ = ('v', 'ct')

    def __init__(self, n, ct):
        self.v = np.empty(n, dtype=object)
        self.ct = ct


NGARB = [0]


def garbage(ct):
    return symnp._garbage(ct[1]) if ct[0] == 'i' and False else plain_garbage(ct)


def plain_garbage(ct):
    v = symnp.garbage(npdtype(ct))
    return plain(v) if ct[0] == 'i' else v


def obj_array(lst):
    a = np.empty(len(lst), dtype=object)
    for i, x in enumerate(lst):
        a[i] = x
    return a


def make_mv(v, t):
    """Python object -> memoryview of type t (a Cython MemoryViewSliceType)."""
    if v is None:
        return None
    if isinstance(v, MV):
        return v
    ct = ctype(t.dtype)
    nd = t.ndim
    const = bool(getattr(t.dtype, 'is_const', False)) or str(t.dtype).startswith('const ')
    b = None
    if isinstance(v, symnp.SR):
        raise ValueError('Buffer dtype mismatch')
    if isinstance(v, np.ndarray) and not isinstance(v, SymArray):
        v = SA.from_real(v)
    if isinstance(v, SA):
        a, vct = v._a, v.dtype
        want = npdtype(ct)
        if a.ndim != nd:
            raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (nd, a.ndim))
        if vct.kind == 'b' or vct.kind != want.kind or vct.itemsize != want.itemsize or vct.byteorder == '>':
            raise ValueError('Buffer dtype mismatch, expected %s but got %s' % (want, vct))
        if v.ro and not const:
            raise ValueError('buffer source array is read-only')
        return MV(a, ct, a if a.ndim == 1 else None, 0, v.ro)
    if isinstance(v, memoryview):
        v = bytes(v)
    if isinstance(v, (bytes, bytearray, SymBytes)):
        if isinstance(v, bytes) and not const:
            raise BufferError('Object is not writable.')
        e = elems(v)
        if nd != 1:
            raise ValueError('Buffer has wrong number of dimensions (expected %d, got 1)' % nd)
        if ct != ('i', 8, 0):
            raise ValueError('Buffer dtype mismatch')
        a = obj_array(e)
        return MV(a, ct, a, 0, True)
    if type(v).__name__ == 'CyArray':
        e = obj_array(v.v)
        return MV(e, ct, e, 0, False)
    raise TypeError("a bytes-like object is required, not '%s'" % type(v).__name__)


class CyArray:
    """array.array stand-in."""
    __hash__ = None

    def __init__(self, typecode, init=()):
        self.typecode = typecode
        self.ct = {'h': ('i', 16, 1), 'H': ('i', 16, 0), 'i': ('i', 32, 1), 'I': ('i', 32, 0), 'b': ('i', 8, 1),
                   'B': ('i', 8, 0), 'l': ('i', 64, 1), 'L': ('i', 64, 0), 'q': ('i', 64, 1), 'Q': ('i', 64, 0),
                   'f': ('f', 32), 'd': ('f', 64)}[typecode]
        self.v = []
        for x in init:
            self.append(x)

    def append(self, x):
        if self.ct[0] == 'i':
            # array.array checks the range
            self.v.append(from_py(x, self.ct))
        else:
            self.v.append(from_py(x, self.ct))

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def __len__(self):
        return len(self.v)

    def __getitem__(self, i):
        return self.v[i] if not isinstance(i, slice) else CyArray(self.typecode, self.v[i])

    def __iter__(self):
        return iter(self.v)

    def tolist(self):
        return list(self.v)

    def pop(self, i=-1):
        return self.v.pop(i)

    def __eq__(self, o):
        return interp.v_eq(self.v, list(o)) if hasattr(interp, 'v_eq') else self.v == list(o)


class ArrayModule:
    @staticmethod
    def array(typecode, init=()):
        return CyArray(typecode, init)

    @staticmethod
    def clone(template, length, zero=True):
        r = CyArray(template.typecode)
        n = eng().concretize(length) if isinstance(length, SymInt) else length
        r.v = [0 if zero else garbage(r.ct) for _ in range(n)]
        return r


# ---- control flow ----------------------------------------------------------
PURE = {'NameNode', 'IntNode', 'FloatNode', 'BoolNode', 'TupleNode', 'TypecastNode', 'UnaryMinusNode', 'UnaryPlusNode', 'TildeNode', 'AddNode', 'SubNode', 'MulNode',
        'IntBinopNode', 'CoerceToPyTypeNode', 'CoerceFromPyTypeNode', 'CoerceIntToBytesNode', 'CloneNode', 'CTupleNode', 'CoerceToTempNode', 'NumBinopNode', 'ConstNode', 'BitwiseOrNode', 'BitwiseAndNode', 'BitwiseXorNode', 'PrimaryCmpNode'}


def pure(n):
    if n is None:
        return True
    if isinstance(n, list):
        return all(pure(x) for x in n)
    if type(n).__name__ not in PURE:
        return False
    return all(pure(getattr(n, a, None)) for a in n.child_attrs)


def single(b):
    if not hasattr(b, '_vf_single'):
        b._vf_single = single_(b)
    return b._vf_single


def single_(b):
    """The only statement of a body if it is a return or an assignment of an effect-free expression."""
    k = type(b).__name__
    if k == 'StatListNode':
        return single(b.stats[0]) if len(b.stats) == 1 else None
    if k == 'ReturnStatNode':
        return b if b.value is not None and pure(b.value) else None
    if k == 'SingleAssignmentNode' and pure(b.rhs) and ctype_safe(b.lhs.type)[0] == 'i':
        return b
    return None


def same_target(a, b):
    x, y = type(a).__name__, type(b).__name__
    if x != y:
        return False
    if x == 'NameNode':
        return a.name == b.name
    if x in ('IndexNode', 'BufferIndexNode', 'MemoryViewIndexNode'):
        i, j = getattr(a, 'index', None), getattr(b, 'index', None)
        ii, jj = getattr(a, 'indices', None), getattr(b, 'indices', None)
        if ii or jj:
            return len(ii or ()) == len(jj or ()) and all(type(p).__name__ == 'NameNode' and same_target(p, q) for p, q in zip(ii, jj)) and same_target(a.base, b.base)
        return i is not None and j is not None and type(i).__name__ == 'NameNode' and same_target(i, j) and same_target(a.base, b.base)
    return False


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


NPY = {'NPY_BOOL': '?', 'NPY_INT8': 'i1', 'NPY_UINT8': 'u1', 'NPY_INT16': 'i2', 'NPY_UINT16': 'u2', 'NPY_INT32': 'i4',
       'NPY_UINT32': 'u4', 'NPY_INT64': 'i8', 'NPY_UINT64': 'u8', 'NPY_FLOAT32': 'f4', 'NPY_FLOAT64': 'f8',
       'NPY_FLOAT': 'f4', 'NPY_DOUBLE': 'f8', 'NPY_INT': 'i4', 'NPY_UINT': 'u4', 'NPY_SHORT': 'i2', 'NPY_USHORT': 'u2',
       'NPY_BYTE': 'i1', 'NPY_UBYTE': 'u1', 'NPY_LONG': 'i8', 'NPY_ULONG': 'u8', 'NPY_INTP': 'i8', 'NPY_LONGLONG': 'i8',
       'NPY_ULONGLONG': 'u8', 'NPY_UINTP': 'u8'}

ENTERED = set()


class Fn:
    """A C or Python function of a Cython module."""

    def __init__(self, mod, name, args, body, ret, directives):
        self.mod, self.name, self.args, self.body, self.ret, self.directives = mod, name, args, body, ret, directives
        self.memo = {}
        # args: list of (name, cython type, default value or MISSING)

    def ccall(self, vals):
        """Call with C values."""
        ENTERED.add(self.mod.name + '.' + self.name)
        f = Frame(self.mod, self.directives)
        vals = list(vals)
        for i, (n, t, d) in enumerate(self.args):
            if i < len(vals):
                v = vals[i]
            elif d is not MISSING:
                v = d
            else:
                raise TypeError('%s() takes more arguments' % self.name)
            f.vars[n] = v
            f.types[n] = t
        f.retct = ctype(self.ret)
        f.ret_type = self.ret
        try:
            f.run(self.body)
        except _Ret as r:
            return r.v
        rc = ctype(self.ret)
        if rc[0] == 'o':
            return None
        if rc[0] == 'v':
            return None
        return 0 if rc[0] in 'if' else None

    def pycall(self, *args, **kw):
        names = [a[0] for a in self.args]
        if len(args) > len(names):
            raise TypeError('%s() takes at most %d positional arguments (%d given)' % (self.name, len(names), len(args)))
        given = dict(zip(names, args))
        for k, v in kw.items():
            if k not in names:
                raise TypeError("%s() got an unexpected keyword argument '%s'" % (self.name, k))
            if k in given:
                raise TypeError("%s() got multiple values for keyword argument '%s'" % (self.name, k))
            given[k] = v
        vals = []
        for n, t, d in self.args:
            if n not in given:
                if d is MISSING:
                    raise TypeError('%s() takes more arguments: missing %s' % (self.name, n))
                vals.append(d)
            else:
                vals.append(coerce_arg(given[n], t))
        key = None
        if not MEMO_OFF and self.mod.pure and all(type(v) in PLAINARG for v in given.values()):
            # nothing symbolic: the function is a function of these constants
            key = tuple(sorted((n, type(v), v) for n, v in given.items()))
            hit = self.memo.get(key, MISSING)
            if hit is not MISSING:
                ENTERED.add(self.mod.name + '.' + self.name)
                return clone(hit)
            marks = len(OOB), symnp.UNINIT[0], NGARB[0]
        r = to_py(self.ccall(vals), ctype(self.ret), is_bint(self.ret))
        if key is not None and marks == (len(OOB), symnp.UNINIT[0], NGARB[0]):
            try:
                self.memo[key] = clone(r)
            except NotPlain:
                pass
        return r

    def python(self):
        f = lambda *a, **k: self.pycall(*a, **k)
        f.__name__ = f.__qualname__ = self.name
        f.__module__ = self.mod.name
        f.__vf_fn__ = self
        return f


MEMO_OFF = bool(os.environ.get('VF_NOMEMO'))
PLAINARG = frozenset((bytes, int, bool))


class NotPlain(Exception):
    pass


def clone(v):
    """A copy of a result without symbolic parts."""
    t = type(v)
    if v is None or t in (int, float, bool, bytes, str) or (isinstance(v, np.generic) and not isinstance(v, np.void)):
        return v
    if t is tuple or t is list:
        return t(clone(x) for x in v)
    if t is dict:
        return {clone(k): clone(x) for k, x in v.items()}
    if t is symnp.SA:
        for x in v._a.flat:
            if not isinstance(x, (int, float, bool, np.generic)):
                raise NotPlain()
        return symnp.SA(v._a.copy(), v.dtype, v.ro)
    if list(getattr(v, '__dict__', ())) == ['_c']:
        o = object.__new__(t)
        o.__dict__['_c'] = {k: clone(x) for k, x in v._c.items()}
        return o
    raise NotPlain()


class _Missing:
    pass


MISSING = _Missing()


def coerce_arg(v, t):
    bt = base_type(t)
    if getattr(bt, 'is_memoryviewslice', False):
        return make_mv(v, bt)
    if is_bint(bt):
        return interp.truth(v)
    ct = ctype(t)
    if ct[0] == 'o':
        check_pytype(v, bt)
        return v
    return from_py(v, ct, str(bt))


def check_pytype(v, t):
    if v is None:
        return
    n = getattr(t, 'name', None)
    if getattr(t, 'is_buffer', False):
        check_buffer(v, t)
        return
    if getattr(t, 'is_builtin_type', False):
        ok = {'dict': dict, 'list': list, 'tuple': tuple, 'bytes': (bytes, SymBytes), 'str': str, 'set': set,
              'bytearray': (bytearray, SymBytes)}.get(n)
        if ok and not isinstance(v, ok):
            raise TypeError('Expected %s, got %s' % (n, type(v).__name__))
    elif n == 'ndarray':
        if not isinstance(v, (SymArray, np.ndarray)):
            raise TypeError('Cannot convert %s to numpy.ndarray' % type(v).__name__)


def check_buffer(v, t):
    if v is None:
        return
    if not isinstance(v, (SymArray, np.ndarray)):
        raise TypeError('Cannot convert %s to numpy.ndarray' % type(v).__name__)
    ct = ctype(t.dtype)
    want = npdtype(ct)
    if v.ndim != t.ndim:
        raise ValueError('Buffer has wrong number of dimensions (expected %d, got %d)' % (t.ndim, v.ndim))
    if isinstance(v, symnp.SR) or v.dtype.kind != want.kind or v.dtype.itemsize != want.itemsize:
        raise ValueError('Buffer dtype mismatch, expected %s but got %s' % (want, v.dtype))


class Module:
    def __init__(self, name, path, loader, pymod):
        self.name = name
        self.loader = loader
        self.py = pymod
        self.cfuncs = {}
        self.consts = {}
        src = path
        for _ in range(len(name.split('.'))):
            src = os.path.dirname(src)
        tree = tree_of(path, name, src)
        d = tree.py_dir if hasattr(tree, 'py_dir') else None
        self.classes = {}
        self.tree = tree
        with open(path) as f_:
            text = f_.read()
        # functions without state of the module
        self.pure = not re.search(r'^\s*(global|nonlocal)\s|^(cdef\s+)?(\w+\s+)*\w+\s*=\s*([\[{]|dict|list|set|np\.(?!dtype|u?int|float)|bytearray|defaultdict|deque)|cache', text, re.M)
        f = Frame(self, dict(tree.directives))
        f.module_level = True
        self.top = f
        f.run(tree.body)


class Frame:
    module_level = False

    def __init__(self, mod, directives):
        self.mod = mod
        self.vars = {}
        self.types = {}
        self.directives = directives
        self.refs = {}       # id(ResultRefNode) -> value
        self.retct = ('o',)
        self.ret_type = None

    # -- statements
    def run(self, node):
        if node is None:
            return
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('Cython statement %s' % type(node).__name__)
        return m(node)

    def s_StatListNode(self, n):
        stats = n.stats
        for i, s in enumerate(stats):
            if i + 1 < len(stats) and type(s).__name__ == 'IfStatNode' and s.else_clause is None and len(s.if_clauses) == 1:
                a, b = single(s.if_clauses[0].body), single(stats[i + 1])
                if a is not None and b is not None and type(a).__name__ == type(b).__name__ == 'ReturnStatNode':
                    self.branchy(s.if_clauses[0], a, b, s.if_clauses[0].body, None)
                    continue
            self.run(s)

    def branchy(self, clause, a, b, body, other):
        """if clause: body else: other, where both sides may be merged into one value."""
        c = self.cond(clause.condition)
        if isinstance(c, SymBool):
            before = len(OOB)
            if type(a).__name__ == 'ReturnStatNode':
                m = merge(c, lambda: self.retval(a), lambda: self.retval(b)) if len(OOB) == before else None
                if m is not None and len(OOB) == before:
                    raise _Ret(m[0])
            else:
                m = merge(c, lambda: self.rhs(a.lhs, a.rhs), lambda: self.rhs(b.lhs, b.rhs))
                if m is not None and len(OOB) == before:
                    return self.store(a.lhs, m[0])
            del OOB[before:]
        if c:
            self.run(body)
        elif other is not None:
            self.run(other)

    def _skip(self, n):
        pass

    s_CImportStatNode = s_FromCImportStatNode = s_CDefExternNode = s_CEnumDefNode = s_PassStatNode = _skip
    s_CVarDefNode = s_CriticalSectionExitNode = s_CTypeDefNode = s_AnnotationNode = s_CStructOrUnionDefNode = _skip

    def s_CriticalSectionStatNode(self, n):
        self.run(n.body)

    def s_TryFinallyStatNode(self, n):
        try:
            self.run(n.body)
        finally:
            fc = n.finally_clause
            if fc is not None:
                self.run(fc)

    def s_TryExceptStatNode(self, n):
        try:
            self.run(n.body)
        except Exception as e:
            if isinstance(e, (_Ret, _Brk, _Cont)):
                raise
            for c in n.except_clauses:
                pats = c.pattern
                pats = pats if isinstance(pats, list) else ([pats] if pats is not None else None)
                ok = pats is None or any(isinstance(e, self.ev(p)) for p in pats)
                if ok:
                    if getattr(c, 'target', None) is not None:
                        self.assign(c.target, e)
                    self.cur_exc = e
                    self.run(c.body)
                    return
            raise
        else:
            if n.else_clause is not None:
                self.run(n.else_clause)

    def s_ReraiseStatNode(self, n):
        raise self.cur_exc

    def s_CompilerDirectivesNode(self, n):
        old = self.directives
        self.directives = n.directives
        try:
            self.run(n.body)
        finally:
            self.directives = old

    def s_GILStatNode(self, n):
        self.run(n.body)

    def s_ExprStatNode(self, n):
        self.ev(n.expr)

    def _args(self, arglist):
        out = []
        for a in arglist:
            d = MISSING
            if a.default is not None:
                d = self.cval(a.default, a.type) if ctype(a.type)[0] != 'o' else self.ev(a.default)
            nm = a.name if isinstance(a.name, str) and a.name else a.declarator.name
            t = a.type
            out.append((str(nm), t, d))
        return out

    def s_CFuncDefNode(self, n):
        decl = n.declarator
        while not hasattr(decl, 'args'):
            decl = decl.base
        e = n.entry
        name = str(e.name)
        fn = Fn(self.mod, name, self._args(decl.args), n.body, n.type.return_type if hasattr(n.type, 'return_type') else e.type.return_type,
                self.directives)
        self.mod.cfuncs[name] = fn
        if getattr(n, 'overridable', False) or n.py_func is not None:
            self.mod.py.__dict__[name] = fn.python()

    def s_DefNode(self, n):
        from Cython.Compiler import PyrexTypes
        name = str(n.entry.name) if n.entry is not None else str(n.name)
        if n.star_arg is not None or n.starstar_arg is not None:
            raise Unsupported('star arguments in a Cython function')
        fn = Fn(self.mod, name, self._args(n.args), n.body, PyrexTypes.py_object_type, self.directives)
        if self.module_level:
            self.mod.py.__dict__[name] = fn.python()
        return fn

    def s_CClassDefNode(self, n):
        mod = self.mod
        cname = str(n.class_name)
        entries = {}
        for e in n.scope.var_entries:
            if getattr(e, 'is_variable', True) and ctype(e.type)[0] in ('i', 'f', 'o'):
                entries[str(e.name)] = e
        ns = {'__module__': mod.name}

        def init(self_, *a, **k):
            st = self_.__dict__['_c'] = {}
            for nm, e in entries.items():
                st[nm] = None if ctype(e.type)[0] == 'o' else 0
            if '__cinit_fn__' in ns:
                ns['__cinit_fn__'].pycall(self_, *a, **k)
            if '__init_fn__' in ns:
                ns['__init_fn__'].pycall(self_, *a, **k)
            elif '__cinit_fn__' not in ns and (a or k):
                raise TypeError('%s() takes no arguments' % cname)
        ns['__init__'] = init

        def setattr_(self_, k, v):
            for c in type(self_).__mro__:
                p = c.__dict__.get(k)
                if isinstance(p, property):
                    if p.fset is None:
                        raise AttributeError("attribute '%s' of '%s.%s' objects is not writable" % (k, mod.name, cname))
                    return p.fset(self_, v)
            raise AttributeError("'%s.%s' object has no attribute '%s'" % (mod.name, cname, k))
        ns['__setattr__'] = setattr_

        def mkprop(nm, e):
            def get(self_):
                return to_py(self_._c[nm], ctype(e.type), is_bint(e.type))
            fset = None
            if e.visibility == 'public':
                def fset(self_, v):
                    self_._c[nm] = coerce_arg(v, e.type)
            return property(get, fset)
        for nm, e in entries.items():
            if e.visibility in ('readonly', 'public'):
                ns[nm] = mkprop(nm, e)

        def body(stats, directives):
            old, self.directives = self.directives, directives
            was, self.module_level = self.module_level, False
            try:
                for s in stats:
                    k = type(s).__name__
                    if k == 'StatListNode':
                        body(s.stats, directives)
                    elif k == 'CompilerDirectivesNode':
                        body([s.body], s.directives)
                    elif k == 'PropertyNode':
                        if str(s.name) in entries:
                            continue
                        fs = {}
                        for d in flat(s.body):
                            fs[str(d.name)] = self.s_DefNode(d)
                        g, st = fs.get('__get__'), fs.get('__set__')
                        ns[str(s.name)] = property(
                            (lambda g: lambda self_: g.pycall(self_))(g) if g else None,
                            (lambda st: lambda self_, v: st.pycall(self_, v))(st) if st else None)
                    elif k == 'DefNode':
                        nm = str(s.name)
                        if nm in ('__reduce_cython__', '__setstate_cython__', '__reduce__', '__setstate__'):
                            continue
                        fn = self.s_DefNode(s)
                        if nm == '__cinit__':
                            ns['__cinit_fn__'] = fn
                        elif nm == '__init__':
                            ns['__init_fn__'] = fn
                        elif nm in ('__eq__', '__ne__', '__lt__', '__hash__', '__richcmp__'):
                            if nm == '__richcmp__':
                                raise Unsupported('__richcmp__')
                            ns[nm] = (lambda fn: lambda *a: fn.pycall(*a))(fn)
                        else:
                            f_ = (lambda fn: lambda *a, **k: fn.pycall(*a, **k))(fn)
                            f_.__name__ = nm
                            ns[nm] = f_
                    elif k == 'CFuncDefNode':
                        old_py = dict(mod.py.__dict__)
                        self.s_CFuncDefNode(s)
                        nm = str(s.entry.name)
                        fn = mod.cfuncs.pop(nm)
                        ns['__cm_' + nm] = fn
                        if mod.py.__dict__.get(nm) is not old_py.get(nm):
                            p = mod.py.__dict__.pop(nm)
                            if nm in old_py:
                                mod.py.__dict__[nm] = old_py[nm]
                            ns[nm] = (lambda fn: lambda *a, **k: fn.pycall(*a, **k))(fn)
                    elif k in ('CVarDefNode', 'PassStatNode', 'ExprStatNode'):
                        pass
                    elif k == 'SingleAssignmentNode':
                        pass      # method registration
                    else:
                        raise Unsupported('in cdef class: ' + k)
            finally:
                self.directives = old
                self.module_level = was

        def flat(b):
            if type(b).__name__ == 'StatListNode':
                return [y for x in b.stats for y in flat(x)]
            if type(b).__name__ == 'CompilerDirectivesNode':
                return flat(b.body)
            return [b]
        if n.body is not None:
            body(flat(n.body), self.directives)
        ns.pop('__init_fn__', None) if False else None
        ns['__hash__'] = object.__hash__ if '__hash__' not in ns else ns['__hash__']
        cls = type(cname, (object,), ns)
        mod.classes[cname] = cls
        mod.py.__dict__[cname] = cls

    def s_ReturnStatNode(self, n):
        raise _Ret(self.retval(n))

    def retval(self, n):
        if n.value is None:
            return None
        if self.retct[0] == 'o':
            return self.ev(n.value)
        return self.cval(n.value, self.ret_type)

    def s_RaiseStatNode(self, n):
        e = self.ev(n.exc_type)
        if n.exc_value is not None:
            v = self.ev(n.exc_value)
            e = e(v) if isinstance(e, type) else e
        if getattr(n, 'cause', None) is not None:
            raise e from self.ev(n.cause)
        raise e

    def s_AssertStatNode(self, n):
        if not self.test(n.condition):
            raise AssertionError(self.ev(n.value) if getattr(n, 'value', None) is not None else None)

    def s_IfStatNode(self, n):
        if len(n.if_clauses) == 1 and n.else_clause is not None:
            a, b = single(n.if_clauses[0].body), single(n.else_clause)
            if a is not None and b is not None and type(a).__name__ == type(b).__name__ and \
                    (type(a).__name__ == 'ReturnStatNode' or same_target(a.lhs, b.lhs)):
                return self.branchy(n.if_clauses[0], a, b, n.if_clauses[0].body, n.else_clause)
        for c in n.if_clauses:
            if self.test(c.condition):
                return self.run(c.body)
        if n.else_clause is not None:
            self.run(n.else_clause)

    def s_WhileStatNode(self, n):
        k = 0
        while n.condition is None or self.test(n.condition):
            k += 1
            if k > LOOP_LIMIT:
                raise Unsupported('loop bound')
            try:
                self.run(n.body)
            except _Brk:
                return
            except _Cont:
                pass
        if n.else_clause is not None:
            self.run(n.else_clause)

    def s_BreakStatNode(self, n):
        raise _Brk()

    def s_ContinueStatNode(self, n):
        raise _Cont()

    def s_ForFromStatNode(self, n):
        b1, c1 = self.num(n.bound1)
        b2, c2 = self.num(n.bound2)
        tt = n.loopvar_node.type if getattr(n, 'loopvar_node', None) is not None and n.loopvar_node.type is not None else n.target.type
        py = ctype(n.target.type)[0] == 'o'
        lt = ctype(tt)
        if lt[0] == 'o':
            lt = usual(usual(c1, c2), ('i', 64, 1))
        step = 1
        if n.step is not None:
            step = self.num(n.step)[0]
            if isinstance(step, SymInt):
                raise Unsupported('symbolic loop step')
        r1, r2 = n.relation1, n.relation2
        i = ccast(b1, c1, lt)
        if r1 == '<':
            i = ccast(i + 1, INT, lt)
        elif r1 == '>':
            i = ccast(i - 1, INT, lt)
        ct = usual(lt, c2)
        bb = ccast(b2, c2, ct)
        up = r1[0] == '<'
        k = 0
        while True:
            x = ccast(i, lt, ct)
            cond = {'<': lambda: x < bb, '<=': lambda: x <= bb, '>': lambda: x > bb, '>=': lambda: x >= bb}[r2]()
            if not cond:
                break
            k += 1
            if k > LOOP_LIMIT:
                raise Unsupported('loop bound')
            if py:
                self.assign(n.target, to_py(i, lt))
            else:
                self.assign_c(n.target, i, lt)
            try:
                self.run(n.body)
            except _Brk:
                return
            except _Cont:
                pass
            if not py and self.same_var(n):
                # the C loop steps the target variable itself
                i = ccast(self.cval(n.target, n.target.type), ctype(n.target.type), lt)
            i = ccast(i + step if up else i - step, lt if lt[1] >= 32 else INT, lt)
        if n.else_clause is not None:
            self.run(n.else_clause)

    def same_var(self, n):
        return not getattr(n, 'from_range', False)

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence if hasattr(it, 'sequence') else it
        if type(seq).__name__ in ('IteratorNode',):
            seq = seq.sequence
        v = self.ev(seq)
        if isinstance(v, MV):
            v = [v.a[i] for i in range(v.a.shape[0])]
        for x in interp.call(iter, v) if not isinstance(v, (list, tuple)) else v:
            self.assign(n.target, x)
            try:
                self.run(n.body)
            except _Brk:
                return
            except _Cont:
                pass
        if n.else_clause is not None:
            self.run(n.else_clause)

    def s_ParallelAssignmentNode(self, n):
        vals = [self.rhs(s.lhs, s.rhs) for s in n.stats]
        for s, v in zip(n.stats, vals):
            self.store(s.lhs, v)

    def s_CascadedAssignmentNode(self, n):
        v = None
        for lhs in n.lhs_list:
            v = self.rhs(lhs, n.rhs if not n.coerced_values else n.rhs)
            self.store(lhs, v)

    def s_SingleAssignmentNode(self, n):
        if self.module_level and type(n.rhs).__name__ in ('ImportNode', 'PyCFunctionNode', 'InnerFunctionNode'):
            if type(n.rhs).__name__ == 'ImportNode':
                name = self.ev(n.rhs.module_name)
                if name == 'cython':
                    return
                self.mod.py.__dict__[str(n.lhs.name)] = self.mod.loader._import(name, None, None, (), 0)
            return
        if type(n.lhs).__name__ == 'NameNode' and str(n.lhs.name) in ('__test__', '__pyx_capi__'):
            return
        self.store(n.lhs, self.rhs(n.lhs, n.rhs))

    def s_FromImportStatNode(self, n):
        name = self.ev(n.module.module_name)
        lvl = getattr(n.module, 'level', None)
        lvl = self.ev(lvl) if lvl is not None and hasattr(lvl, 'type') else (lvl or 0)
        names = [str(k) for k, _ in n.items]
        m = self.mod.loader._import(name, self.mod.py.__dict__, None, tuple(names), max(int(lvl or 0), 0))
        for k, target in n.items:
            self.assign(target, getattr(m, str(k)))

    def s_LetNode(self, n):
        self.let(n)
        self.run(n.body)

    s_LetNodeStat = s_LetNode

    def let(self, n):
        t = n.lazy_temp
        e = n.temp_expression
        if e is not None:
            self.refs[id(t)] = self.val_ct(e)

    def s_TempsBlockNode(self, n):
        self.run(n.body)

    def s_DelStatNode(self, n):
        raise Unsupported('del in a Cython function')

    # -- assignment
    def rhs(self, lhs, rhs):
        lt = lhs.type
        if ctype_safe(lt)[0] in ('i', 'f'):
            return ('c', self.cval(rhs, lt))
        k = type(rhs).__name__
        if k == 'CArrayNode':
            return ('l', [self.num(a) for a in rhs.args])
        if ctype_safe(lt)[0] == 'a':
            if k == 'TupleNode':
                return ('l', [self.num(a) for a in rhs.args])
        return ('o', self.ev(rhs))

    def store(self, lhs, v):
        tag, v = v
        if tag == 'l':
            b = lhs
            while type(b).__name__ in ('SliceIndexNode',):
                if b.start is not None or b.stop is not None:
                    raise Unsupported('array slice')
                b = b.base
            arr = self.ev(b)
            if not isinstance(arr, CArr):
                raise Unsupported('array assignment')
            if len(v) != len(arr.v):
                raise Unsupported('array assignment size')
            for i, (x, c) in enumerate(v):
                arr.v[i] = ccast(x, c, arr.ct)
            return
        if tag == 'c':
            return self.store_c(lhs, v)
        self.assign(lhs, v)

    def store_c(self, lhs, v):
        """v already converted to lhs's C type."""
        k = type(lhs).__name__
        if k == 'NameNode':
            nm = str(lhs.entry.name) if lhs.entry is not None else str(lhs.name)
            if self.module_level or (lhs.entry is not None and lhs.entry.scope is not None and lhs.entry.scope.is_module_scope):
                self.mod.consts[nm] = v
            else:
                self.vars[nm] = v
            return
        if k == 'AttributeNode':
            o = self.ev(lhs.obj)
            if o is None:
                raise AttributeError("'NoneType' object has no attribute '%s'" % lhs.attribute)
            o._c[str(lhs.attribute)] = v
            return
        if k in ('MemoryViewIndexNode', 'BufferIndexNode'):
            a, ix = self.locate(lhs)
            if a is not None:
                a[ix] = v
            return
        if k == 'IndexNode':
            b = self.ev(lhs.base)
            i = self.num(lhs.index)[0]
            if isinstance(b, CArr):
                i = eng().concretize(i) if isinstance(i, SymInt) else i
                if not 0 <= i < len(b.v):
                    OOB.append(('write', 'C array index %d of %d' % (i, len(b.v))))
                    raise Unsupported('write outside a C array')
                b.v[i] = v
                return
            if isinstance(b, Ptr):
                return self.store_ptr(b, i, v)
        if k == 'DereferenceNode':
            return self.store_ptr(self.ev(lhs.operand), 0, v)
        if k in ('TypecastNode', 'CoerceToTempNode', 'ProxyNode', 'CloneNode'):
            return self.store_c(lhs.arg if k != 'TypecastNode' else lhs.operand, v)
        raise Unsupported('assignment to %s' % k)

    def store_ptr(self, p, i, v):
        if isinstance(p, VarPtr):
            if i != 0 or p.to != p.ct:
                raise Unsupported('store through a converted pointer')
            p.store[p.name] = v
            return
        size = p.to[1] // 8
        es = p.ct[1] // 8
        b = p.byte + i * size
        n = p.a.shape[0] * es
        if isinstance(b, SymInt):
            b = eng().concretize(b, limit=600)
        if b < 0 or b + size > n:
            OOB.append(('write', 'store of %d bytes at %d of a buffer of %d bytes' % (size, b, n)))
            raise Unsupported('write outside a buffer')
        if es != size or b % es or p.ct != p.to:
            raise Unsupported('store through a converted pointer')
        p.a[b // es] = v

    def assign_c(self, lhs, v, src):
        ct = ctype(lhs.type)
        if ct[0] == 'o':
            return self.assign(lhs, to_py(v, src))
        self.store_c(lhs, self.stored(ccast(v, src, ct), ct))

    def stored(self, v, ct):
        return v

    def assign(self, lhs, v):
        k = type(lhs).__name__
        t = lhs.type
        ct = ctype_safe(t)
        if ct[0] in ('i', 'f'):
            return self.store_c(lhs, from_py(v, ct, str(t)))
        if k == 'NameNode':
            bt = base_type(t)
            if getattr(bt, 'is_buffer', False):
                check_buffer(v, bt)
            nm = str(lhs.entry.name) if lhs.entry is not None else str(lhs.name)
            if self.module_level or (lhs.entry is not None and lhs.entry.scope is not None and lhs.entry.scope.is_module_scope
                                     and ct[0] == 'o'):
                if ct[0] == 'o':
                    self.mod.py.__dict__[nm] = v
                else:
                    self.mod.consts[nm] = v
            else:
                self.vars[nm] = v
            return
        if k in ('TupleNode', 'ListNode'):
            vs = list(v)
            if len(vs) != len(lhs.args):
                raise ValueError('too many values to unpack' if len(vs) > len(lhs.args) else 'not enough values to unpack')
            for a, x in zip(lhs.args, vs):
                self.assign(a, x)
            return
        if k == 'AttributeNode':
            o = self.ev(lhs.obj)
            if lhs.entry is not None and getattr(lhs.entry, 'is_variable', False) and hasattr(o, '_c'):
                o._c[str(lhs.attribute)] = v
            else:
                setattr(o, str(lhs.attribute), v)
            return
        if k == 'IndexNode':
            b = self.ev(lhs.base)
            i = self.ev_obj(lhs.index)
            b[i] = v
            return
        if k in ('MemoryViewIndexNode', 'BufferIndexNode'):
            a, ix = self.locate(lhs)
            if a is not None:
                a[ix] = from_py(v, ctype(lhs.type))
            return
        if k == 'MemoryCopySlice' or k == 'MemoryViewSliceNode' or k == 'MemoryCopyScalar':
            raise Unsupported('memoryview copy')
        if k in ('CoerceToTempNode', 'ProxyNode', 'CloneNode', 'PyTypeTestNode'):
            return self.assign(lhs.arg, v)
        raise Unsupported('assignment to %s' % k)

    # -- expressions
    def test(self, n):
        return bool(self.cond(n))

    def cond(self, n):
        """Truth value (undecided if it is symbolic)."""
        v, ct = self.val_ct(n)
        if ct[0] == 'f':
            return v != 0
        if ct[0] == 'mv' or ct[0] == 'p':
            return v is not None
        if isinstance(v, SymInt):
            return v != 0
        return v

    def cval(self, n, t):
        """Value of n converted to C type t (as in an assignment)."""
        bt = base_type(t)
        if getattr(bt, 'is_memoryviewslice', False):
            v = self.ev(n)
            return v if v is None or isinstance(v, MV) else make_mv(v, bt)
        ct = ctype(t)
        if ct[0] == 'o':
            return self.ev_obj(n)
        if ct[0] == 't':
            k = n
            if type(k).__name__ == 'TupleNode':
                return tuple(self.cval(a, c) for a, c in zip(k.args, bt.components))
            v, sct = self.val_ct(n)
            if sct[0] == 't':
                return tuple(ccast(x, s, c) for x, s, c in zip(v, sct[1:], ct[1:]))
            return from_py(v, ct)
        v, src = self.val_ct(n)
        if src[0] == 'o':
            return interp.truth(v) if is_bint(t) else from_py(v, ct, str(t))
        if ct[0] in ('i', 'f'):
            return ccast(v, src, ct)
        return v

    def num(self, n):
        v, ct = self.val_ct(n)
        if ct[0] == 'o':
            if isinstance(v, (int, SymInt, np.integer)):
                return plain(v), SSIZE
            raise Unsupported('C number from %s' % type(n).__name__)
        return v, ct

    def ev(self, n):
        return self.val_ct(n)[0]

    def ev_obj(self, n):
        v, ct = self.val_ct(n)
        if ct[0] != 'o':
            return to_py(v, ct, is_bint(n.type))
        return v

    def val_ct(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('Cython expression %s' % type(n).__name__)
        return m(n)

    # constants
    def e_IntNode(self, n):
        from Cython.Utils import str_to_number
        v = str_to_number(n.value) if not isinstance(n.value, int) else n.value
        if ctype_safe(n.type)[0] == 'o':
            return v, ('o',)
        if ctype_safe(n.type)[0] == 'f':
            return float(v), ('f', 64)
        u = 'U' in (getattr(n, 'unsigned', '') or '').upper()
        lng = len(getattr(n, 'longness', '') or '')
        dec = not str(n.value).lower().startswith(('0x', '0o', '0b'))
        if not lng and v < 2 ** 31 and not u:
            return v, INT
        if not lng and v < 2 ** 32 and (u or not dec):
            return v, ('i', 32, 0)
        if v < 2 ** 63 and not u:
            return v, ('i', 64, 1)
        return v, ('i', 64, 0)

    def e_BoolNode(self, n):
        v = bool(n.value)
        if ctype_safe(n.type)[0] == 'o':
            return v, ('o',)
        return v, INT

    def e_FloatNode(self, n):
        if ctype_safe(n.type)[0] == 'o':
            return float(n.value), ('o',)
        # the C literal is a double (or is converted where it is used)
        return np.float64(float(n.value)), ('f', 64)

    def e_NoneNode(self, n):
        return None, ('o',)

    def e_UnicodeNode(self, n):
        return str(n.value), ('o',)

    def e_IdentifierStringNode(self, n):
        return str(n.value), ('o',)

    e_StringNode = e_IdentifierStringNode

    def e_BytesNode(self, n):
        v = n.value
        return bytes(v.byteencode() if hasattr(v, 'byteencode') else v.encode('latin1') if isinstance(v, str) else v), ('o',)

    def e_EllipsisNode(self, n):
        return Ellipsis, ('o',)

    def e_NameNode(self, n):
        e = n.entry
        nm = str(e.name) if e is not None else str(n.name)
        ct = ctype_safe(n.type)
        if nm in self.vars:
            return self.vars[nm], ct
        if e is not None and getattr(e, 'scope', None) is not None and not e.scope.is_module_scope and not e.scope.is_builtin_scope \
                and nm in self.local_types(n):
            pass
        if ct[0] == 'a' and e is not None and not e.scope.is_module_scope:
            a = CArr(ct[2], ct[1])
            self.vars[nm] = a
            return a, ct
        if e is not None and getattr(e, 'enum_int_value', None) is not None:
            return e.enum_int_value, INT
        if e is not None and getattr(e, 'value_node', None) is not None and e.is_const:
            return self.val_ct(e.value_node)
        if nm in NPY:
            return np.dtype(NPY[nm]), ('i', 32, 1)
        if nm in ('NAN', 'INFINITY'):
            return np.float32('nan' if nm == 'NAN' else 'inf'), ('f', 32)
        if ct[0] == 'fn':
            if nm in self.mod.cfuncs:
                return self.mod.cfuncs[nm], ct
            return nm, ct
        if nm in self.mod.consts:
            return self.mod.consts[nm], ct
        if nm in self.mod.py.__dict__:
            return self.mod.py.__dict__[nm], ct
        if nm in self.mod.cfuncs:
            return self.mod.py.__dict__.get(nm, self.mod.cfuncs[nm]), ct
        b = self.mod.loader.builtins
        if nm in b:
            return b[nm], ('o',)
        if ct[0] in ('i', 'f') and e is not None and not e.scope.is_module_scope:
            # uninitialised C variable
            return plain_garbage(ct), ct
        if e is not None and not e.scope.is_module_scope and not e.scope.is_builtin_scope:
            raise UnboundLocalError("cannot access local variable '%s'" % nm)
        q = str(getattr(getattr(e, 'scope', None), 'qualified_name', '') or '')
        if 'array' in q and nm == 'array':
            return CyArray, ('o',)
        if 'numpy' in q and hasattr(symnp.FACADE, nm):
            return getattr(symnp.FACADE, nm), ('o',)
        if e is not None and getattr(e, 'as_module', None):
            mq = str(e.as_module.qualified_name)
            if 'array' in mq:
                return ArrayModule, ('o',)
            if 'numpy' in mq:
                return symnp.FACADE, ('o',)
        if q.startswith('eventio'):
            m = self.mod.loader.load(q)
            if hasattr(m, nm):
                return getattr(m, nm), ct
        raise NameError("name '%s' is not defined" % nm)

    def local_types(self, n):
        return ()

    def e_TupleNode(self, n):
        ct = ctype_safe(n.type)
        if ct[0] == 't':
            return tuple(self.cval(a, c) for a, c in zip(n.args, base_type(n.type).components)), ct
        return tuple(self.ev_obj(a) for a in n.args), ('o',)

    def e_ListNode(self, n):
        return [self.ev_obj(a) for a in n.args], ('o',)

    def e_DictNode(self, n):
        return {self.ev_obj(i.key): self.ev_obj(i.value) for i in n.key_value_pairs}, ('o',)

    def e_SetNode(self, n):
        return {self.ev_obj(a) for a in n.args}, ('o',)

    def e_JoinedStrNode(self, n):
        parts = []
        for v in n.values:
            if type(v).__name__ == 'FormattedValueNode':
                spec = self.ev_obj(v.format_spec) if v.format_spec is not None else ''
                parts.append((self.ev_obj(v.value), v.conversion_char or '', spec))
            else:
                parts.append(self.ev_obj(v))
        return interp.fstring(parts), ('o',)

    def e_FormattedValueNode(self, n):
        return interp.fstring([(self.ev_obj(n.value), n.conversion_char or '',
                                self.ev_obj(n.format_spec) if n.format_spec is not None else '')]), ('o',)

    # coercions
    def e_CoerceToTempNode(self, n):
        v, ct = self.val_ct(n.arg)
        t = ctype_safe(n.type)
        if t[0] in ('i', 'f') and ct[0] in ('i', 'f'):
            return ccast(v, ct, t), t
        return v, (t if t[0] != 'x' else ct)

    def e_CoerceToBooleanNode(self, n):
        v, ct = self.val_ct(n.arg)
        if ct[0] == 'o':
            return interp.truth(v), INT
        if ct[0] in ('i', 'f'):
            if isinstance(v, (SymBool, bool)):
                return v, INT
            return v != 0, INT
        return v is not None, INT

    def e_CoerceToPyTypeNode(self, n):
        v, ct = self.val_ct(n.arg)
        if ct[0] == 'o':
            return v, ct
        if ct[0] == 'mv':
            return v, ('o',)
        # int object from the C type of the argument expression
        at = ctype_safe(n.arg.type)
        if ct[0] in ('i', 'f') and at[0] in ('i', 'f') and at != ct:
            v = ccast(v, ct, at)
            ct = at
        return to_py(v, ct, is_bint(n.arg.type)), ('o',)

    def e_CoerceIntToBytesNode(self, n):
        raise Unsupported('int to bytes')

    def e_CoerceFromPyTypeNode(self, n):
        v = self.ev_obj(n.arg)
        t = base_type(n.type)
        if getattr(t, 'is_memoryviewslice', False):
            return make_mv(v, t), ('mv',)
        ct = ctype(t)
        if is_bint(t):
            return interp.truth(v), INT
        return from_py(v, ct, str(t)), ct

    def e_CoerceToMemViewSliceNode(self, n):
        v = self.ev_obj(n.arg)
        return make_mv(v, base_type(n.type)), ('mv',)

    def e_PyTypeTestNode(self, n):
        v = self.ev_obj(n.arg)
        t = base_type(n.type)
        check_pytype(v, t)
        return v, ('o',)

    def e_NoneCheckNode(self, n):
        v, ct = self.val_ct(n.arg)
        if v is None:
            exc = getattr(n, 'exception_type_cname', 'PyExc_AttributeError')
            raise {'PyExc_TypeError': TypeError}.get(exc, AttributeError)("'NoneType' object")
        return v, ct

    def e_CloneNode(self, n):
        return self.val_ct(n.arg)

    e_ProxyNode = e_CMethodSelfCloneNode = e_ExprWrapper = e_CloneNode

    def e_ResultRefNode(self, n):
        if id(n) in self.refs:
            return self.refs[id(n)]
        if n.expression is not None:
            r = self.val_ct(n.expression)
            return r
        raise Unsupported('unbound temporary')

    def e_EvalWithTempExprNode(self, n):
        self.refs[id(n.lazy_temp)] = self.val_ct(n.temp_expression)
        return self.val_ct(n.subexpression)

    def e_TypecastNode(self, n):
        v, ct = self.val_ct(n.operand)
        t = ctype(n.type)
        if t[0] == 'p':
            if isinstance(v, VarPtr):
                return VarPtr(v.store, v.name, v.ct, t[1]), t
            if isinstance(v, Ptr):
                return Ptr(v.a, v.ct, v.byte, t[1]), t
            if isinstance(v, CArr):
                return Ptr(v.v, v.ct, 0, t[1]), t
            if isinstance(v, MV):
                raise Unsupported('pointer cast of a memoryview')
            raise Unsupported('pointer cast')
        if t[0] == 'o':
            return (v if ct[0] == 'o' else to_py(v, ct)), t
        if ct[0] == 'o':
            return from_py(v, t), t
        if t[0] == 'v':
            return None, t
        return ccast(v, ct, t), t

    def e_AmpersandNode(self, n):
        o = n.operand
        while type(o).__name__ in ('ProxyNode', 'CloneNode'):
            o = o.arg
        k = type(o).__name__
        if k in ('MemoryViewIndexNode', 'BufferIndexNode'):
            mv = self.buffer(o.base)
            ix = self.indices(o, mv.a.shape, addr=True)
            if len(ix) != 1 or mv.owner is None:
                if mv.a.flags.c_contiguous and mv.a.dtype == object:
                    owner = mv.a.reshape(-1)
                    off = 0
                    for d, i in zip(mv.a.shape, ix):
                        off = off * d + i
                    return Ptr(owner, mv.ct, off * (mv.ct[1] // 8), mv.ct), ('p', mv.ct)
                raise Unsupported('pointer into a strided view')
            return Ptr(mv.owner, mv.ct, (ix[0] + mv.off) * (mv.ct[1] // 8), mv.ct), ('p', mv.ct)
        if k == 'IndexNode':
            b = self.ev(o.base)
            i = self.num(o.index)[0]
            if isinstance(b, Ptr):
                return Ptr(b.a, b.ct, b.byte + i * (b.to[1] // 8), b.to), ('p', b.to)
            if isinstance(b, CArr):
                i = eng().concretize(i, limit=600) if isinstance(i, SymInt) else i
                return Ptr(b.v, b.ct, i * (b.ct[1] // 8), b.ct), ('p', b.ct)
        if k == 'NameNode' and o.entry is not None and not self.module_level and not o.entry.scope.is_module_scope:
            ct = ctype_safe(o.type)
            if ct[0] in ('i', 'f'):
                return VarPtr(self.vars, str(o.entry.name), ct), ('p', ct)
        raise Unsupported('address of %s' % k)

    def e_DereferenceNode(self, n):
        p = self.ev(n.operand)
        return self.load(p, 0), p.to

    def load(self, p, i):
        if isinstance(p, VarPtr):
            if i != 0 or p.to != p.ct:
                raise Unsupported('load through a converted pointer')
            if p.name not in p.store:
                return plain_garbage(p.ct)
            return p.store[p.name]
        size = p.to[1] // 8
        es = p.ct[1] // 8
        b = p.byte + i * size
        n = p.a.shape[0] * es
        if isinstance(b, SymInt):
            if b.lo < 0 or b.hi + size > n:
                if not band(b >= 0, b + size <= n):
                    OOB.append(('read', 'load of %d bytes outside a buffer of %d bytes' % (size, n)))
                    return plain_garbage(p.to)
            b = eng().concretize(b, limit=600)
        if b < 0 or b + size > n:
            OOB.append(('read', 'load of %d bytes at %d of a buffer of %d bytes' % (size, b, n)))
            return plain_garbage(p.to)
        dt = npdtype(p.to)
        if es == size and b % es == 0 and p.ct == p.to:
            v = p.a[b // es]
            return plain_garbage(p.ct) if v is None else v
        if any(x is None for x in p.a[b // es:(b + size - 1) // es + 1]):
            raise Unsupported('load of an unset array element')
        if es == 1:
            bb = [plain(x) for x in p.a[b:b + size]]
        else:
            raw = []
            for x in p.a:
                raw += encode(x, npdtype(p.ct))
            bb = raw[b:b + size]
        r = decode(bb, dt)
        return plain(r) if p.to[0] == 'i' else r

    # indexing
    def buffer(self, base):
        v = self.ev(base)
        if v is None:
            raise TypeError("'NoneType' object is not subscriptable")
        if isinstance(v, MV):
            return v
        if isinstance(v, np.ndarray) and not isinstance(v, SymArray):
            raise Unsupported('real array in a buffer access')
        if isinstance(v, SA):
            d = v.dtype
            ct = ('f', d.itemsize * 8) if d.kind == 'f' else ('i', d.itemsize * 8, int(d.kind == 'i'))
            return MV(v._a, ct, v._a if v._a.ndim == 1 else None)
        raise Unsupported('buffer %s' % type(v).__name__)

    def indices(self, n, shape, addr=False):
        out = []
        bc = self.directives.get('boundscheck', True)
        wa = self.directives.get('wraparound', True)
        for ax, (x, dim) in enumerate(zip(n.indices, shape)):
            i, ct = self.num(x)
            # the index temp has the index's C type
            t = ctype_safe(x.type)
            if t[0] == 'i' and ct != t:
                i, ct = ccast(i, ct, t), t
            if ct[2]:
                lo = i.lo if isinstance(i, SymInt) else i
                if lo < 0:
                    if bool(i < 0):
                        if wa:
                            i = i + dim
                            if bc and bool(i < 0):
                                raise IndexError('Out of bounds on buffer access (axis %d)' % ax)
                        elif bc:
                            raise IndexError('Out of bounds on buffer access (axis %d)' % ax)
            if bc:
                if bool(i >= dim):
                    raise IndexError('Out of bounds on buffer access (axis %d)' % ax)
            if not addr or bc:
                i = eng().concretize(i, limit=600) if isinstance(i, SymInt) else i
            out.append(i)
        return tuple(out)

    def locate(self, n):
        """(object ndarray, index) of an element; out-of-bounds writes are recorded."""
        mv = self.buffer(n.base)
        ix = self.indices(n, mv.a.shape)
        for i, d in zip(ix, mv.a.shape):
            if not 0 <= i < d:
                OOB.append(('write', 'index %d of %d' % (i, d)))
                raise Unsupported('write outside a buffer')
        if len(ix) != mv.a.ndim:
            raise Unsupported('partial index assignment')
        return Typed(mv), ix

    def e_MemoryViewIndexNode(self, n):
        mv = self.buffer(n.base)
        ix = self.indices(n, mv.a.shape)
        ct = mv.ct
        for i, d in zip(ix, mv.a.shape):
            if not 0 <= i < d:
                if mv.owner is not None and 0 <= i + mv.off < mv.owner.shape[0]:
                    return plain_el(mv.owner[i + mv.off], ct), ct
                OOB.append(('read', 'index %d of %d' % (i, d)))
                return plain_garbage(ct), ct
        return plain_el(mv.a[ix], ct), ct

    e_BufferIndexNode = e_MemoryViewIndexNode

    def e_MemoryViewSliceNode(self, n):
        mv = self.ev(n.base)
        if mv is None:
            raise TypeError('Cannot slice None')
        if isinstance(mv, SA):
            mv = self.buffer(n.base)
        idx = []
        ax = 0
        off = mv.off
        bc = self.directives.get('boundscheck', True)
        for x in n.original_indices:
            k = type(x).__name__
            dim = mv.a.shape[ax] if ax < mv.a.ndim else 0
            if k == 'SliceNode' or hasattr(x, 'start'):
                if x.step is not None and type(x.step).__name__ != 'NoneNode':
                    raise Unsupported('memoryview slice step')
                st = 0 if x.start is None or type(x.start).__name__ == 'NoneNode' else self.cval_ssize(x.start)
                en = dim if x.stop is None or type(x.stop).__name__ == 'NoneNode' else self.cval_ssize(x.stop)
                st, en = interp.clampidx(st, dim), interp.clampidx(en, dim)
                st, en, _ = slice(st, en).indices(dim)
                idx.append(slice(st, max(st, en)))
                if ax == 0:
                    off += st
            elif k == 'NoneNode':
                raise Unsupported('newaxis')
            else:
                i, ct = self.num(x)
                if ctype_safe(x.type)[0] == 'i':
                    i = ccast(i, ct, ctype_safe(x.type))
                if bool(i < 0):
                    i = i + dim
                    if bool(i < 0):
                        raise IndexError('Index out of bounds (axis %d)' % ax)
                if bool(i >= dim):
                    raise IndexError('Index out of bounds (axis %d)' % ax)
                i = eng().concretize(i, limit=600) if isinstance(i, SymInt) else i
                idx.append(i)
            ax += 1
        a = mv.a[tuple(idx)]
        one = mv.a.ndim == 1 and a.ndim == 1
        return MV(a, mv.ct, mv.owner if one else None, off if one else 0, mv.ro), ('mv',)

    def cval_ssize(self, x):
        v, ct = self.val_ct(x)
        if ct[0] == 'o':
            return from_py(v, SSIZE)
        return ccast(v, ct, SSIZE)

    def e_SliceNode(self, n):
        g = lambda x: None if x is None else self.ev_obj(x)
        return slice(g(n.start), g(n.stop), g(n.step)), ('o',)

    def e_SliceIndexNode(self, n):
        b = self.ev(n.base)
        if isinstance(b, CArr):
            return b, ctype_safe(n.base.type)
        g = lambda x: None if x is None else self.ev_obj(x)
        return interp.getitem(b, slice(g(n.start), g(n.stop))), ('o',)

    def e_IndexNode(self, n):
        b, bct = self.val_ct(n.base)
        if isinstance(b, Ptr):
            i = self.num(n.index)[0]
            return self.load(b, i), b.to
        if isinstance(b, CArr):
            i = self.num(n.index)[0]
            i = eng().concretize(i) if isinstance(i, SymInt) else i
            if not 0 <= i < len(b.v):
                OOB.append(('read', 'C array index %d of %d' % (i, len(b.v))))
                return plain_garbage(b.ct), b.ct
            v = b.v[i]
            if v is None:
                v = plain_garbage(b.ct)
            return v, b.ct
        if bct[0] == 't':
            i = self.num(n.index)[0]
            return b[i], bct[1 + i]
        if isinstance(b, MV):
            i = self.num(n.index)[0]
            raise Unsupported('index of a memoryview')
        if type(n.base).__name__ == 'AttributeNode' and bct[0] == 'shape':
            i = self.num(n.index)[0]
            return b[i], SSIZE
        i = self.ev_obj(n.index)
        r = interp.getitem(b, i)
        ct = ctype_safe(n.type)
        if ct[0] in ('i', 'f'):
            return from_py(r, ct), ct
        return r, ('o',)

    def e_AttributeNode(self, n):
        at = str(n.attribute)
        o, oct_ = self.val_ct(n.obj)
        if isinstance(o, MV):
            if at == 'shape':
                return o.a.shape, ('shape',)
            if at == 'T':
                return MV(o.a.T, o.ct, None, 0, o.ro), ('mv',)
            if at == 'ndim':
                return o.a.ndim, INT
            if at == 'size':
                return int(o.a.size), ('o',)
            if at == 'nbytes':
                return int(o.a.size) * o.ct[1] // 8, ('o',)
            raise Unsupported('memoryview.' + at)
        e = n.entry
        ct = ctype_safe(n.type)
        if e is not None and hasattr(o, '_c') and at in o._c:
            return o._c[at], ct
        if hasattr(o, '_c') and '__cm_' + at in type(o).__dict__:
            return (type(o).__dict__['__cm_' + at], o), ct
        if isinstance(o, str) and ct[0] == 'fn':
            return at, ct
        if isinstance(o, SA) and at == 'shape':
            return o.shape, (('shape',) if ct[0] != 'o' else ('o',))
        if ct[0] == 'fn':
            return at, ct
        if at in NPY:
            return np.dtype(NPY[at]), INT
        if o is None:
            raise AttributeError("'NoneType' object has no attribute '%s'" % at)
        r = getattr(o, at)
        if ct[0] in ('i', 'f'):
            return from_py(r, ct), ct
        return r, ('o',)

    # operators
    def arith(self, op, n):
        a, ca = self.val_ct(n.operand1)
        b, cb = self.val_ct(n.operand2)
        if ca[0] == 'o' or cb[0] == 'o':
            a = a if ca[0] == 'o' else to_py(a, ca)
            b = b if cb[0] == 'o' else to_py(b, cb)
            return self.pyop(op, a, b), ('o',)
        return self.cop(op, a, ca, b, cb, n)

    def pyop(self, op, a, b):
        import operator as o
        f = {'+': o.add, '-': o.sub, '*': o.mul, '&': o.and_, '|': o.or_, '^': o.xor, '<<': o.lshift, '>>': o.rshift,
             '//': o.floordiv, '%': interp.mod, '/': o.truediv, '**': o.pow}[op]
        return f(a, b)

    def cop(self, op, a, ca, b, cb, n):
        if isinstance(a, (VarPtr, CArr)) and ca[0] in 'pa' or isinstance(b, (VarPtr, CArr)):
            raise Unsupported('arithmetic on the address of a variable')
        if isinstance(a, Ptr) and op in '+-':
            d = b * (a.to[1] // 8)
            return Ptr(a.a, a.ct, a.byte + d if op == '+' else a.byte - d, a.to), ca
        if isinstance(b, Ptr) and op == '+':
            return Ptr(b.a, b.ct, b.byte + a * (b.to[1] // 8), b.to), cb
        if op in ('<<', '>>'):
            ct = promote(ca)
            a = ccast(asint(a), ca, ct)
            if isinstance(b, (SymInt, SymBool)):
                b = eng().concretize(asint(b))
            if not 0 <= b < ct[1]:
                raise Unsupported('shift count outside the type')
            if op == '<<':
                return wrap(a << b, ct[1], bool(ct[2])), ct
            return a >> b, ct
        ct = usual(ca, cb)
        if ct[0] == 'f':
            dt = npdtype(ct)
            a, b = ccast(a, ca, ct), ccast(b, cb, ct)
            if isinstance(a, SymFloat) or isinstance(b, SymFloat):
                r = fbin({'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[op], a, b, dt)
                return r, ct
            if op == '/' and b == 0 and not self.directives.get('cdivision', False):
                raise ZeroDivisionError('float division')
            with np.errstate(all='ignore'):
                a, b = dt.type(a), dt.type(b)
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}[op](), ct
        a, b = ccast(asint(a), ca, ct), ccast(asint(b), cb, ct)
        if op in ('//', '%', '/'):
            nt = ctype_safe(n.type)
            if op == '/' and nt[0] == 'f':
                raise Unsupported('true division of C integers')
            if bool(b == 0):
                if self.directives.get('cdivision', False):
                    raise Unsupported('C division by zero')
                raise ZeroDivisionError('integer division or modulo by zero')
            if self.directives.get('cdivision', False) and ct[2]:
                if bool(a < 0) or bool(b < 0):
                    raise Unsupported('C division of negative numbers')
            return wrap(a % b if op == '%' else a // b, ct[1], bool(ct[2])), ct
        r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b,
             '^': lambda: a ^ b}[op]()
        return wrap(r, ct[1], bool(ct[2])), ct

    def e_AddNode(self, n): return self.arith('+', n)
    def e_SubNode(self, n): return self.arith('-', n)
    def e_MulNode(self, n): return self.arith('*', n)
    def e_BitwiseOrNode(self, n): return self.arith('|', n)
    def e_IntBinopNode(self, n): return self.arith(n.operator, n)
    def e_DivNode(self, n): return self.arith(n.operator, n)
    def e_ModNode(self, n): return self.arith('%', n)
    def e_BinopNode(self, n): return self.arith(n.operator, n)
    e_NumBinopNode = e_BinopNode

    def e_PowNode(self, n):
        a, ca = self.val_ct(n.operand1)
        b, cb = self.val_ct(n.operand2)
        if ca[0] == 'o':
            return a ** b, ('o',)
        raise Unsupported('C power')

    def e_InPlaceAssignmentNode(self, n):
        raise Unsupported('in-place assignment')

    def e_UnaryMinusNode(self, n):
        v, ct = self.val_ct(n.operand)
        if ct[0] == 'o':
            return -v, ct
        if ct[0] == 'f':
            return -v, ct
        t = promote(ct)
        return wrap(-ccast(asint(v), ct, t), t[1], bool(t[2])), t

    def e_UnaryPlusNode(self, n):
        v, ct = self.val_ct(n.operand)
        return v, promote(ct)

    def e_TildeNode(self, n):
        v, ct = self.val_ct(n.operand)
        if ct[0] == 'o':
            return ~v, ct
        t = promote(ct)
        return wrap(~ccast(asint(v), ct, t), t[1], bool(t[2])), t

    def e_NotNode(self, n):
        v, ct = self.val_ct(n.operand)
        if ct[0] == 'o':
            return bnot(interp.truth(v)), INT
        if isinstance(v, SymInt):
            return v == 0, INT
        if isinstance(v, SymBool):
            return bnot(v), INT
        return not v, INT

    def e_BoolBinopNode(self, n):
        a, ca = self.val_ct(n.operand1)
        t = interp.truth(a) if ca[0] in 'io' else bool(a != 0)
        if n.operator == 'and':
            if not t:
                return (a if ca[0] == 'o' else False), (ca if ca[0] == 'o' else INT)
        else:
            if t:
                return (a if ca[0] == 'o' else True), (ca if ca[0] == 'o' else INT)
        return self.val_ct(n.operand2)

    def e_BoolBinopResultNode(self, n):
        return self.val_ct(n.value)

    def e_CondExprNode(self, n):
        return self.conv_to(n.true_val if self.test(n.condition) else n.false_val, n.type)

    def conv_to(self, n, t):
        v, ct = self.val_ct(n)
        tc = ctype_safe(t)
        if tc[0] in ('i', 'f') and ct[0] in ('i', 'f'):
            return ccast(v, ct, tc), tc
        return v, ct

    def e_PrimaryCmpNode(self, n):
        a, ca = self.val_ct(n.operand1)
        r = None
        node, op = n.operand2, n.operator
        casc = n.cascade
        while True:
            b, cb = self.val_ct(node)
            x = self.compare(op, a, ca, b, cb)
            if casc is None:
                return (x if r is None else band(r, x)), INT if ctype_safe(n.type)[0] != 'o' else ('o',)
            if not x:
                return False, INT
            r = True
            a, ca = b, cb
            op, node, casc = casc.operator, casc.operand2, casc.cascade

    def compare(self, op, a, ca, b, cb):
        if op in ('is', 'is_not'):
            return (a is b) == (op == 'is')
        if op in ('in', 'not_in'):
            a = a if ca[0] == 'o' else to_py(a, ca)
            r = interp.contains(a, b)
            return bnot(r) if op == 'not_in' else r
        if ca[0] in 'if' and cb[0] in 'if' and ca[0] != 'fn' and cb[0] != 'fn':
            ct = usual(ca, cb)
            a, b = ccast(asint(a) if ca[0] == 'i' else a, ca, ct), ccast(asint(b) if cb[0] == 'i' else b, cb, ct)
        else:
            a = a if ca[0] == 'o' else to_py(a, ca) if ca[0] in 'if' else a
            b = b if cb[0] == 'o' else to_py(b, cb) if cb[0] in 'if' else b
            if a is None or b is None or isinstance(a, MV) or isinstance(b, MV):
                return (a is b) == (op == '==')
        import operator as o
        return {'==': o.eq, '!=': o.ne, '<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge}[op](a, b)

    # calls
    def e_SimpleCallNode(self, n):
        f = n.function
        while type(f).__name__ in ('CloneNode', 'ProxyNode'):
            f = f.arg
        ft = base_type(f.type) if f.type is not None else None
        if ft is not None and getattr(ft, 'is_ptr', False) and ft.base_type.is_cfunction:
            ft = ft.base_type
        if ft is not None and getattr(ft, 'is_cfunction', False):
            return self.ccall(n, f, ft)
        fn = self.ev_obj(f)
        at = n.arg_tuple
        if at is not None:
            args = list(at.args) if type(at).__name__ == 'TupleNode' else None
            vals = [self.ev_obj(a) for a in args] if args is not None else list(self.ev_obj(at))
        else:
            vals = [self.ev_obj(a) for a in n.args]
        r = self.pycall(fn, vals, {})
        ct = ctype_safe(n.type)
        return (from_py(r, ct), ct) if ct[0] in 'if' else (r, ('o',))

    e_PyMethodCallNode = e_SimpleCallNode

    def pycall(self, fn, vals, kw):
        vals = [to_len(v) for v in vals] if fn is len else vals
        return interp.call(fn, *vals, **kw)

    def e_GeneralCallNode(self, n):
        fn = self.ev_obj(n.function)
        pos = self.ev_obj(n.positional_args) if n.positional_args is not None else ()
        kw = self.ev_obj(n.keyword_args) if n.keyword_args is not None else {}
        r = self.pycall(fn, list(pos), dict(kw))
        return r, ('o',)

    def e_PyCFunctionNode(self, n):
        raise Unsupported('inner function')

    def ccall(self, n, f, ft):
        nm = None
        self_obj = None
        k = type(f).__name__
        if k == 'NameNode':
            nm = str(f.entry.name)
            cn = str(getattr(f.entry, 'cname', '') or '')
        elif k == 'AttributeNode':
            nm = str(f.attribute)
            cn = str(getattr(f.entry, 'cname', '') or '') if f.entry is not None else ''
            ot = ctype_safe(f.obj.type) if f.obj.type is not None else ('o',)
            is_mod = getattr(f.obj, 'is_attribute', False) or (type(f.obj).__name__ == 'NameNode' and f.obj.entry is not None
                                                              and getattr(f.obj.entry, 'as_module', None))
            if not is_mod:
                self_obj = self.ev(f.obj)
        elif k == 'PythonCapiFunctionNode':
            nm = cn = str(f.cname)
        else:
            raise Unsupported('call of %s' % k)
        args = list(n.args or [])
        fn = None
        if self_obj is not None and hasattr(self_obj, '_c'):
            fn = type(self_obj).__dict__.get('__cm_' + nm)
            if fn is None:
                raise Unsupported('method ' + nm)
            vals = [self_obj]
            rest = args
            if len(args) >= len(fn.args):
                rest = args[1:]
            for a, (an, t, d) in zip(rest, fn.args[1:]):
                vals.append(self.cval(a, t))
        elif nm in self.mod.cfuncs and (k == 'NameNode'):
            fn = self.mod.cfuncs[nm]
            vals = [self.cval(a, t) for a, (an, t, d) in zip(args, fn.args)]
        else:
            ext = self.extern_pyx(f)
            if ext is not None:
                fn = ext
                vals = [self.cval(a, t) for a, (an, t, d) in zip(args, fn.args)]
        if fn is not None:
            return fn.ccall(vals), ctype_safe(fn.ret)
        return self.builtin_c(n, nm, cn, args, self_obj)

    def extern_pyx(self, f):
        """cpdef/cdef function cimported from another module of the package."""
        e = f.entry
        sc = getattr(e, 'scope', None)
        q = getattr(sc, 'qualified_name', '') or ''
        if q and q != self.mod.name and q.split('.')[0] == 'eventio':
            m = self.mod.loader.load(q)
            cm = getattr(m, '__vf_cymodule__', None)
            if cm is not None:
                return cm.cfuncs.get(str(e.name))
        return None

    def builtin_c(self, n, nm, cn, args, self_obj):
        ct = ctype_safe(n.type)
        if nm in ('PyArray_SimpleNew', 'PyArray_ZEROS', 'PyArray_EMPTY'):
            nd = self.num(args[0])[0]
            shp = self.ev(args[1])
            shape = [shp.v[i] for i in range(nd)]
            dt = self.ev(args[2])
            if not isinstance(dt, np.dtype):
                raise Unsupported('numpy type number')
            for i, s in enumerate(shape):
                if isinstance(s, SymInt) and s.lo < 0 and bool(s < 0):
                    raise ValueError('negative dimensions are not allowed')
                if isinstance(s, SymInt):
                    shape[i] = big_dim(s)
                elif s < 0:
                    raise ValueError('negative dimensions are not allowed')
            return (symnp.np_zeros if nm == 'PyArray_ZEROS' else symnp.np_empty)(tuple(shape), dt), ('o',)
        if nm == 'PyArray_FillWithScalar':
            a = self.ev(args[0])
            v = self.ev_obj(args[1])
            a[...] = v
            return 0, INT
        if nm in ('PyArray_DIMS', 'PyArray_DIM', 'PyArray_SIZE'):
            a = self.ev(args[0])
            if nm == 'PyArray_DIM':
                return a.shape[self.num(args[1])[0]], SSIZE
            if nm == 'PyArray_SIZE':
                return a.size, SSIZE
        if nm in ('import_array', 'import_umath', '_import_array'):
            return 0, INT
        if cn in ('__Pyx_PyList_Append', '__Pyx_ListComp_Append', '__Pyx_PyObject_Append') or (nm == 'append' and self_obj is None and len(args) == 2):
            o = self.ev_obj(args[0])
            if o is None:
                raise AttributeError("'NoneType' object has no attribute 'append'")
            o.append(self.ev_obj(args[1]))
            return 0, INT
        if nm == 'append' and self_obj is not None:
            self_obj.append(self.ev_obj(args[-1]))
            return (None, ('o',)) if ct[0] == 'o' else (0, INT)
        if cn.startswith('PyObject_Length') or cn in ('__Pyx_MemoryView_Len',) or nm in ('len', 'PyList_GET_SIZE', 'PyBytes_GET_SIZE', 'PyTuple_GET_SIZE', 'PyDict_Size'):
            v = self.ev(args[0])
            if v is None:
                raise TypeError("object of type 'NoneType' has no len()")
            return len(v), SSIZE
        if nm in ('memcpy', 'malloc', 'free', 'realloc', 'memset'):
            raise Unsupported('C library call %s' % nm)
        if nm in ('isnan',):
            return symnp.f_isnan(self.ev(args[0])), INT
        if 'format' in (cn or '').lower() and 'Unicode' in (cn or ''):
            raise Unsupported(cn)
        raise Unsupported('C call %s (%s)' % (nm, cn))

    def e_ImportNode(self, n):
        return self.mod.loader._import(self.ev(n.module_name), None, None, (), 0), ('o',)

    def e_ComprehensionNode(self, n):
        raise Unsupported('comprehension in a Cython function')

    def e_DictItemNode(self, n):
        raise Unsupported('dict item')

    def e_MergedDictNode(self, n):
        out = {}
        for d in n.keyword_args:
            v = self.ev_obj(d)
            out.update(v)
        return out, ('o',)

    def e_AsTupleNode(self, n):
        return tuple(self.ev_obj(n.arg)), ('o',)

    def e_SizeofVarNode(self, n):
        ct = ctype(n.operand.type)
        return ct[1] // 8, ('i', 64, 0)

    def e_SizeofTypeNode(self, n):
        ct = ctype(n.arg_type)
        return ct[1] // 8, ('i', 64, 0)


def to_len(v):
    return v.a if isinstance(v, MV) else v


class Typed:
    """Element store into a buffer with numpy scalar elements."""

    def __init__(self, mv):
        self.mv = mv

    def __setitem__(self, ix, v):
        self.mv.a[ix] = conv(v, npdtype(self.mv.ct))


def plain_el(v, ct):
    return plain(v) if ct[0] == 'i' else v


def asint(v):
    if isinstance(v, SymBool):
        return v.as_int()
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    return v


MAX_DIM = [2000]


def big_dim(s):
    if s.hi > MAX_DIM[0]:
        if bool(s > MAX_DIM[0]):
            if bool(s >= 1 << 44):
                raise MemoryError('array is too big')
            raise Unsupported('array dimension beyond the bound')
    return eng().concretize(s)


def ctype_safe(t):
    if t is None:
        return ('o',)
    try:
        return ctype(t)
    except Unsupported:
        return ('x',)


def load(name, path, loader, pymod):
    m = Module(name, path, loader, pymod)
    pymod.__dict__['__vf_cymodule__'] = m
    return pymod
