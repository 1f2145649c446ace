"""C11: data that is shorter than it declares is refused, and nothing outside is read."""
from . import blocks
from .common import Case, header, stream_of
from .spec import REGISTERED

BOUNDS = ['every data block of C14 to C22, every listed version and size, payload cut after every number of bytes (long blocks: a selection of cuts), '
          'once with a header that announces the shorter payload and once with a file that ends there; every value of every field',
          'primitive readers: every input shorter than needed, every content']
OUTSIDE = ['negative counts and lengths in the data']


def cuts(n, tier):
    if n <= (60 if tier == 'quick' else 400):
        return list(range(n))
    step = 29 if tier == 'quick' else 5
    return sorted(set(list(range(12)) + list(range(12, n, step)) + list(range(n - 9, n))))


def block(h, spec_, variant, mode, tier):
    b = blocks.B(h, spec_, variant)
    n = len(b.payload)
    if n == 0:
        return
    k = h.pick(cuts(n, tier))
    p = b.payload[:k]
    ev = h.load('eventio')
    if mode == 'short':
        data = h.join([header(h, b.type, b.version, b.id, k), p, header(h, 5, 0, 1, 12), h.bytes(12)])
    else:
        data = h.join([header(h, b.type, b.version, b.id, n), p])
    f = ev.EventIOFile(h.file(data))
    refused(h, lambda: next(f).parse(**b.kw), '%d of %d bytes' % (k, n))


def refused(h, fn, what):
    try:
        r = fn()
    except (AttributeError, NameError) if h.sym else () as e:
        h.fail('%s: %s' % (what, e))
    except Exception:
        r = None
    else:
        h.fail('%s: no exception' % what)
    h.check(not h.oob, '%s: memory outside the data is read' % what)


def prim(h, name, n, args, module='eventio.tools'):
    """n: bytes needed."""
    k = h.pick(range(n))
    s = stream_of(h, h.bytes(k))
    m = h.load(module)
    refused(h, lambda: getattr(m, name)(s, *args), '%s of %d bytes with %d' % (name, n, k))


def text(h, var, n):
    """A string of declared length n."""
    w = h.writer()
    if var:
        w.varstring(n)
    else:
        w.string(n)
    d = w.bytes()
    k = h.pick(range(len(d)))
    t = h.load('eventio.tools')
    refused(h, lambda: (t.read_var_string if var else t.read_string)(stream_of(h, d[:k])), 'string of %d with %d bytes' % (n, k))


def varint(h, n, name, buf):
    w = h.writer()
    w.varint(n)
    d = w.bytes()
    k = h.pick(range(n))
    d = d[:k]
    if buf:
        m = h.load('eventio.var_int')
        if name == 'array':
            pre = h.writer()
            pre.varint(2)
            d = h.join([pre.bytes(), d])
            fn = h.pick(['unsigned_varint_array', 'varint_array'])
            refused(h, lambda: getattr(m, fn)(d, 2, 0), fn)
        elif name == 'diff':
            pre = h.writer()
            pre.varint(2)
            d = h.join([pre.bytes(), d])
            rows = h.pick([1, 2])
            refused(h, lambda: m.unsigned_varint_arrays_differential(d, rows, 2 // rows, 0), 'differential')
        elif name == 'parse':
            refused(h, lambda: m.parse_varint(d), 'parse_varint')
        else:
            off = h.pick([0, 2])
            d = h.join([h.bytes(off), d])
            refused(h, lambda: getattr(m, name)(d, off), name)
    else:
        t = h.load('eventio.tools')
        refused(h, lambda: getattr(t, name)(stream_of(h, d)), name)


def cases(tier):
    out = []
    for prop in sorted(blocks.SPECS):
        for s in blocks.SPECS[prop]:
            for i, (nm, v) in enumerate(s.cases()):
                modes = ['short', 'cut'] if tier == 'thorough' else (['short'] if i % 3 else ['cut', 'short'])
                for mode in modes:
                    out.append(Case('%s-%s' % (mode, nm), block, dict(spec_=s, variant=v, mode=mode, tier=tier), witness=3))
    for name, n in (('read_short', 2), ('read_unsigned_short', 2), ('read_int', 4), ('read_unsigned_int', 4), ('read_float', 4), ('read_double', 8), ('read_time', 8)):
        out.append(Case(name, prim, dict(name=name, n=n, args=())))
    out.append(Case('read_n_ints', prim, dict(name='read_ints', n=12, args=(3,))))
    out.append(Case('read_eventio_array', prim, dict(name='read_array', n=8, args=('<i2', 4))))
    for n in (1, 2, 5):
        for var in (False, True):
            out.append(Case('string-%s-%d' % (var, n), text, dict(var=var, n=n)))
    out.append(Case('string-var-200', text, dict(var=True, n=200)))
    for n in range(1, 10):
        for name in ('read_varint', 'read_unsigned_varint'):
            out.append(Case('%s-%d' % (name, n), varint, dict(n=n, name=name, buf=False)))
        for name in ('unsigned_varint', 'varint', 'parse', 'array', 'diff'):
            if name != 'diff' or n <= 5:
                out.append(Case('%s-%d' % (name, n), varint, dict(n=n, name=name, buf=True)))
    return out
