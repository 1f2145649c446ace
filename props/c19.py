"""C19, see blocks.py for the format."""
from .large import BOUNDS as LARGE_BOUNDS
from .blocks import standard_cases
from .common import Case, header

BOUNDS = ['the listed versions and sizes, every value of every field and element', 'every combination of the mode bits of an object id', LARGE_BOUNDS]
OUTSIDE = ['larger arrays']


def refuse(h, type_, n, g, m):
    """A reduction mode nobody can decode: no data, whatever the payload."""
    ident = h.int(32, True)
    zero, red, known = ident & 0x1f, ident >> 5 & 0x1f, ident >> 10 & 1
    if type_ == 2012:
        h.assume(h.Or(red != 0, zero > 2))
    else:
        h.assume(h.Or(red != 0, known != 0))
    w = h.writer()
    w.i32(n)
    w.i16(g)
    if type_ == 2013:
        w.i16(m)
    for _ in range(g * n * m + 8):
        w.raw(b'\0')
    p = w.bytes()
    ev = h.load('eventio')
    f = ev.EventIOFile(h.file(h.join([header(h, type_, 3, ident, len(p)), p])))
    o = next(f)
    try:
        o.parse()
    except NotImplementedError:
        return
    except Exception as e:
        h.fail('%s instead of NotImplementedError' % type(e).__name__)
    h.fail('data is returned for an unsupported reduction mode')


def cases(tier):
    out = standard_cases('C19', tier)
    for t in (2012, 2013):
        for n, g, m in ((1, 1, 1), (3, 2, 1 if t == 2012 else 2), (0, 1, 1)):
            out.append(Case('refuse-%d-%d-%d-%d' % (t, n, g, m), refuse, dict(type_=t, n=n, g=g, m=m), witness=3))
    return out
