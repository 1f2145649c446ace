"""C36: the element types of what a block decodes to do not depend on its contents."""
from vf.h import Case
from . import blocks
from .c13 import SPEC
from .common import header

LAYOUT = ('version', 'compact', 'cv')
BOUNDS = ['the blocks and sizes of C12, C14 to C22 and C29: every size is compared with one other size of the same block, version and layout, all numbers free']
OUTSIDE = ['types of single numbers', 'byte order', 'larger arrays', 'sums with and without data reduction, which have types of their own']


def compare(h, spec_, one, two):
    """Two blocks of the same type and version next to each other decode to arrays of the same types."""
    ev = h.load('eventio')
    a, b = blocks.B(h, spec_, one), blocks.B(h, spec_, two)
    f = ev.EventIOFile(h.file(h.join([a.emit(), b.emit(), header(h, 9, 0, 1, 0)])))
    o = next(f)
    ta = h.types(o.parse(**a.kw))
    o = next(f)
    tb = h.types(o.parse(**b.kw))
    for k in sorted(set(ta) | set(tb)):
        t = ta.get(k, set()) | tb.get(k, set())
        h.check(len(t) == 1, '%s: elements of type %s' % (k or 'array', ' and '.join(sorted(t))))


def chunks(h, compact, kinds, size):
    """Photon bunches read in chunks have the types of those read at once and of any other object."""
    ev = h.load('eventio')
    a, b = [blocks.B(h, SPEC, dict(compact=compact, kinds=k)) for k in (kinds, 'pep')]
    f = ev.EventIOFile(h.file(h.join([a.emit(), b.emit()])))
    o, p = next(f), next(f)
    whole = h.types(p.parse())
    for i, chunk in enumerate(o.parse(chunksize=size)):
        for k, t in h.types(chunk).items():
            h.eq(t, whole[k], 'elements of chunk %d: %s' % (i, k))
        if i > 9:
            break


def packed(h, n, rows):
    """Packed integers of every kind, none or many."""
    m = h.load('eventio.var_int')
    for name, data in (('unsigned_varint_array', h.bytes(n)), ('varint_array', h.bytes(n))):
        for x in h.join([data]):
            h.assume(x < 128)
        a, _ = getattr(m, name)(data, n_elements=n)
        h.eq(h.types(a), h.types(getattr(m, name)(b'\x01\x02', n_elements=2)[0]), name)
    data = h.bytes(rows * n)
    for x in data:
        h.assume(x < 128)
    a, _ = m.unsigned_varint_arrays_differential(data, n_arrays=rows, n_elements=n)
    h.eq(h.types(a), h.types(m.unsigned_varint_arrays_differential(b'\x01\x02', n_arrays=1, n_elements=2)[0]), 'differential')


def groups():
    for prop in sorted(blocks.SPECS):
        for s in blocks.SPECS[prop]:
            g = {}
            for nm, v in s.cases():
                g.setdefault(tuple(v.get(k) for k in LAYOUT), []).append((nm, v))
            for vs in g.values():
                yield s, vs


def cases(tier):
    out = []
    for s, vs in groups():
        # neighbours in the table: equal types everywhere in the chain
        for (na, a), (nb, b) in zip(vs, vs[1:]):
            out.append(Case('%s+%s' % (na, nb[len(s.name):]), compare, dict(spec_=s, one=a, two=b), witness=1))
    for compact in (0, 1):
        for kinds in ('', 'p', 'e', 'pe', 'ppepe'):
            for size in (1, 2, 100):
                out.append(Case('chunks-%d-%s-%d' % (compact, kinds, size), chunks, dict(compact=compact, kinds=kinds, size=size), witness=1))
    for n in (0, 1, 3):
        for rows in (0, 1, 2):
            out.append(Case('packed-%d-%d' % (n, rows), packed, dict(n=n, rows=rows), witness=1))
    return out
