"""C10: packed integer arrays decode exactly."""
import itertools
from vf.h import Case, Arr

BOUNDS = ['listed arrays of 140 to 66000 elements, mostly constants', '0 to 4 elements (differential: 0 to 3 rows of 0 to 3), each encoded in 1 to 9 bytes (differential 1 to 5), all values',
          'start offset 0 to 3, up to 3 bytes after the data']
OUTSIDE = ['differential elements of 6 and more bytes (more than 35 bits), which the 32-bit format never stores']


def arrays(h, ns, k, after):
    m = h.load('eventio.var_int')
    w = h.writer()
    w.raw(h.bytes(k))
    us = [w.varint(n) for n in ns]
    w.raw(h.bytes(after))
    data = w.bytes()
    a, used = m.unsigned_varint_array(data, n_elements=len(ns), offset=k)
    h.eq(a, Arr(len(ns), us, 'u'), 'unsigned')
    h.eq(used, sum(ns), 'bytes used (unsigned)')
    a, used = m.varint_array(data, n_elements=len(ns), offset=k)
    h.eq(a, Arr(len(ns), [h.zigzag(u) for u in us], 'i'), 'signed')
    h.eq(used, sum(ns), 'bytes used (signed)')


def arrays_any(h, n, length):
    """Any bytes: the array decoders agree with decoding one after another."""
    m = h.load('eventio.var_int')
    data = h.bytes(length)
    pos = 0
    us, ss = [], []
    for _ in range(n):
        h.assume(pos < length)
        l = h.concrete(m.get_length_of_varint(data[pos]))
        h.assume(pos + l <= length)
        u, lu = m.unsigned_varint(data, pos)
        s, ls = m.varint(data, pos)
        us.append(u)
        ss.append(s)
        pos += l
    a, used = m.unsigned_varint_array(data, n)
    h.eq(a, Arr(n, us, 'u'), 'unsigned')
    h.eq(used, pos, 'bytes used')
    a, used = m.varint_array(data, n)
    h.eq(a, Arr(n, ss, 'i'), 'signed')
    h.eq(used, pos, 'bytes used')


def differential(h, rows, k, after):
    m = h.load('eventio.var_int')
    w = h.writer()
    w.raw(h.bytes(k))
    want = []
    total = 0
    for r in rows:
        acc = 0
        for n in r:
            acc = acc + h.zigzag(w.varint(n))
            total += n
            want.append(acc & 0xffffffff)
    w.raw(h.bytes(after))
    a, used = m.unsigned_varint_arrays_differential(w.bytes(), n_arrays=len(rows), n_elements=len(rows[0]) if rows else 0, offset=k)
    h.eq(a, Arr((len(rows), len(rows[0]) if rows else 0), want, 'u'), 'differential')
    h.eq(used, total, 'bytes used')


def large(h, n, sizes, k):
    from .large import Sparse
    arrays(Sparse(h), [sizes[i % len(sizes)] for i in range(n)], k, 0)


def huge(h, n, signed):
    from .large import Sparse
    m = h.load('eventio.var_int')
    w = Sparse(h, 8).writer()
    us = [w.varint(1) for _ in range(n)]
    a, used = (m.varint_array if signed else m.unsigned_varint_array)(w.bytes(), n_elements=n)
    h.eq(a, Arr(n, [h.zigzag(u) for u in us], 'i') if signed else Arr(n, us, 'u'), 'array')
    h.eq(used, n, 'bytes used')


def large_differential(h, rows, n, sizes):
    from .large import Sparse
    differential(Sparse(h, 1), [[sizes[i % len(sizes)] for i in range(n)]] * rows, 0, 1)


def cases(tier):
    out = []
    one = [(n,) for n in range(1, 10)]
    two = list(itertools.product(range(1, 10), repeat=2))
    if tier == 'quick':
        two = [p for p in two if (p[0] * 3 + p[1]) % 4 == 0 or 9 in p or 8 in p]
    many = [(), (1, 1, 1), (1, 9, 1), (2, 3, 4), (5, 6, 7), (9, 8, 9), (3, 1, 2, 1), (1, 1, 1, 1)]
    if tier != 'quick':
        many += list(itertools.product((1, 2, 5, 8, 9), repeat=3))
    for i, ns in enumerate(one + two + many):
        for k in ([0, 3] if len(ns) == 1 else [i % 4]):
            out.append(Case('array-%s-at%d' % ('.'.join(map(str, ns)), k), arrays, dict(ns=ns, k=k, after=i % 3), witness=2))
    out += [Case('any-%d-%d' % (n, l), arrays_any, dict(n=n, length=l), witness=4) for n, l in ((1, 9), (2, 12), (3, 5))]
    d1 = [((n,),) for n in range(1, 6)]
    d2 = [(p,) for p in itertools.product(range(1, 6), repeat=2)]
    dr = [(), ((),), ((), ()), ((1,), (1,)), ((5,), (5,)), ((1, 2), (3, 1)), ((4, 5), (1, 1)), ((2, 2, 1),), ((1, 1), (1, 1), (1, 1)),
          ((3, 4), (5, 2)), ((1, 1, 1), (2, 2, 2))]
    if tier != 'quick':
        dr += [(a, b) for a in itertools.product((1, 3, 5), repeat=2) for b in itertools.product((1, 2, 4), repeat=2)]
        dr += [(p,) for p in itertools.product((1, 2, 3, 4, 5), repeat=3)]
    for i, rows in enumerate(d1 + d2 + dr):
        nm = '_'.join('.'.join(map(str, r)) for r in rows)
        out.append(Case('diff-%d-%s-at%d' % (len(rows), nm, i % 4), differential, dict(rows=rows, k=i % 4, after=i % 3), witness=2))
    out += [Case('large-%d' % n, large, dict(n=n, sizes=s, k=k), witness=1, seconds=200) for n, s, k in ((300, (1, 2, 9, 3), 300), (140, (4, 5, 6, 7, 8), 0))]
    out += [Case('huge-%d' % s, huge, dict(n=66000, signed=s), witness=1, seconds=300) for s in (0, 1)]
    out += [Case('large-differential-%dx%d' % (a, n), large_differential, dict(rows=a, n=n, sizes=s), witness=1, seconds=200) for a, n, s in ((2, 260, (1, 2)), (300, 2, (2, 1)))]
    return out
