"""C09: variable-length integers decode exactly."""
from vf.h import Case
from .common import stream_of

BOUNDS = ['all values of each of the nine encoded lengths; up to 3 bytes before and 2 after the integer',
          'strings: announced length 0 to 3 and 128 to 130']


def encoded(h, n):
    u = h.int(7 * n if n < 9 else 64)
    return u, h.varint_bytes(u, n)


def buffer_(h, n, k, after):
    m = h.load('eventio.var_int')
    u, enc = encoded(h, n)
    data = h.join([h.bytes(k), enc, h.bytes(after)])
    v, ln = m.unsigned_varint(data, offset=k)
    h.eq(v, u, 'unsigned value')
    h.eq(ln, n, 'unsigned length')
    v, ln = m.varint(data, offset=k)
    h.eq(v, h.zigzag(u), 'signed value')
    h.eq(ln, n, 'signed length')
    if k == 0:
        v, ln = m.unsigned_varint(data)
        h.eq(v, u, 'unsigned value at 0')
        v, ln = m.varint(data)
        h.eq(v, h.zigzag(u), 'signed value at 0')
    h.eq(m.parse_varint(enc), u, 'parse_varint')
    h.eq(m.get_length_of_varint(enc[0]), n, 'length from the first byte')


def length_byte(h):
    m = h.load('eventio.var_int')
    b = h.byte()
    want = 9
    for n, lim in ((8, 0xff), (7, 0xfe), (6, 0xfc), (5, 0xf8), (4, 0xf0), (3, 0xe0), (2, 0xc0), (1, 0x80)):
        want = h.ite(b < lim, n, want)
    h.eq(m.get_length_of_varint(b), want, 'length')


def stream(h, n, k):
    t = h.load('eventio.tools')
    u, enc = encoded(h, n)
    data = h.join([h.bytes(k), enc, h.bytes(2)])
    s = stream_of(h, data)
    s.seek(k)
    h.eq(t.read_unsigned_varint(s), u, 'unsigned value')
    h.eq(s.tell(), k + n, 'consumed')
    s.seek(k)
    h.eq(t.read_varint(s), h.zigzag(u), 'signed value')
    h.eq(s.tell(), k + n, 'consumed signed')


def agree(h, first):
    """Any bytes: both readers agree."""
    m, t = h.load('eventio.var_int'), h.load('eventio.tools')
    b = h.byte()
    lo, hi = first
    h.assume(h.And(b >= lo, b <= hi))
    data = h.join([h.le(b, 1), h.bytes(9)])
    v, ln = m.varint(data)
    u, lu = m.unsigned_varint(data)
    s = stream_of(h, data)
    h.eq(t.read_varint(s), v, 'signed values agree')
    h.eq(s.tell(), ln, 'length')
    s.seek(0)
    h.eq(t.read_unsigned_varint(s), u, 'unsigned values agree')
    h.eq(s.tell(), lu, 'length')
    h.eq(h.zigzag(u), v, 'zig-zag')


def sequence(h, ns):
    """Integers one after another from a stream and from a buffer."""
    m, t = h.load('eventio.var_int'), h.load('eventio.tools')
    w = h.writer()
    want = [w.varint(n) for n in ns]
    data = w.bytes()
    s = stream_of(h, data)
    pos = 0
    for i, u in enumerate(want):
        if i % 2:
            h.eq(t.read_varint(s), h.zigzag(u), 'stream %d' % i)
            v, ln = m.varint(data, pos)
            h.eq(v, h.zigzag(u), 'buffer %d' % i)
        else:
            h.eq(t.read_unsigned_varint(s), u, 'stream %d' % i)
            v, ln = m.unsigned_varint(data, pos)
            h.eq(v, u, 'buffer %d' % i)
        pos += ln
        h.eq(s.tell(), pos, 'position %d' % i)


def varstring(h, n):
    t = h.load('eventio.tools')
    w = h.writer()
    want = w.varstring(n)
    w.raw(h.bytes(2))
    s = stream_of(h, w.bytes())
    h.eq(t.read_var_string(s), want, 'string')
    h.eq(s.tell(), n + (1 if n < 128 else 2), 'consumed')


CLASSES = [(0, 0x7f), (0x80, 0xbf), (0xc0, 0xdf), (0xe0, 0xef), (0xf0, 0xf7), (0xf8, 0xfb), (0xfc, 0xfd), (0xfe, 0xfe), (0xff, 0xff)]


def cases(tier):
    out = [Case('length', length_byte)]
    for n in range(1, 10):
        for k in range(0, 4 if tier == 'quick' else 9):
            out.append(Case('buffer-%d-at%d' % (n, k), buffer_, dict(n=n, k=k, after=2 if k % 2 else 0)))
        for k in (0, 1) if tier == 'quick' else (0, 1, 2, 3, 7):
            out.append(Case('stream-%d-at%d' % (n, k), stream, dict(n=n, k=k)))
        out.append(Case('agree-%d' % n, agree, dict(first=CLASSES[n - 1])))
    for i, ns in enumerate([(1, 2, 3), (4, 5), (6, 7, 1), (8, 9), (9, 1, 8), (3, 3), (5, 1, 5)]):
        out.append(Case('sequence-%s' % '.'.join(map(str, ns)), sequence, dict(ns=ns)))
    for n in (0, 1, 3, 128, 130):
        out.append(Case('varstring-%d' % n, varstring, dict(n=n), witness=2))
    return out
