"""C39: damaged files end in an error, never in made-up objects or without end.

The bytes behind the first sync marker (or of the payload of a container) are
free.  A small reference walks over the same bytes."""
from vf.h import Case
from .common import SYNC, header

BOUNDS = ['files of 4 to 44 bytes and containers of 0 to 40 bytes, every byte free apart from the first sync marker and the type of the objects (5 types, one of them unknown, or any of two bits); '
          'every object and every error is asked for twice']
OUTSIDE = ['other types', 'more than 3 objects', 'payloads that are decoded (C11)']

TYPES = (7, 2010, 1212, 2009)
ERRORS = (EOFError, ValueError, NotImplementedError)


def walk(h, data, pos, end, top):
    """What stands at pos: None at the end, an error, or the object as (address, size, next position, fields)."""
    if top and pos >= end or not top and pos >= end:
        return None
    n = len(data)
    p = pos
    if top:
        if p + 4 > n:
            return 'error'
        if h.Not(h.And(*[data[p + i] == SYNC[i] for i in range(4)])):
            return 'error'
        p += 4
    if p + 12 > n:
        return 'error'

    def word(q):
        return data[q] + data[q + 1] * 256 + data[q + 2] * 65536 + data[q + 3] * 16777216
    w, ident, lw = word(p), word(p + 4), word(p + 8)
    p += 12
    size = lw & 0x3fffffff
    if w & (1 << 17):
        if p + 4 > n:
            return 'error'
        size = size + ((word(p) & 0xfff) << 30)
        p += 4
    return dict(type=w & 0xffff, version=(w >> 20) & 0xfff, id=h.signed32(ident), sub=(lw & (1 << 30)) != 0, address=p, size=size, next=p + size)


def follow(h, it, data, pos, end, top, types, steps):
    """Iterates over it and compares with the walk."""
    for i in range(steps):
        want = walk(h, data, pos, end, top)
        if isinstance(want, dict):
            h.assume(h.Or(*[want['type'] == t for t in types]))
        for again in range(2 if not isinstance(want, dict) else 1):
            o, e = None, None
            try:
                o = next(it)
            except StopIteration:
                e = 'end'
            except ERRORS as x:
                e = 'error'
            if want is None:
                h.eq(e, 'end', 'object %d: the end' % i)
            elif want == 'error':
                h.eq(e, 'error', 'object %d: an error' % i)
            else:
                h.check(o is not None, 'object %d: %s' % (i, e))
                h.eq(o.header.type, want['type'], 'type')
                h.eq(o.header.version, want['version'], 'version')
                h.eq(o.header.id, want['id'], 'id')
                h.eq(o.header.only_subobjects, want['sub'], 'only sub-objects')
                h.eq(o.address, want['address'], 'address')
                h.eq(o.size, want['size'], 'size')
        if not isinstance(want, dict):
            return
        # behind the end is behind the end
        pos = h.concrete(h.ite(want['next'] < end, want['next'], end))


def toplevel(h, length, types):
    ev = h.load('eventio')
    data = h.join([SYNC, h.bytes(length - 4)])
    f = ev.EventIOFile(h.file(data))
    follow(h, f, data, 0, length, True, types, 3)


def second(h, length, gap, types):
    """Free bytes behind a complete object."""
    ev = h.load('eventio')
    first = h.join([header(h, 7, 0, 1, gap), h.bytes(gap)])
    data = h.join([first, h.bytes(length)])
    f = ev.EventIOFile(h.file(data))
    next(f)
    follow(h, f, data, len(first), len(data), True, types, 2)


def inside(h, length, behind, types):
    """A container whose payload is free, in front of something else."""
    ev = h.load('eventio')
    head = header(h, 2010, 0, 5, length, sub=True)
    data = h.join([head, h.bytes(length), header(h, 7, 0, 1, 0) if behind else b''])
    f = ev.EventIOFile(h.file(data))
    o = next(f)
    inner = data[:len(head) + length]
    follow(h, o, inner, len(head), len(head) + length, False, types, 3)


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for n in (4, 5, 10, 15, 16, 17, 19, 20, 24, 33, 36) + ((40, 44, 52) if deep else ()):
        out.append(Case('file-%d' % n, toplevel, dict(length=n, types=TYPES[:1] if n > 24 else TYPES), witness=3, seconds=200))
    for n in (1, 3, 4, 8, 16, 18, 20, 34):
        out.append(Case('second-%d' % n, second, dict(length=n, gap=n % 3, types=TYPES[:2]), witness=3, seconds=200))
    for n in (1, 4, 11, 12, 13, 16, 20, 25, 28, 36):
        out.append(Case('inside-%d' % n, inside, dict(length=n, behind=True, types=TYPES if n < 20 else TYPES[:1]), witness=3, seconds=200))
    return out
