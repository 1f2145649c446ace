"""C08: files are recognised by their leading bytes only."""
from vf.h import Case
from .common import SYNC, SYNC_BE, header, stream_of
from .tree import Node, build, check_obj, next_or

BOUNDS = ['files of 0 to 20 arbitrary bytes, stored plain, gzip or zstd compressed (1 to 3 frames)', 'every four-byte marker at the first, second and third object boundary']
OUTSIDE = ['data that carries the gzip or zstd magic but is not valid gzip or zstd data']


def is_marker(h, b):
    return h.Or(h.cond(b[:4], SYNC), h.cond(b[:4], SYNC_BE)) if len(b) >= 4 else False


def recognise(h, n, kind, cuts=()):
    ft = h.load('eventio.file_types')
    ev = h.load('eventio')
    b = h.bytes(n)
    if kind == 'plain':
        # real compressed data is generated below
        if n >= 2:
            h.assume(h.Not(h.cond(b[:2], b'\x1f\x8b')))
        if n >= 4:
            h.assume(h.Not(h.cond(b[:4], b'\x28\xb5\x2f\xfd')))
    path = h.file(b, kind, cuts=cuts)
    ok = is_marker(h, b)
    h.eq(ft.is_eventio(path), ok, 'is_eventio')
    h.eq(ft.is_gzip(path), kind == 'gzip', 'is_gzip')
    h.eq(ft.is_zstd(path), kind == 'zstd', 'is_zstd')
    for zcat in (True, False):
        f, e = h.attempt(ev.EventIOFile, path, zcat=zcat)
        if ok:
            h.check(e is None, 'an eventio file is refused: %r' % (e,))
            f.close()
        else:
            h.check(isinstance(e, ValueError), 'anything else must be refused with ValueError, got %r' % (e,))


def magic(h, n):
    """is_gzip and is_zstd on any leading bytes."""
    ft = h.load('eventio.file_types')
    b = h.bytes(n)
    path = h.rawfile(b)
    h.eq(ft.is_gzip(path), h.cond(b[:2], b'\x1f\x8b') if n >= 2 else False, 'is_gzip')
    h.eq(ft.is_zstd(path), h.cond(b[:4], b'\x28\xb5\x2f\xfd') if n >= 4 else False, 'is_zstd')


def boundary(h, k, kind='plain', zcat=True):
    """The marker before object k is arbitrary."""
    nodes = [Node(h, 9, h.bytes(2)), Node(h, 11, [Node(h, 9, h.bytes(1))]), Node(h, 9, b'')]
    data = build(h, nodes)
    m = h.bytes(4)
    pos = nodes[k].start
    data = h.join([data[:pos], m, data[pos + 4:]])
    if k == 0:
        h.assume(h.Or(h.cond(m, SYNC), h.cond(m, SYNC_BE)))
    f = h.load('eventio').EventIOFile(h.file(data, kind), zcat=zcat)
    for i, n in enumerate(nodes):
        o, how = next_or(h, f)
        if i == k:
            if h.cond(m, SYNC):
                h.check(o is not None, 'object missing: %r' % (how,))
            elif h.cond(m, SYNC_BE):
                h.check(isinstance(how, NotImplementedError), 'big endian data must raise NotImplementedError, got %r %r' % (o, how))
                return
            else:
                h.check(isinstance(how, ValueError) and o is None, 'a wrong marker must raise ValueError, got %r %r' % (o, how))
                return
        h.check(o is not None, 'object %d missing: %r' % (i, how))
        check_obj(h, o, n)


def marker(h):
    base = h.load('eventio.base')
    m = h.bytes(4)
    for f in (lambda: base.check_sync_bytes(m), lambda: base.read_sync_marker(stream_of(h, m))):
        e = h.raises(f)
        if h.cond(m, SYNC):
            h.check(e is None, 'the little-endian marker is refused: %r' % (e,))
        elif h.cond(m, SYNC_BE):
            h.check(isinstance(e, NotImplementedError), 'big endian: %r' % (e,))
        else:
            h.check(isinstance(e, ValueError), 'wrong marker: %r' % (e,))
    h.eq(base.check_sync_bytes(SYNC), '<', 'byte order')


def cases(tier):
    out = [Case('marker', marker)]
    for n in (0, 1, 2, 3, 4, 5, 8, 12, 16, 20):
        for kind in ('plain', 'gzip', 'zstd'):
            out.append(Case('recognise-%s-%d' % (kind, n), recognise, dict(n=n, kind=kind), witness=3))
    for kind in ('gzip', 'zstd'):
        for cuts in ((1,), (2,), (3,), (4,), (1, 2), (0, 4), (0,), (2, 3)):
            out.append(Case('frames-%s-%s' % (kind, '.'.join(map(str, cuts))), recognise, dict(n=6, kind=kind, cuts=cuts), witness=3))
    out += [Case('magic-%d' % n, magic, dict(n=n)) for n in range(0, 7)]
    for k in range(3):
        for kind, z in (('plain', True), ('gzip', True), ('gzip', False), ('zstd', True)):
            out.append(Case('boundary-%d-%s%d' % (k, kind, z), boundary, dict(k=k, kind=kind, zcat=z)))
    return out
