"""C01: object headers are decoded bit-exactly."""
from vf.h import Case
from .common import SYNC, stream_of

BOUNDS = ['all 2^32 values of every header word; 0 to 20 header bytes']


def fields(h, hd, word, idv, lw, ext, top, msg):
    u = lambda x: x
    h.eq(hd.type, word & 0xffff, msg + 'type')
    h.eq(hd.version, (word >> 20) & 0xfff, msg + 'version')
    h.eq(hd.user, h.Not((word & (1 << 16)) == 0), msg + 'user')
    h.eq(hd.extended, h.Not((word & (1 << 17)) == 0), msg + 'extended')
    h.eq(hd.only_subobjects, h.Not((lw & (1 << 30)) == 0), msg + 'only_subobjects')
    h.eq(hd.id, idv, msg + 'id')
    n = lw & ((1 << 30) - 1)
    size = 12 + (4 if top else 0)
    if ext is not None:
        n = n + ((ext & 0xfff) << 30)
        size += 4
    h.eq(hd.content_size, n, msg + 'content_size')
    h.eq(hd.header_size, size, msg + 'header_size')
    h.eq(hd.total_size, n + size, msg + 'total_size')


def raw(h, top):
    """parse_header_bytes on any 12 bytes (the extension is added by the reader)."""
    m = h.load('eventio.header')
    word, idv, lw = h.int(32), h.int(32, True), h.int(32)
    data = h.join([h.le(word, 4), h.le(idv, 4), h.le(lw, 4)])
    hd = m.parse_header_bytes(data, toplevel=top)
    extended = h.Not((word & (1 << 17)) == 0)
    h.eq(hd.type, word & 0xffff, 'type')
    h.eq(hd.version, (word >> 20) & 0xfff, 'version')
    h.eq(hd.user, h.Not((word & (1 << 16)) == 0), 'user')
    h.eq(hd.extended, extended, 'extended')
    h.eq(hd.only_subobjects, h.Not((lw & (1 << 30)) == 0), 'only_subobjects')
    h.eq(hd.id, idv, 'id')
    h.eq(hd.content_size, lw & ((1 << 30) - 1), 'content_size')
    h.eq(hd.header_size, (16 if top else 12) + h.ite(extended, 4, 0), 'header_size')


def wrong_length(h, n):
    m = h.load('eventio.header')
    e = h.raises(m.parse_header_bytes, h.bytes(n), toplevel=h.pick([False, True]))
    h.check(isinstance(e, EOFError), 'a header of %d bytes must raise EOFError, got %r' % (n, e))


def stream(h, top):
    """read_header at any offset of a stream."""
    base = h.load('eventio.base')
    word, idv, lw = h.int(32), h.int(32, True), h.int(32)
    extv = h.int(32)
    offset = h.int(40)
    ext = None
    if h.concrete(h.Not((word & (1 << 17)) == 0)):
        ext = extv
    data = h.join([h.le(word, 4), h.le(idv, 4), h.le(lw, 4), h.le(extv, 4), b'rest'])
    hd = base.read_header(stream_of(h, data), offset=offset, toplevel=top)
    fields(h, hd, word, idv, lw, ext, top, '')
    h.eq(hd.content_address, offset + hd.header_size, 'content_address')


def infile(h):
    """Header fields of the first object of a file, and its address."""
    ev = h.load('eventio')
    word, idv, lw = h.int(32), h.int(32, True), h.int(32)
    extv = h.int(32)
    ext = extv if h.concrete(h.Not((word & (1 << 17)) == 0)) else None
    h.assume((word & 0xffff) == 7)           # not a registered type: any word is a plain object
    data = h.join([SYNC, h.le(word, 4), h.le(idv, 4), h.le(lw, 4)] + ([h.le(extv, 4)] if ext is not None else []) + [b'xyz'])
    f = ev.EventIOFile(h.file(data))
    o = next(f)
    fields(h, o.header, word, idv, lw, ext, True, '')
    h.eq(o.address, 16 if ext is None else 20, 'address')
    h.eq(o.header.content_address, 16 if ext is None else 20, 'content_address')
    n = lw & ((1 << 30) - 1)
    if ext is not None:
        n = n + ((ext & 0xfff) << 30)
    h.eq(o.size, n, 'size')


def truncated_extension(h, n):
    base = h.load('eventio.base')
    word, idv, lw = h.int(32), h.int(32, True), h.int(32)
    h.assume(h.Not((word & (1 << 17)) == 0))
    data = h.join([h.le(word, 4), h.le(idv, 4), h.le(lw, 4), h.bytes(n)])
    e = h.raises(base.read_header, stream_of(h, data), offset=0, toplevel=False)
    h.check(isinstance(e, EOFError), 'an extension of %d bytes must raise EOFError, got %r' % (n, e))


def cases(tier):
    out = [Case('raw-top%d' % t, raw, dict(top=t)) for t in (False, True)]
    out += [Case('stream-top%d' % t, stream, dict(top=t)) for t in (False, True)]
    out += [Case('len%d' % n, wrong_length, dict(n=n), witness=1) for n in list(range(0, 12)) + [13, 16, 20]]
    out += [Case('infile', infile)]
    out += [Case('ext%d' % n, truncated_extension, dict(n=n), witness=1) for n in range(0, 4)]
    return out
