"""C13: chunked reading of photon bunches.

The chunks are compared with the bunches as written (blocks.py), for every chunk
size up to two more than the number of bunches, some far larger ones, and with other uses of the object and the file between the chunks."""
from .blocks import B, Spec, bunches, photon_tables
from .common import header
from vf.h import Case

BOUNDS = ['up to 6 bunches (quick), 9 (thorough), every chunk size up to two more than the bunches and 100, 65536, 2^31, 10^12, every field value',
          'one other use of the object or file before each chunk: none, parse, partial read, seek, second chunked reading, next object']
OUTSIDE = ['chunk sizes below 1', 'objects 999/999 (observation level particles ignore the chunk size)']


def photons(h, w, b, compact, kinds):
    b.id = h.int(31)
    h.assume(b.id != 999999)
    b.rows = bunches(h, w, b, compact, kinds)
    return photon_tables(b.rows)


SPEC = Spec('C13', 'photons', 1205, photons, [])


def use(h, o, f, other, what, n):
    if what == 'parse':
        o.parse()
    elif what == 'read':
        o.seek(0)
        o.read(7)
    elif what == 'end':
        o.seek(0, 2)
    elif what == 'second':
        for _ in o.parse(chunksize=2):
            break
    elif what == 'next':
        other.parse()


def check(h, compact, kinds, size, what, when):
    n = len(kinds)
    b = B(h, SPEC, dict(compact=compact, kinds=kinds))
    ev = h.load('eventio')
    b2 = B(h, SPEC, dict(compact=compact, kinds='p'))
    f = ev.EventIOFile(h.file(h.join([header(h, 7, 0, 5, 3), h.bytes(3), b.emit(), b2.emit()])))
    next(f)
    o = next(f)
    other = next(f) if what == 'next' else None
    gen = o.parse(chunksize=size)
    if when != 'between':
        use(h, o, f, other, what, n)
    got = []
    for chunk in gen:
        got.append(chunk)
        if when != 'before':
            use(h, o, f, other, what, n)
        if len(got) > n + 2:
            break
    want = [b.rows[i:i + size] for i in range(0, n, size)] if n else [[]]
    h.eq(len(got), len(want), 'number of chunks')
    for i, (g, rows) in enumerate(zip(got, want)):
        if n == 0 and compact:
            h.eq(len(g[0]), 0, 'chunk')
            h.eq(g[1], None, 'emitter of an empty chunk')
            continue
        h.eq(g, photon_tables(rows), 'chunk %d' % i)


def large(h, compact, kinds, size):
    from .large import Sparse
    check(Sparse(h), compact, kinds, size, 'read', 'between')


def cases(tier):
    out = []
    for compact in (0, 1):
        for kinds in ('', 'p', '??', 'pep', 'e?pe', 'peepp', 'ppp?ee') + (('epppep?', 'ppeeppee', 'pppeeeppp') if tier == 'thorough' else ()):
            for size in list(range(1, len(kinds) + 3)) + [100, 65536, 2 ** 31, 10 ** 12]:
                out.append(Case('chunks-%d-%s-%s' % (compact, kinds, size), check, dict(compact=compact, kinds=kinds, size=size, what=None, when='before'), witness=2))
        for what in ('parse', 'read', 'end', 'second', 'next'):
            for when in ('before', 'between', 'both'):
                for kinds, size in (('pepe', 2), ('ppep', 3), ('epp', 1), ('pep', 3), ('ep', 7)):
                    out.append(Case('use-%s-%s-%d-%s-%d' % (what, when, compact, kinds, size), check,
                                    dict(compact=compact, kinds=kinds, size=size, what=what, when=when), witness=2))
        for n, size in ((300, 300), (300, 257), (601, 256)):
            out.append(Case('large-%d-%d-%d' % (compact, n, size), large, dict(compact=compact, kinds='p' * n, size=size), witness=1, seconds=200))
    return out
