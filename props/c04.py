"""C04: a truncated file is reported, never mistaken for data."""
from vf.h import Case
from .tree import build, check_obj, data_of, next_or
from .c03 import make
from .common import stream_of

BOUNDS = ['every cut position of the listed files (1 to 4 top-level objects, depth to 3), all header fields and payload bytes',
          'plain files, gzip through a pipe, the gzip module and zstd']
OUTSIDE = ['compressed data that is itself cut (the decompressed data is cut instead)',
           'classes that read leading payload fields on construction are covered by C11']


def truncated(how, kind, zcat):
    """EOFError; once the transport has moved on, a forward-only one may refuse to go back."""
    return isinstance(how, EOFError) or ((kind == 'zstd' or (kind == 'gzip' and zcat)) and isinstance(how, OSError))


def cut_file(h, s, kind, zcat, peek, part, parts):
    nodes = make(h, s)
    data = build(h, nodes)
    total = len(data)
    lo, hi = total * part // parts, total * (part + 1) // parts - (0 if part == parts - 1 else 1)
    c = h.range(lo, hi)
    path = h.file(data[:c], kind)
    ev = h.load('eventio')
    f, e = h.attempt(ev.EventIOFile, path, zcat=zcat)
    if c < 4:
        h.check(isinstance(e, ValueError), 'a file of %d bytes must be refused' % c)
        return
    h.check(e is None, 'opening failed: %r' % (e,))
    for i, n in enumerate(nodes):
        if c <= n.start:
            break
        if peek:
            nw = len(h.warnings)
            p, pe = h.attempt(f.peek)
            h.check(pe is None, 'peek raised %r' % (pe,))
            new = h.warnings[nw:]
        o, how = next_or(h, f)
        if c < n.address:
            if peek:
                h.check(p is None, 'peek returned an object')
                h.check(len(new) == 1, 'peek must warn once about the truncation, got %d' % len(new))
            h.check(isinstance(how, EOFError) or (peek and truncated(how, kind, zcat)), 'a cut header must raise EOFError, got %r %r' % (o, how))
            for _ in range(2):
                o, how = next_or(h, f)
                h.check(truncated(how, kind, zcat), 'a cut header must raise EOFError again, got %r %r' % (o, how))
            return
        h.check(o is not None, 'object %d missing (%s)' % (i, how))
        if peek:
            h.check(p is o, 'peek returned another object')
            h.check(len(new) == 0, 'needless warning')
        check_obj(h, o, n, 'object %d' % i)
        inside(h, o, n, c, data, 'object %d' % i, lambda x: truncated(x, kind, zcat))
    else:
        pass
    if peek:
        nw = len(h.warnings)
        h.check(f.peek() is None, 'peek at the end returned an object')
        h.check(len(h.warnings) == nw, 'needless warning at the end')
    o, how = next_or(h, f)
    h.check(how == 'stop', 'iteration must end, got %r %r' % (o, how))


def inside(h, o, n, c, data, m, again):
    if n.subs is None:
        # everything up to the cut can be read, but not more
        left = min(c, n.end) - n.address
        k = h.pick(sorted({0, 1, left // 2, left} & set(range(left + 1))))
        h.eq(o.read(k), data[n.address:n.address + k], m + ' payload')
        if c >= n.end:
            h.eq(o.read(), data[n.address + k:n.end], m + ' rest of the payload')
            h.eq(o.read(), b'', m + ' beyond the payload')
            return
        d, e = h.attempt(o.read) if h.bool() else h.attempt(o.read, left - k + 1)
        h.check(isinstance(e, EOFError), '%s: reading a cut payload must raise EOFError, got %r %r' % (m, d, e))
        d, e = h.attempt(o.read)
        h.check(again(e), '%s: reading a cut payload must raise EOFError again, got %r %r' % (m, d, e))
        return
    for i, s in enumerate(n.subs):
        q, how = next_or(h, o)
        mm = '%s.%d' % (m, i)
        if c < s.address:
            h.check(isinstance(how, EOFError), '%s: a cut header must raise EOFError, got %r %r' % (mm, q, how))
            q, how = next_or(h, o)
            h.check(again(how), '%s: a cut header must raise EOFError again, got %r %r' % (mm, q, how))
            return
        h.check(q is not None, '%s missing (%s)' % (mm, how))
        check_obj(h, q, s, mm)
        inside(h, q, s, c, data, mm, again)
    q, how = next_or(h, o)
    h.check(how == 'stop', '%s must end, got %r %r' % (m, q, how))


def primitives(h, n):
    """The header readers on too little data."""
    base = h.load('eventio.base')
    b = h.bytes(n)
    sync = n >= 4
    if n < 4:
        e = h.raises(base.read_sync_marker, stream_of(h, b))
        h.check(isinstance(e, EOFError) if n else isinstance(e, StopIteration), 'sync marker of %d bytes: %r' % (n, e))
    if n < 12:
        for top in (False, True):
            e = h.raises(base.read_header, stream_of(h, b), 0, top)
            h.check(isinstance(e, EOFError), 'header of %d bytes: %r' % (n, e))


TREES = ['3', '0', '2 1', '()', '(1)', '(2 1) 1', '((1) 0) 2', '3x 1', 'X (1 2x) 0', 'A (T (1 2) 1) 1']


def cases(tier):
    out = [Case('primitives-%d' % n, primitives, dict(n=n), witness=1) for n in range(12)]
    for s in TREES:
        for k, (kind, z) in enumerate([('plain', True), ('gzip', True), ('gzip', False), ('zstd', True)]):
            for peek in (False, True):
                if tier == 'quick' and peek and kind != 'plain' and s not in ('2 1', '(2 1) 1'):
                    continue
                parts = 1 if len(s) < 7 else 2
                for p in range(parts):
                    out.append(Case('cut-%s-%s%d%s-%d' % (s.replace(' ', '_'), kind, z, '-peek' if peek else '', p), cut_file,
                                    dict(s=s, kind=kind, zcat=z, peek=peek, part=p, parts=parts), seconds=120, witness=2))
    return out
