"""C05: reading an object never leaves its payload."""
import itertools
from vf.h import Case
from . import big as bigfile
from .tree import Node, build, next_or
from .c03 import make

BOUNDS = [bigfile.BOUNDS, 'payloads of 0 to 6 bytes between other objects; sequences of up to 4 calls of read, seek and tell with any arguments (16-bit offsets and sizes)',
          'two objects, a container and its child, and the file used in turn']
ASSUMES = ['seek with whence=2 counts its offset backwards from the end and stops at the start, as documented by its use']


class Model:
    """A read-only stream over the payload."""

    def __init__(self, h, n):
        self.h, self.n, self.p = h, n, 0

    def read(self, k):
        h = self.h
        size = len(self.n)
        left = size - self.p if not (self.p >= size) else 0
        if k is None or k < 0:
            k = left
        return left, k


def one_op(h, o, payload, pos, op, tag, limit=None):
    """Performs one operation and checks it; returns the new position."""
    size = len(payload)
    if op == 'tell':
        h.eq(o.tell(), pos, tag + ' tell')
        return pos
    if op in ('read', 'readall', 'readnone'):
        if op == 'read':
            k = h.int(16, True)
            got = o.read(k)
        else:
            k = -1
            got = o.read() if op == 'readall' else o.read(None)
        got_len = len(got)
        if pos >= size:
            h.eq(got_len, 0, tag + ' read at or past the end returns nothing')
            h.eq(o.tell(), pos, tag + ' position after reading nothing')
            return pos
        pos = h.concrete(pos)
        left = size - pos
        want = left if k < 0 else h.concrete(h.ite(k > left, left, k))
        h.eq(got, payload[pos:pos + want], tag + ' bytes read')
        h.eq(o.tell(), pos + want, tag + ' position after reading')
        return pos + want
    whence = {'seek0': 0, 'seek1': 1, 'seek2': 2}[op]
    off = h.int(16, True)
    if limit is not None:
        # the gzip module stops at the end of the file
        h.assume(h.And(off <= limit, off >= -limit))
    new = {0: off, 1: pos + off, 2: h.ite(off > size, 0, size - off)}[whence]
    r, e = h.attempt(o.seek, off, whence)
    if new < 0:
        h.check(e is not None, tag + ' seeking before the payload must raise')
        h.eq(o.tell(), pos, tag + ' position after a refused seek')
        return pos
    h.check(e is None, tag + ' seek raised %r' % (e,))
    h.eq(r, new, tag + ' seek result')
    h.eq(o.tell(), new, tag + ' position after seeking')
    return new


def sequence(h, n, ops, kind='plain', zcat=True, before=3):
    nodes = [Node(h, 9, h.bytes(before)), Node(h, 9, h.bytes(n)), Node(h, 9, h.bytes(4))]
    f = h.load('eventio').EventIOFile(h.file(build(h, nodes), kind), zcat=zcat)
    next(f)
    o = next(f)
    pos = 0
    for i, op in enumerate(ops):
        pos = one_op(h, o, nodes[1].payload, pos, op, '%d %s:' % (i, op), 6 if kind != 'plain' else None)


def sub(h, n, ops):
    """The same inside a container."""
    subs = [Node(h, 9, h.bytes(2)), Node(h, 9, h.bytes(n)), Node(h, 9, h.bytes(3))]
    nodes = [Node(h, 11, subs), Node(h, 9, h.bytes(2))]
    f = h.load('eventio').EventIOFile(h.file(build(h, nodes)))
    o = next(f)
    next(o)
    o = next(o)
    pos = 0
    for i, op in enumerate(ops):
        pos = one_op(h, o, subs[1].payload, pos, op, '%d %s:' % (i, op))


def several(h, steps, what):
    """Positions are kept per object: parent, child, sibling and file in turn."""
    subs = [Node(h, 9, h.bytes(4)), Node(h, 9, h.bytes(3))]
    nodes = [Node(h, 11, subs), Node(h, 9, h.bytes(5))]
    data = build(h, nodes)
    f = h.load('eventio').EventIOFile(h.file(data))
    parent = next(f)
    a = next(parent)
    b = next(parent)
    c = next(f)
    parent.seek(0)
    objs = [(a, subs[0].payload), (b, subs[1].payload), (c, nodes[1].payload), (parent, data[nodes[0].address:nodes[0].end])]
    pos = [0, 0, 0, 0]
    for i in range(steps):
        k = h.pick(range(4))
        o, payload = objs[k]
        if h.pick(['read', 'seek']) == 'read':
            n = h.pick([1, 2, -1])
            end = len(payload) if n < 0 else min(len(payload), pos[k] + n)
            h.eq(o.read(n), payload[pos[k]:end], 'read %d' % i)
            pos[k] = max(pos[k], end)
        else:
            pos[k] = h.pick([0, 2])
            o.seek(pos[k])
        if what == 'read':
            f.read(3)
        elif what == 'seek':
            f.seek(h.int(8))
        elif what == 'tell':
            f.tell()
        for (q, _), x in zip(objs, pos):
            h.eq(q.tell(), x, 'position')


def whence(h):
    nodes = [Node(h, 9, h.bytes(3)), Node(h, 9, h.bytes(4))]
    f = h.load('eventio').EventIOFile(h.file(build(h, nodes)))
    o = next(f)
    o.seek(2)
    w = h.int(8, True)
    h.assume(h.Or(w < 0, w > 2))
    e = h.raises(o.seek, 1, w)
    h.check(isinstance(e, ValueError), 'whence other than 0, 1, 2 must raise ValueError, got %r' % (e,))
    h.eq(o.tell(), 2, 'position')
    h.eq(o.read(), nodes[0].payload[2:], 'rest')


OPS = ['read', 'readall', 'seek0', 'seek1', 'seek2', 'tell']


def cases(tier):
    out = [Case('whence', whence)]
    big = tier != 'quick'
    for n in (0, 1, 4) if not big else (0, 1, 2, 5):
        for ops in itertools.product(OPS[:-1], repeat=2):
            out.append(Case('seq-%d-%s' % (n, '-'.join(ops)), sequence, dict(n=n, ops=ops + ('read',)), seconds=90 if not big else 600, witness=2))
    for i, ops in enumerate(itertools.product(OPS, repeat=3)):
        if big or i % 9 == 0:
            out.append(Case('seq3-%s' % '-'.join(ops), sequence, dict(n=3, ops=ops + ('readall',), before=0), seconds=90 if not big else 600, witness=1))
    for ops in [('read', 'seek1', 'read'), ('seek0', 'read', 'seek2'), ('seek2', 'readnone', 'seek1'), ('read', 'read', 'readall')]:
        out.append(Case('sub-' + '-'.join(ops), sub, dict(n=3, ops=ops), seconds=90, witness=2))
        out.append(Case('gzip-' + '-'.join(ops), sequence, dict(n=3, ops=ops, kind='gzip', zcat=False), seconds=90, witness=2))
    for what in (None, 'read', 'seek', 'tell'):
        out.append(Case('several-%s' % what, several, dict(steps=3 if big else 2, what=what), seconds=120 if not big else 1200, witness=3))
    out += [Case('big-%d-%d' % (s, n), bigfile.view, dict(size=s, n=n), witness=1) for s in bigfile.SIZES for n in (1, 4, 7)]
    return out
