"""C07: plain, gzip and zstd files read identically."""
import itertools
from vf.h import Case
from .common import SYNC
from .tree import Node, build, next_or
from .c03 import make

BOUNDS = ['large-*: payloads of 70 000 to 1 100 000 constant bytes over pipe, module gzip and zstd', 'files of up to 70 bytes (3 top-level objects, depth 3), every cut position, every split into two frames or members and selected splits into three or four',
          'call sequences of up to 4 reads, seeks and tells with any arguments (8-bit) on pipe, gzip module and zstd', 'pipe deliveries of 1 to 5 bytes at a time']
OUTSIDE = ['damaged compressed data', 'the decompressors themselves']
TRANSPORTS = {'plain': ('plain', True), 'pipe': ('gzip', True), 'module': ('gzip', False), 'zstd': ('zstd', True), 'nobinary': ('gzip', True)}


def open_(h, data, tr, cuts=()):
    kind, z = TRANSPORTS[tr]
    if tr == 'nobinary':
        h.no_gzip()
    return h.load('eventio').EventIOFile(h.file(data, kind, cuts=cuts), zcat=z)


def named(h, s, tr, path):
    """Whatever the file is called."""
    data = build(h, make(h, s))
    want = trace(h, open_(h, data, 'plain'), 'walk')
    kind, z = TRANSPORTS[tr]
    f = h.load('eventio').EventIOFile(h.file(data, kind, name=path), zcat=z)
    got = trace(h, f, 'walk')
    h.eq(len(got), len(want), 'number of observations')
    for i, (a, b) in enumerate(zip(got, want)):
        h.eq(a, b, 'observation %d' % i)


def name(how):
    return how if isinstance(how, str) else type(how).__name__


def trace(h, f, plan):
    """Everything a forward reader sees up to the first EOFError."""
    out = []

    def read(x, *a):
        d, e = h.attempt(x.read, *a)
        out.append(d if e is None else name(e))
        return e is None

    def level(it, depth):
        while True:
            o, how = next_or(h, it)
            if o is None:
                out.append(name(how))
                return name(how) == 'stop'
            hd = o.header
            out.extend([type(o).__name__, hd.type, hd.version, hd.id, hd.content_size, hd.content_address, o.address, o.size, o.only_subobjects, f.tell()])
            if o.only_subobjects:
                if not (plan == 'skip' and depth == 0) and not level(o, depth + 1):
                    return False
            elif plan == 'walk':
                if not (read(o) and read(o, 1)):
                    return False
            elif plan == 'partial':
                if not read(o, 1):
                    return False
                out.append(o.tell())
                out.append(f.tell())
                if o.size > 1:
                    o.seek(1, 1)
                if not read(o, 2):
                    return False
            elif plan == 'file':
                out.append(f.read(2))
                out.append(f.tell())
            elif plan == 'seek':
                o.seek(min(2, o.size))
                out.append(o.tell())
                if not read(o):
                    return False
    level(f, 0)
    return out


def compare(h, s, tr, plan, cuts=None, cut=False, two=False):
    nodes = make(h, s)
    data = build(h, nodes)
    n = len(data)
    if cut:
        data = data[:h.range(4, n)]
    if two:
        cuts = (h.range(0, n),)
    want = trace(h, open_(h, data, 'plain'), plan)
    got = trace(h, open_(h, data, tr, cuts=cuts or ()), plan)
    h.eq(len(got), len(want), 'number of observations: %r' % ([x for x in got if isinstance(x, str)],))
    for i, (a, b) in enumerate(zip(got, want)):
        h.eq(a, b, 'observation %d' % i)


class Long(Node):
    """Zeros between the first and the last bytes of the payload."""

    def __init__(self, h, n):
        Node.__init__(self, h, 9, h.join([h.bytes(3), b'\0' * (n - 6), h.bytes(3)]))


def large(h, tr, plan, sizes, inside=False):
    nodes = [Long(h, n) for n in sizes]
    if inside:
        nodes = [Node(h, 11, nodes)]
    nodes.append(Node(h, 9, h.bytes(2)))
    data = build(h, nodes)
    want = trace(h, open_(h, data, 'plain'), plan)
    got = trace(h, open_(h, data, tr, cuts=(len(data) // 3,)), plan)
    h.eq(len(got), len(want), 'number of observations: %r' % ([x for x in got if isinstance(x, str)],))
    for i, (a, b) in enumerate(zip(got, want)):
        h.eq(a, b, 'observation %d' % i)


OPS = ['read', 'readall', 'seek0', 'seek1', 'tell']


def ops_on(h, f, data, ops, forward_only, pos=0):
    n = len(data)
    for i, op in enumerate(ops):
        tag = '%d %s:' % (i, op)
        if op == 'tell':
            pass
        elif op in ('read', 'readall'):
            k = h.int(8) if op == 'read' else -1
            pos = h.concrete(pos)
            want = n - pos if k < 0 else h.concrete(h.ite(k > n - pos, n - pos, k))
            got = f.read(k) if op == 'read' else f.read()
            h.eq(got, data[pos:pos + want], tag + ' bytes')
            pos = pos + want
        else:
            k = h.int(8) if op == 'seek0' else h.int(8, True)
            new = k if op == 'seek0' else pos + k
            back = new < pos
            if forward_only and back:
                r, e = h.attempt(f.seek, k, 0 if op == 'seek0' else 1)
                h.check(isinstance(e, IOError), tag + ' seeking backward must raise IOError, got %r %r' % (r, e))
            else:
                h.assume(new >= 0)
                r = f.seek(k, 0 if op == 'seek0' else 1) if i % 2 == 0 or op == 'seek1' else f.seek(k)
                pos = h.ite(new > n, n, new)
                h.eq(r, pos, tag + ' seek result')
        h.eq(f.tell(), pos, tag + ' position')


def file_ops(h, tr, ops, n):
    data = h.join([SYNC, h.bytes(n)])
    f = open_(h, data, tr)
    ops_on(h, f, data, ops, tr in ('pipe', 'zstd'))


def pipe_ops(h, ops, n, blocks):
    data = h.bytes(n)
    f = h.load('eventio.base').PipeWrapper(h.pipe(data, blocks))
    ops_on(h, f, data, ops, True)
    r, e = h.attempt(f.seek, 0, 2)
    h.check(isinstance(e, IOError), 'seeking from the end must raise IOError, got %r %r' % (r, e))


def cases(tier):
    big = tier != 'quick'
    out = []
    T = ['2 1', '(2 1) 1', '((1) 0) 2', 'A (T (2 1) 3x) 2', '0 (0 ()) 3']
    for s in T:
        for tr in ('pipe', 'module', 'zstd', 'nobinary'):
            for plan in ('walk', 'partial', 'file', 'seek', 'skip'):
                if plan == 'file' and '(' in s:
                    continue
                out.append(Case('same-%s-%s-%s' % (s.replace(' ', '_'), tr, plan), compare, dict(s=s, tr=tr, plan=plan), witness=1))
            out.append(Case('cut-%s-%s' % (s.replace(' ', '_'), tr), compare, dict(s=s, tr=tr, plan='walk', cut=True), seconds=120, witness=4))
            if big or s in T[:2]:
                out.append(Case('cutskip-%s-%s' % (s.replace(' ', '_'), tr), compare, dict(s=s, tr=tr, plan='skip', cut=True), seconds=120, witness=3))
            if tr != 'nobinary':
                out.append(Case('split-%s-%s' % (s.replace(' ', '_'), tr), compare, dict(s=s, tr=tr, plan='walk', two=True), seconds=120, witness=12))
                out.append(Case('splits-%s-%s' % (s.replace(' ', '_'), tr), compare, dict(s=s, tr=tr, plan='partial', cuts=(1, 2, 17, 18)), witness=2))
    for tr in ('pipe', 'module', 'zstd', 'plain'):
        for i, path in enumerate(('a b.gz', 'x', '-f.gz', '--', '-', '-k', "a'; b $x*", 'x.gz.simtel')):
            out.append(Case('name-%d-%s' % (i, tr), named, dict(s='2 1', tr=tr, path=path), witness=1))
    for i, sizes in enumerate(((70000, 200000), (1100000,))):
        for tr in ('pipe', 'module', 'zstd'):
            for plan in ('skip', 'partial', 'seek', 'walk'):
                out.append(Case('large-%d-%s-%s' % (i, tr, plan), large, dict(tr=tr, plan=plan, sizes=sizes, inside=plan == 'partial'), witness=1, seconds=200))
    for tr in ('pipe', 'module', 'zstd'):
        for ops in itertools.product(OPS, repeat=3 if big else 2):
            out.append(Case('ops-%s-%s' % (tr, '-'.join(ops)), file_ops, dict(tr=tr, ops=ops + ('read',), n=3), seconds=120 if not big else 900, witness=2))
    for i, ops in enumerate(itertools.product(OPS, repeat=2)):
        out.append(Case('wrapper-%s' % '-'.join(ops), pipe_ops, dict(ops=ops + ('read',), n=5, blocks=[(1,), (2, 3), (5,), (1, 2)][i % 4]), seconds=120, witness=3))
    return out
