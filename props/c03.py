"""C03: iterating a container yields exactly its sub-objects."""
import itertools
from vf.h import Case
from . import big as bigfile
from .tree import Node, build, check_obj, check_payload, data_of, next_or

BOUNDS = [bigfile.BOUNDS, 'containers of 0 to 4 sub-objects, depth to 4, payloads of 0 to 6 bytes, extended and plain headers, all header field values',
          'every interleaving of up to 7 steps over parent, children, sibling containers and the file within the listed trees']


def make(h, s):
    """Parse "(2 (1 0) 3x)" into nodes; digits are payload lengths, parentheses containers, x extension, T telescope event, A array event."""
    toks = s.replace('(', ' ( ').replace(')', ' ) ').split()
    pos = 0

    def seq():
        nonlocal pos
        out = []
        while pos < len(toks) and toks[pos] != ')':
            t = toks[pos]
            pos += 1
            kind = dict(type_=11, cls='EventIOObject')
            ext = False
            if t in ('A', 'T', 'H', 'X'):
                if t == 'A':
                    kind = dict(type_=2010, cls='ArrayEvent')
                if t == 'T':
                    kind = dict(type_=2205, cls='TelescopeEvent')
                if t == 'H':
                    kind = dict(type_=70, cls='History')
                ext = t == 'X'
                t = toks[pos]
                pos += 1
            if t == '(':
                subs = seq()
                pos += 1
                out.append(Node(h, payload=subs, ext=ext, **kind))
            else:
                out.append(Node(h, 9, h.bytes(int(t.strip('xu'))), ext='x' in t, user='u' in t))
        return out
    return seq()


def open_(h, nodes, kind='plain', zcat=True):
    return h.load('eventio').EventIOFile(h.file(build(h, nodes), kind), zcat=zcat)


def full(h, s, order):
    """Depth first or breadth first, checking everything."""
    nodes = make(h, s)
    f = open_(h, nodes)

    def level(it, ns, msg):
        objs = []
        for i, n in enumerate(ns):
            o, how = next_or(h, it)
            m = '%s.%d' % (msg, i)
            h.check(o is not None, '%s missing (%s)' % (m, how))
            check_obj(h, o, n, m)
            if order == 'depth':
                inside(o, n, m)
            objs.append(o)
        o, how = next_or(h, it)
        h.check(how == 'stop', '%s must end, got %r %r' % (msg, o, how))
        if order == 'breadth':
            for i, (o, n) in enumerate(zip(objs, ns)):
                inside(o, n, '%s.%d' % (msg, i))
        if order == 'reverse':
            for i, (o, n) in enumerate(reversed(list(zip(objs, ns)))):
                inside(o, n, '%s.-%d' % (msg, i))

    def inside(o, n, m):
        if n.subs is None:
            check_payload(h, o, n, m)
            e = h.raises(iter, o)
            h.check(isinstance(e, ValueError), m + ': iterating data must raise ValueError, got %r' % (e,))
            e = h.raises(next, o)
            h.check(isinstance(e, ValueError), m + ': stepping data must raise ValueError, got %r' % (e,))
        else:
            h.check(iter(o) is o, m + ' is its own iterator')
            level(o, n.subs, m)
    level(f, nodes, 'file')


def interleave(h, s, steps, kind='plain', zcat=True, paths=None):
    """Any order of steps over all iterators known so far."""
    nodes = make(h, s)
    f = open_(h, nodes, kind, zcat)
    its = [[f, nodes, 0]]
    for k in range(steps):
        i = h.pick(range(len(its)))
        it = its[i]
        o, how = next_or(h, it[0])
        if it[2] < len(it[1]):
            n = it[1][it[2]]
            h.check(o is not None, 'sub-object missing (%s)' % (how,))
            check_obj(h, o, n, 'step %d' % k)
            it[2] += 1
            if n.subs is not None:
                its.append([o, n.subs, 0])
            elif n.payload is not None and len(n.payload) and k % 2:
                o.read(h.pick([1, -1]))
        else:
            h.check(how == 'stop', 'iteration must end, got %r %r' % (o, how))


def disturbed(h, s, what):
    """Seek, read and position queries on parent, child and file between the steps over one container."""
    nodes = make(h, s)
    f = open_(h, nodes)
    parent = next(f)
    n = nodes[0]
    seen = []
    for i, c in enumerate(n.subs):
        act(h, f, parent, seen, what)
        o, how = next_or(h, parent)
        h.check(o is not None, 'sub-object %d missing (%s)' % (i, how))
        check_obj(h, o, c, 'sub-object %d' % i)
        seen.append(o)
    act(h, f, parent, seen, what)
    o, how = next_or(h, parent)
    h.check(how == 'stop', 'iteration must end, got %r %r' % (o, how))
    for o, c in zip(seen, n.subs):
        check_payload(h, o, c)
    o, how = next_or(h, f)
    if len(nodes) > 1:
        h.check(o is not None, 'next object missing')
        check_obj(h, o, nodes[1], 'next object')


def act(h, f, parent, seen, what):
    if what == 'pseek':
        parent.seek(h.int(8), h.pick([0, 1, 2]))
    elif what == 'pread':
        parent.read(h.pick([0, 3, 14, -1]))
    elif what == 'ptell':
        parent.tell()
    elif what == 'pparse':
        h.raises(parent.parse)
    elif what == 'piter':
        iter(parent)
    elif what == 'fseek':
        f.seek(h.int(8))
    elif what == 'fread':
        f.read(h.pick([0, 5, -1]))
    elif what == 'fstep':
        next_or(h, f)
    elif what == 'fpeek':
        f.peek()
    elif seen:
        o = h.pick(seen)
        if what == 'cseek':
            o.seek(h.int(8), h.pick([0, 1, 2]))
        elif what == 'cread':
            o.read(h.pick([0, 1, -1]))
        elif what == 'cstep' and o.only_subobjects:
            next_or(h, o)
        elif what == 'clist' and o.only_subobjects:
            list(o)
        elif what == 'cparse':
            h.raises(o.parse)


ACTS = ['pseek', 'pread', 'ptell', 'pparse', 'piter', 'fseek', 'fread', 'fstep', 'fpeek', 'cseek', 'cread', 'cstep', 'clist', 'cparse']
TREES = ['()', '(0)', '(3)', '(0 0)', '(2 1)', '(2 () 1)', '(())', '((1) (2 0))', '(((3)))', '(1 ((2) 0) (1))', '(2x 1)', 'X (1 2x)', 'A (T (1 2) T (0) 3)',
         '(3) (1)', 'H (1 1 1 1)', '((((1))))', '(2u 1) 3 (4)', '(() () ())', 'A (1 T (2 3) 2) 1', '(6 5 4)']


def cases(tier):
    out = []
    for s in TREES:
        for o in ('depth', 'breadth', 'reverse'):
            out.append(Case('full-%s-%s' % (s.replace(' ', '_'), o), full, dict(s=s, order=o), witness=1))
    big = tier != 'quick'
    for s, steps in [('((1) 2 (0))', 7), ('(1 (2 (1))) 1', 6), ('((1 0)) ((2))', 7), ('A (T (1) T (0 1)) 1', 6), ('(0 () 2x) (1)', 6)]:
        out.append(Case('interleave-%s' % s.replace(' ', '_'), interleave, dict(s=s, steps=steps + (2 if big else 0)), seconds=1500 if big else 120, witness=4))
    out.append(Case('interleave-gzip', interleave, dict(s='((1) 2 (0))', steps=6, kind='gzip', zcat=False), seconds=120, witness=2))
    for i, a in enumerate(ACTS):
        for s in (['(2 (1 0) 1) 2', '((1) 0 2x)', '(A (1) () 3) 0'] if big else [['(2 (1 0) 1) 2', '((1) 0 2x)', '(A (1) () 3) 0'][i % 3]]):
            out.append(Case('act-%s-%s' % (a, s.replace(' ', '_')), disturbed, dict(s=s, what=a), seconds=120, witness=3))
    out += [c for _, k, c in bigfile.trees() if k == 'inside']
    out += bigfile.crowds(True)
    return out
