"""C02: iterating a file yields exactly its top-level objects."""
import itertools
from vf.h import Case
from . import big as bigfile
from .common import SYNC, header
from .tree import Node, build, check_obj, check_payload, next_or
from .spec import REGISTERED, class_of, tracking_id

BOUNDS = [bigfile.BOUNDS, 'files of 0 to 4 top-level objects with payloads of 0 to 8 bytes, nesting to depth 2, with and without extension; all header field values',
          'between two steps any one of 14 operations on the file or on an object seen before, with any argument',
          'object types: all 2^16 (one object), registered and unregistered ones mixed (several objects)']


def nodes_of(h, shape):
    """shape: string, one letter per object: digits payload length, c container, x extended, u user flag."""
    out = []
    for s in shape.split():
        ext = 'x' in s
        user = 'u' in s
        s = s.strip('xu')
        if s == 'c0':
            out.append(Node(h, 2010, [], cls='ArrayEvent', ext=ext, user=user))
        elif s.startswith('c'):
            subs = [Node(h, 7, h.bytes(int(d))) for d in s[1:]]
            out.append(Node(h, 11, subs, ext=ext, user=user))
        else:
            out.append(Node(h, 9, h.bytes(int(s)), ext=ext, user=user))
    return out


def plain(h, shape, kind='plain', zcat=True):
    nodes = nodes_of(h, shape)
    ev = h.load('eventio')
    f = ev.EventIOFile(h.file(build(h, nodes), kind), zcat=zcat)
    for i, n in enumerate(nodes):
        o, how = next_or(h, f)
        h.check(o is not None, 'object %d missing (%s)' % (i, how))
        check_obj(h, o, n, 'object %d' % i)
        check_payload(h, o, n, 'object %d' % i)
    for _ in range(2):
        o, how = next_or(h, f)
        h.check(how == 'stop', 'iteration must end, got %r %r' % (o, how))


def forloop(h, shape):
    nodes = nodes_of(h, shape)
    f = h.load('eventio').EventIOFile(h.file(build(h, nodes)))
    h.check(iter(f) is f, 'a file is its own iterator')
    got = list(f)
    h.eq(len(got), len(nodes), 'number of objects')
    for o, n in zip(got, nodes):
        check_obj(h, o, n)
    for o, n in zip(reversed(got), reversed(nodes)):
        check_payload(h, o, n)


def empty(h):
    ev = h.load('eventio')
    e = h.raises(ev.EventIOFile, h.file(b''))
    h.check(isinstance(e, ValueError), 'an empty file is not an eventio file')


OPS = ['fread', 'fseek', 'fseek1', 'ftell', 'oread', 'oread_all', 'oseek', 'oparse', 'ostep', 'ostep_all', 'peek', 'cread', 'reiter', 'orepr']


def disturb(h, f, objs, op):
    if op == 'fread':
        f.read(h.pick([0, 1, 4, 13, 50, -1]))
    elif op == 'fseek':
        f.seek(h.int(16))
    elif op == 'fseek1':
        f.seek(h.int(8), 1)
    elif op == 'ftell':
        f.tell()
    elif op == 'peek':
        f.peek()
    elif op == 'reiter':
        iter(f)
    elif objs:
        o = h.pick(objs)
        if op == 'oread':
            o.read(h.pick([0, 1, 9]))
        elif op == 'oread_all':
            o.read()
        elif op == 'oseek':
            o.seek(h.int(8), h.pick([0, 1, 2]))
        elif op == 'oparse':
            h.raises(o.parse)
        elif op == 'ostep' and o.only_subobjects:
            next_or(h, o)
        elif op == 'ostep_all' and o.only_subobjects:
            list(o)
        elif op == 'cread' and o.only_subobjects:
            c, _ = next_or(h, o)
            if c is not None:
                c.read(h.pick([0, 2]))
        elif op == 'orepr':
            repr(o), str(o)


def disturbed(h, shape, ops, kind='plain', zcat=True):
    nodes = nodes_of(h, shape)
    f = h.load('eventio').EventIOFile(h.file(build(h, nodes), kind), zcat=zcat)
    objs = []
    for i, n in enumerate(nodes):
        disturb(h, f, objs, ops[i % len(ops)])
        o, how = next_or(h, f)
        h.check(o is not None, 'object %d missing (%s)' % (i, how))
        check_obj(h, o, n, 'object %d' % i)
        objs.append(o)
    disturb(h, f, objs, ops[-1])
    o, how = next_or(h, f)
    h.check(how == 'stop', 'iteration must end, got %r %r' % (o, how))
    # everything can still be read
    for o, n in zip(objs, nodes):
        check_payload(h, o, n)


def any_type(h):
    """Every type number is opened as the class registered for it."""
    t = h.int(16)
    sub = h.bool()
    id_ = h.int(32, True)
    n = h.join([SYNC, header(h, t, h.int(12), id_, 16, sub, top=False), bytes(16)])
    f = h.load('eventio').EventIOFile(h.file(n))
    tracking = h.And(t >= 2100, t < 12100, t % 1000 >= 100, t % 1000 < 200)
    o, how = next_or(h, f)
    if o is None:
        # only a tracking position whose id belongs to another telescope is refused
        h.check(h.And(tracking, isinstance(how, ValueError)), 'no object: %r' % (how,))
        return
    h.eq(o.header.type, t, 'type')
    h.eq(o.header.id, id_, 'id')
    name = type(o).__name__
    mine = [k for k in REGISTERED if REGISTERED[k][1] == name]
    if name == 'EventIOObject':
        h.check(h.Not(among(h, t, list(REGISTERED))), 'a registered type is opened as a generic object')
    else:
        h.check(among(h, t, [k for k in mine if REGISTERED[k][0] == type(o).__module__]), 'another type is opened as ' + name)


def among(h, t, keys):
    keys = sorted(keys)
    cs = []
    i = 0
    while i < len(keys):
        j = i
        while j + 1 < len(keys) and keys[j + 1] == keys[j] + 1:
            j += 1
        cs.append(h.And(t >= keys[i], t <= keys[j]))
        i = j + 1
    return h.Or(*cs)


def registered(h, block):
    """Concrete type numbers, all registered ones and their neighbours."""
    lo, hi = block
    types = sorted({t for k in REGISTERED for t in (k - 1, k, k + 1) if lo <= t < hi})
    nodes = [Node(h, t, bytes(16), version=0, id_=tracking_id(t), cls=class_of(t, h)) for t in types]
    f = h.load('eventio').EventIOFile(h.file(build(h, nodes)))
    for n in nodes:
        o, how = next_or(h, f)
        h.check(o is not None, 'object of type %d missing (%s)' % (n.type, how))
        h.eq(type(o).__name__, n.cls, 'class of type %d' % n.type)
        mod = type(o).__module__
        want = REGISTERED.get(n.type, ('eventio.base', ''))[0]
        h.check(mod == want, 'type %d is opened as %s of %s' % (n.type, n.cls, mod))


def cases(tier):
    shapes = ['0', '1', '5', 'c0', 'c2', 'c03', '3x', '2u', 'c1x', '0 0', '3 0 2', '1 c2 4', 'c0 c0 1', 'c11 2x 1u', '8 0 0 8', 'c020 3',
              '2x 2x', '1xu c3xu']
    out = [Case('plain-' + s.replace(' ', '_'), plain, dict(shape=s), witness=2) for s in shapes]
    out += [Case('gzip-' + s.replace(' ', '_'), plain, dict(shape=s, kind='gzip'), witness=2) for s in shapes[9:12]] if 0 else []
    out += [Case('list-' + s.replace(' ', '_'), forloop, dict(shape=s), witness=2) for s in shapes[9:]]
    out.append(Case('empty', empty))
    base = ['3 c21 0 2', '0 2x c1', 'c02 c0 5']
    if tier == 'quick':
        for i, op in enumerate(OPS):
            out.append(Case('op-%s' % op, disturbed, dict(shape='3 c21 0' if op in ('fread', 'oseek') else base[i % 3], ops=[op]), seconds=120, witness=3))
        for i, (a, b) in enumerate(itertools.product(OPS, OPS)):
            if a != b and i % 5 == 0:
                out.append(Case('ops-%s-%s' % (a, b), disturbed, dict(shape=['2 c1 3', 'c1 0 2x'][i % 2], ops=[a, b, 'ftell']), seconds=120, witness=2))
    else:
        for i, op in enumerate(OPS):
            for s in base:
                out.append(Case('op-%s-%s' % (op, s.replace(' ', '_')), disturbed, dict(shape=s, ops=[op]), seconds=900, witness=3))
        for i, (a, b) in enumerate(itertools.product(OPS, OPS)):
            out.append(Case('ops-%s-%s' % (a, b), disturbed, dict(shape=['2 c1 3', 'c1 0 2x'][i % 2], ops=[a, b, 'ftell']), seconds=600, witness=2))
    out += [Case('gzipmodule-%s' % op, disturbed, dict(shape='2 c1', ops=[op], kind='gzip', zcat=False), seconds=120, witness=2) for op in ('fread', 'fseek', 'oseek', 'cread')]
    for lo in range(0, 12000, 1000):
        out.append(Case('registered-%d' % lo, registered, dict(block=(lo, lo + 1000)), witness=1))
    out.append(Case('any-type', any_type, seconds=120))
    out += [c for _, k, c in bigfile.trees() if k != 'inside']
    out += bigfile.crowds(False)
    return out
