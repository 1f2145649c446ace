"""C31: peeking does not consume and matches the next object."""
import itertools
from vf.h import Case
from .tree import Node, build, check_obj, check_payload, next_or
from .c03 import make
from .common import obj, SYNC
from . import spec

BOUNDS = ['every sequence of up to 7 (thorough: 9) peek, next and read steps over files of 0 to 3 top-level objects, all header fields and payloads',
          'all transports; every cut position of the listed files',
          'two objects of each type, whatever they contain',
          'every class against objects of every other type (16-bit)']
TRANSPORTS = {'plain': ('plain', True), 'pipe': ('gzip', True), 'module': ('gzip', False), 'zstd': ('zstd', True)}


def mixed(h, s, tr, steps, use):
    nodes = make(h, s)
    kind, z = TRANSPORTS[tr]
    f = h.load('eventio').EventIOFile(h.file(h.join([build(h, nodes)]) if nodes else SYNC[:4], kind), zcat=z) if nodes else None
    i = 0
    peeked = None
    for k in range(steps):
        tag = 'step %d' % k
        do = h.pick(('peek', 'next', use) if use and i else ('peek', 'next'))
        if do == 'peek':
            p = f.peek()
            if i < len(nodes):
                h.check(p is not None, tag + ': peek returned nothing')
                check_obj(h, p, nodes[i], tag + ' peek')
                h.check(peeked is None or peeked is p, tag + ': peek returned another object')
                peeked = p
            else:
                h.check(p is None, tag + ': peek at the end returned %r' % (p,))
        elif do == 'next':
            o, how = next_or(h, f)
            if i < len(nodes):
                h.check(o is not None, tag + ': object missing (%r)' % (how,))
                check_obj(h, o, nodes[i], tag + ' next')
                h.check(peeked is None or peeked is o, tag + ': next returned another object than peek')
                last, peeked = o, None
                i += 1
            else:
                h.check(how == 'stop', tag + ': the file must end, got %r %r' % (o, how))
        elif do == 'read':
            # reading an earlier object in between (seekable files)
            check_payload(h, last, nodes[i - 1], tag)
        elif do == 'children':
            n = nodes[i - 1]
            last._next_header_pos = 0
            if n.subs is not None:
                for s_ in n.subs:
                    o, how = next_or(h, last)
                    h.check(o is not None, tag + ': sub-object missing (%r)' % (how,))
                    check_obj(h, o, s_, tag + ' sub-object')
        elif do == 'ofpeeked':
            if peeked is not None and nodes[i].subs is None:
                peeked.seek(0)
                h.eq(peeked.read(1), nodes[i].payload[:1], tag + ' payload of the peeked object')
            f.seek(0)
    h.eq([w for w in h.warnings if 'peek' in str(w)], [], 'warnings')


def at_end(h, s, tr):
    nodes = make(h, s)
    kind, z = TRANSPORTS[tr]
    f = h.load('eventio').EventIOFile(h.file(build(h, nodes), kind), zcat=z)
    for i, n in enumerate(nodes):
        for _ in range(h.range(0, 2)):
            check_obj(h, f.peek(), n, 'peek %d' % i)
        check_obj(h, next(f), n, 'next %d' % i)
    for _ in range(3):
        h.check(f.peek() is None, 'peek at the end')
        o, how = next_or(h, f)
        h.check(how == 'stop', 'the file must end, got %r %r' % (o, how))


def iterate(h, s, tr):
    """A for loop with peeks in between."""
    nodes = make(h, s)
    kind, z = TRANSPORTS[tr]
    f = h.load('eventio').EventIOFile(h.file(build(h, nodes), kind), zcat=z)
    seen = []
    want = [h.bool() for _ in range(len(nodes) + 1)]
    if want[0]:
        f.peek()
    for o in f:
        seen.append(o)
        if want[min(len(seen), len(nodes))]:
            p = f.peek()
            h.check((p is None) == (len(seen) >= len(nodes)), 'peek after object %d' % len(seen))
    h.eq(len(seen), len(nodes), 'objects seen')
    for o, n in zip(seen, nodes):
        check_obj(h, o, n, 'object')


def wrong(h, cls, anyt):
    """An object of another type is refused by name."""
    mod, name, want = cls
    m = h.load(mod)
    t = h.int(16) if anyt else h.pick([7, 2010, want ^ 1, 0, 65535])
    n = Node(h, t, b'')
    base = h.load('eventio.base')
    h.assume(t != want)
    hd = base.read_header(stream(h, n), offset=0, toplevel=True)
    o, e = h.attempt(getattr(m, name), hd, None)
    h.check(isinstance(e, h.load('eventio.exceptions').WrongType), 'expected WrongType, got %r %r' % (o, e))
    h.check(anyt or name in str(e) and str(want) in str(e), 'the message does not name the expected type: %s' % (e,))


def stream(h, n):
    from .common import stream_of
    n.layout(0, True)
    s = stream_of(h, n.emit(h))
    s.seek(4)
    return s


def check_type(h, types, n):
    """check_type accepts exactly instances of the listed classes."""
    ex = h.load('eventio.exceptions')
    ko = h.load('eventio.base').KNOWN_OBJECTS
    t = h.pick([2010, 2012, 2205, 7, 1212, 70])
    f = h.load('eventio').EventIOFile(h.file(obj(h, t, h.bytes(1), id_=h.int(32, True))))
    o = next(f)
    cl = tuple(ko[x] for x in types)
    r, e = h.attempt(ex.check_type, o, cl if len(cl) > 1 else cl[0])
    if t in types:
        h.check(e is None, 'refused %r' % (e,))
    else:
        h.check(isinstance(e, ex.WrongType), 'expected WrongType, got %r %r' % (r, e))
        for x in types:
            h.check(spec.class_of(x) in str(e), 'the message does not name %s: %s' % (spec.class_of(x), e))
        h.check(spec.class_of(t) in str(e), 'the message does not name %s: %s' % (spec.class_of(t), e))


def registered(h, ts, tr):
    """Objects of every type, whatever they contain."""
    t = h.pick(ts)
    n = [Node(h, t, h.bytes(16), id_=spec.tracking_id(t) if spec.class_of(t) == 'TrackingPosition' else None, cls=spec.class_of(t)) for _ in range(2)]
    kind, z = TRANSPORTS[tr]
    f = h.load('eventio').EventIOFile(h.file(build(h, n), kind), zcat=z)
    for i in range(2):
        p = f.peek()
        h.check(p is not None, 'peek %d returned nothing' % i)
        h.check(f.peek() is p, 'peek %d again returned another object' % i)
        check_obj(h, p, n[i], 'peek %d' % i)
        o, how = next_or(h, f)
        h.check(o is p, 'next %d returned another object than peek (%r)' % (i, how))
    h.check(f.peek() is None, 'peek at the end')
    h.eq(next_or(h, f)[1], 'stop', 'the end')


def cases(tier):
    big = tier != 'quick'
    out = []
    for s in ('1', '2 1', '1 (1) 0', '(2 1) 1'):
        for tr in TRANSPORTS:
            n = len(s.split())
            steps = 6 if not big else 8
            out.append(Case('mix-%s-%s' % (s.replace(' ', '_'), tr), mixed, dict(s=s, tr=tr, steps=steps, use=None), seconds=120, witness=4))
            out.append(Case('end-%s-%s' % (s.replace(' ', '_'), tr), at_end, dict(s=s, tr=tr), witness=4))
            out.append(Case('loop-%s-%s' % (s.replace(' ', '_'), tr), iterate, dict(s=s, tr=tr), witness=4))
        for use in ('read', 'children', 'ofpeeked'):
            out.append(Case('mix-%s-%s' % (s.replace(' ', '_'), use), mixed, dict(s=s, tr='plain', steps=5 if not big else 7, use=use), seconds=200, witness=4))
    ts = [t for t in sorted(spec.REGISTERED) if t < 2100 or t in (2100, 2150, 2200, 2299, 11299)] + [7, 65535]
    for i in range(8):
        out.append(Case('types-%d' % i, registered, dict(ts=ts[i::8], tr=('plain', 'pipe')[i % 2]), witness=2))
    seen = set()
    for t, c in sorted(spec.REGISTERED.items()):
        if c in seen or c[1] in ('TelescopeEvent', 'TrackingPosition'):
            continue
        seen.add(c)
        out.append(Case('wrong-%s-%d' % (c[1], t), wrong, dict(cls=c + (t,), anyt=True), witness=2))
        out.append(Case('wrongname-%s-%d' % (c[1], t), wrong, dict(cls=c + (t,), anyt=False), witness=2))
    for types in ((2010,), (2012, 1212), (2205, 70), (2010, 2012, 1212)):
        out.append(Case('check-%s' % '.'.join(map(str, types)), check_type, dict(types=types, n=0), witness=6))
    return out
