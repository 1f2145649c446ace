"""Objects of gigabytes (files with holes): lengths and positions beyond 30, 31 and 32 bits."""
from .common import header
from vf.h import Case

SIZES = [2 ** 30 + 5, 2 ** 31 - 10, 2 ** 32 - 12, 2 ** 32 + 5, 2 ** 35 + 1]
BOUNDS = 'big-*: objects of 2^30+5 to 2^35+1 bytes, zeros but for the ends of the payload'


class Big:
    """A file of objects: entries are a payload (bytes), a size (a payload of that many bytes) or a list (container)."""

    def __init__(self, h, entries):
        self.h = h
        self.parts = []
        self.pos = 0
        self.nodes = [self.put(e, True) for e in entries]
        self.path = h.sparse(self.parts, self.pos)

    def put(self, e, top):
        h = self.h
        n = dict(type=11 if isinstance(e, list) else 9, id=h.int(32, True), version=h.int(12), kids=[])
        at = self.pos
        size = self.size(e)
        ext = size >= 1 << 30
        n['header_size'] = (16 if top else 12) + (4 if ext else 0)
        self.pos += n['header_size']
        n['address'], n['size'] = self.pos, size
        if isinstance(e, list):
            n['kids'] = [self.put(x, False) for x in e]
        elif isinstance(e, int):
            n['head'], n['tail'] = h.bytes(4), h.bytes(4)
            self.parts += [(self.pos, n['head']), (self.pos + e - 4, n['tail'])]
            self.pos += e
        else:
            n['payload'] = e
            self.parts.append((self.pos, e))
            self.pos += len(e)
        assert self.pos == n['address'] + size
        self.parts.append((at, header(h, n['type'], n['version'], n['id'], size & (1 << 30) - 1, sub=isinstance(e, list), ext=(h.int(20) << 12 | size >> 30) if ext else None, top=top)))
        return n

    def size(self, e):
        if isinstance(e, list):
            return sum(12 + (4 if self.size(x) >= 1 << 30 else 0) + self.size(x) for x in e)
        return e if isinstance(e, int) else len(e)


def check_obj(h, o, n, msg):
    h.eq(o.header.type, n['type'], msg + ' type')
    h.eq(o.header.id, n['id'], msg + ' id')
    h.eq(o.header.version, n['version'], msg + ' version')
    h.eq(o.header.content_size, n['size'], msg + ' content_size')
    h.eq(o.header.total_size, n['size'] + n['header_size'], msg + ' total_size')
    h.eq(o.header.content_address, n['address'], msg + ' content_address')
    h.eq(o.size, n['size'], msg + ' size')
    h.eq(o.address, n['address'], msg + ' address')


def check_payload(h, o, n, msg):
    o.seek(0)
    if 'payload' in n:
        h.eq(o.read(), n['payload'], msg + ' payload')
        return
    h.eq(o.read(4), n['head'], msg + ' start')
    o.seek(4, 2)
    h.eq(o.tell(), n['size'] - 4, msg + ' position')
    h.eq(o.read(), n['tail'], msg + ' end')
    o.seek(n['size'] - 6)
    h.eq(o.read(9), h.join([b'\0\0', n['tail']]), msg + ' last bytes')


def walk(h, it, nodes, order, msg=''):
    objs = []
    for i, n in enumerate(nodes):
        m = '%s.%d' % (msg, i)
        o = next(it)
        check_obj(h, o, n, m)
        objs.append((o, n, m))
        if order == 'depth':
            inside(h, o, n, order, m)
    h.check(isinstance(h.raises(next, it), StopIteration), msg + ' must end')
    if order != 'depth':
        for o, n, m in reversed(objs):
            inside(h, o, n, order, m)


def inside(h, o, n, order, m):
    if n['kids']:
        walk(h, o, n['kids'], order, m)
    else:
        check_payload(h, o, n, m)


def tree(h, entries, order):
    b = Big(h, [x(h) if callable(x) else x for x in entries])
    f = h.load('eventio').EventIOFile(b.path)
    walk(h, f, b.nodes, order)


def view(h, size, n):
    """Reads and seeks on a big object."""
    b = Big(h, [b'', [h.bytes(1), size], h.bytes(2)])
    f = h.load('eventio').EventIOFile(b.path)
    next(f)
    c = next(f)
    next(c)
    o = next(c)
    last = next(f)
    node = b.nodes[1]['kids'][1]
    size = node['size']
    for to, whence in ((size - 2, 0), (3, 2), (1 << 30, 0), (2, 1), (0, 2), (-1, 1), (size - n, 0)):
        pos = size - to if whence == 2 else to + (o.tell() if whence else 0)
        h.eq(o.seek(to, whence), pos, 'seek returns')
        h.eq(o.tell(), pos, 'position')
    k = min(n, 4)
    h.eq(o.read(), h.join([b'\0' * (n - k), node['tail'][4 - k:]]), 'rest')
    h.eq(last.read(), b.nodes[2]['payload'], 'next object')
    o.seek(0)
    h.eq(o.read(3), node['head'][:3], 'start')


def trees(sizes=SIZES):
    out = []
    for s in sizes:
        two = lambda h: h.bytes(2)
        kids = lambda h, s=s: [h.bytes(1), s, h.bytes(2)]
        for nm, e in (('first', [s, two]), ('last', [two, s]), ('inside', [two, kids, two])):
            for order in ('depth', 'reverse'):
                out.append(('big-%s-%d-%s' % (nm, s, order), nm, Case('big-%s-%d-%s' % (nm, s, order), tree, dict(entries=e, order=order), witness=1)))
    return out


def many(h, shape, order):
    """Many objects or deep nesting."""
    from .large import Sparse
    from .c03 import full
    full(Sparse(h), shape, order)


def crowds(inside):
    shapes = [('kids', '1 (' + ' 1' * 300 + ') 2'), ('nested', '(' * 40 + '1' + ' 0)' * 40)] if inside else [('objects', ' '.join('0123'[i % 4] for i in range(300)))]
    return [Case('many-%s-%s' % (nm, o), many, dict(shape=s, order=o), witness=1, seconds=200) for nm, s in shapes for o in ('depth', 'breadth')]
