"""Trees of objects: build the bytes of a file and know what is in it."""
from .common import SYNC, header

GENERIC = 7          # types that no class is registered for
GENERIC2 = 9
CONTAINERS = {2010: 'ArrayEvent', 1204: 'TelescopeData', 70: 'History', 2205: 'TelescopeEvent'}


class Node:
    """One object; payload is bytes or a list of nodes."""

    def __init__(self, h, type_=GENERIC, payload=b'', version=None, id_=None, user=False, ext=False, cls='EventIOObject'):
        self.type = type_
        self.version = h.int(12) if version is None else version
        self.id = h.int(32, True) if id_ is None else id_
        self.user = user
        self.ext = ext
        self.subs = payload if isinstance(payload, list) else None
        self.payload = None if self.subs is not None else payload
        self.cls = cls
        self.only = self.subs is not None

    def layout(self, pos, top):
        """Sets address and size; returns the position after the object."""
        self.start = pos
        self.header_size = (16 if top else 12) + (4 if self.ext else 0)
        self.top = top
        self.address = pos + self.header_size
        if self.subs is not None:
            p = self.address
            for s in self.subs:
                p = s.layout(p, False)
        else:
            p = self.address + len(self.payload)
        self.size = p - self.address
        self.end = p
        return p

    def emit(self, h):
        parts = [header(h, self.type, self.version, self.id, self.size, self.only, self.user, 0 if self.ext else None, self.top)]
        if self.subs is not None:
            parts += [s.emit(h) for s in self.subs]
        else:
            parts.append(self.payload)
        return h.join(parts)

    def header_ends(self):
        """(position after the header, node) of every object below, depth first."""
        yield self.address, self
        for s in self.subs or ():
            yield from s.header_ends()

    def walk(self, level=0):
        yield self, level
        for s in self.subs or ():
            yield from s.walk(level + 1)


def build(h, nodes):
    pos = 0
    for n in nodes:
        pos = n.layout(pos, True)
    return h.join([n.emit(h) for n in nodes])


def check_obj(h, o, n, msg='object', payload=None):
    """The object o is the stored node n."""
    h.eq(type(o).__name__, n.cls, msg + ' class')
    hd = o.header
    h.eq(hd.type, n.type, msg + ' type')
    h.eq(hd.version, n.version, msg + ' version')
    h.eq(hd.id, n.id, msg + ' id')
    h.eq(hd.user, n.user, msg + ' user flag')
    h.eq(hd.extended, n.ext, msg + ' extended flag')
    h.eq(hd.only_subobjects, n.only, msg + ' only_subobjects')
    h.eq(o.only_subobjects, n.only, msg + ' only_subobjects')
    h.eq(hd.content_size, n.size, msg + ' content_size')
    h.eq(o.size, n.size, msg + ' size')
    h.eq(hd.content_address, n.address, msg + ' content_address')
    h.eq(o.address, n.address, msg + ' address')
    h.eq(hd.header_size, n.header_size, msg + ' header_size')
    h.eq(hd.total_size, n.header_size + n.size, msg + ' total_size')


def data_of(h, n):
    return n.payload if n.subs is None else h.join([s.emit(h) for s in n.subs])


def check_payload(h, o, n, msg='object'):
    o.seek(0)
    h.eq(o.read(), data_of(h, n), msg + ' payload')
    h.eq(o.tell(), n.size, msg + ' position')


def next_or(h, it):
    """(object, None) or (None, how it ended)."""
    try:
        return next(it), None
    except StopIteration:
        return None, 'stop'
    except Exception as e:
        return None, e
