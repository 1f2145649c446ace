"""C35: closing a file releases it, and nothing is read from it afterwards."""
from . import sim
from .c03 import make
from .c07 import open_
from .c28 import make as make_iact
from .common import Case
from .sim import Sim
from .tree import build, next_or

BOUNDS = ['every sequence of up to 3 (quick) or 4 steps (next, next sub-object, peek, read, seek, parse of what was obtained) before closing, files of up to 3 top-level objects, every header field and payload value',
          'plain files, gzip through a pipe, with the gzip module and without a gzip program, zstd', 'close, close twice, end of a with block, end of a with block by an exception',
          'EventIOFile, SimTelFile and IACTFile after any number of events', 'files refused on opening: every content of up to 8 bytes']
OUTSIDE = ['files dropped without closing them', 'the exit status of the child process']
STEPS = ('next', 'child', 'peek', 'read', 'seek', 'data')


class Boom(Exception):
    pass


def end(h, f, how):
    if how == 'close':
        f.close()
    elif how == 'twice':
        f.close()
        f.close()
    elif how == 'with':
        with f as g:
            h.check(g is f, 'a with block gives the file itself')
    elif how == 'inside':
        with f:
            f.close()
    else:
        b = Boom()
        try:
            with f:
                raise b
        except Boom as e:
            h.check(e is b, 'another exception')
        else:
            h.fail('the exception in the with block is lost')


def dead(h, what, fn, *a):
    """Reading gives an exception, not data and not an end of file."""
    r, e = h.attempt(fn, *a)
    h.check(isinstance(e, Exception) and not isinstance(e, StopIteration), '%s after closing: %r %r' % (what, r, e))


def closing(h, s, tr, how, steps, two=False):
    nodes = make(h, s)
    data = build(h, nodes)
    other = open_(h, data, 'plain') if two else None
    base = 1 if two else 0
    h.eq(h.open_handles(), base, 'open files')
    f = open_(h, data, tr)
    objs, peeked = [], False
    for _ in range(steps):
        op = h.pick(STEPS)
        if op == 'next':
            o, _ = next_or(h, f)
            peeked = False
            if o is not None:
                objs.append(o)
        elif op == 'child':
            h.assume(objs and objs[-1].only_subobjects)
            o, _ = next_or(h, objs[-1])
            if o is not None:
                objs.append(o)
        elif op == 'peek':
            peeked = f.peek() is not None
        elif op == 'read':
            f.read(h.pick((1, -1)))
        elif op == 'seek':
            h.attempt(f.seek, h.pick((0, 20)))
        else:
            h.assume(objs)
            h.attempt(objs[-1].read, 2)
    h.check(h.open_handles() > base, 'nothing is open')
    end(h, f, how)
    h.eq(h.open_handles(), base, 'files and pipes left open')
    dead(h, 'read', f.read, 1)
    dead(h, 'read', f.read)
    if peeked:
        o, e = next_or(h, f)
        h.check(o is not None, 'the object that was peeked at is lost: %r' % (e,))
        objs.append(o)
    dead(h, 'next', next, f)
    for o in objs:
        if o.only_subobjects:
            if o.header.content_size:
                dead(h, 'sub-object', next, o)
        else:
            dead(h, 'data', o.read, 1)
    h.eq(h.open_handles(), base, 'files and pipes open after closing')
    if two:
        for n in nodes:
            o = next(other)
            h.eq(o.header.id, n.id, 'object of the other file')
        other.close()
        h.eq(h.open_handles(), 0, 'files and pipes left open')


def refused(h, n, tr):
    b = h.bytes(n)
    kind, z = dict(plain=('plain', True), gzip=('gzip', True), module=('gzip', False), zstd=('zstd', True))[tr]
    if kind == 'plain' and n > 1:
        h.assume(h.Not(h.Or(h.And(b[0] == 0x1f, b[1] == 0x8b), h.And(b[0] == 0x28, b[1] == 0xb5))))
    ev = h.load('eventio')
    path = h.file(b, kind)
    f, e = h.attempt(ev.EventIOFile, path, z)
    if e is None:
        f.close()
    else:
        del e
    h.eq(h.open_handles(), 0, 'files and pipes left open')
    h.attempt(h.load('eventio.file_types').is_eventio, path)
    h.eq(h.open_handles(), 0, 'files and pipes left open by the check')


def events(h, what, tr, how):
    if what == 'sim':
        s = Sim(h, fixed='all')
        s.head((1,))
        s.shower()
        for _ in range(2):
            s.event()
            s.array((1,))
        data = s.bytes()
        cls = h.load('eventio.simtel.simtelfile').SimTelFile
    else:
        data = h.join([p.data for p in make_iact(h, 'none', [([((1, 'p', 0),)], 1, False), ([((1, 'e', 0),), ((2, 'p', 0),)], 1, False)]).parts])
        cls = h.load('eventio.iact').IACTFile
    path = h.file(data, 'plain' if tr == 'plain' else 'zstd' if tr == 'zstd' else 'gzip')
    f = cls(path) if tr != 'module' else cls(path, zcat=False)
    k = h.range(0, 3)
    it = iter(f)
    for _ in range(k):
        try:
            next(it)
        except StopIteration:
            h.assume(False)
    if h.bool():
        h.check(h.open_handles() > 0, 'nothing is open')
    end(h, f, how)
    h.eq(h.open_handles(), 0, 'files and pipes left open')
    # the other reuses of a shower have been read together with the first
    for i in range(2 if what == 'iact' and k == 2 else 1):
        try:
            more = next(it)
        except Exception:
            more = None
    h.check(more is None, 'an event after closing')
    h.eq(h.open_handles(), 0, 'files and pipes open after closing')


def cases(tier):
    out = []
    steps = 3 if tier == 'quick' else 4
    hows = ('close', 'twice', 'with', 'inside', 'raise')
    trs = ('plain', 'pipe', 'module', 'zstd', 'nobinary')
    i = 0
    for tr in trs:
        for k in range(steps + 1 if tr == 'plain' or tier != 'quick' else steps):
            for s in (('(2 1) 3', '(1 (2) 0) x2') if k else ('2', '')):
                how = hows[i % len(hows)]
                i += 1
                if not s and tr != 'plain':
                    continue
                out.append(Case('%s-%s-%d-%s' % (tr, how, k, s.replace(' ', '_')), closing, dict(s=s or '0', tr=tr, how=how, steps=k), witness=3))
        for how in hows:
            out.append(Case('%s-%s-other' % (tr, how), closing, dict(s='1 (2)', tr=tr, how=how, steps=1, two=True), witness=3))
    for tr in ('plain', 'gzip', 'module', 'zstd'):
        for n in (0, 3, 4, 8) if tr == 'plain' or tier != 'quick' else (3, 4):
            out.append(Case('refused-%s-%d' % (tr, n), refused, dict(n=n, tr=tr), witness=3))
    for what in ('sim', 'iact'):
        for j, tr in enumerate(('plain', 'pipe', 'zstd', 'module')):
            for how in hows[j % 2::2] if tier == 'quick' else hows:
                out.append(Case('%s-%s-%s' % (what, tr, how), events, dict(what=what, tr=tr, how=how), witness=3))
    return out
