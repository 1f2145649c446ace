"""C06: parsing does not depend on what was done before."""
from . import blocks
from .common import Case, header, take

BOUNDS = ['every data block of C12 to C22 and C29, every listed version and size, every value of every field',
          'two objects of the same type with independent contents; before the first parse one of: nothing, read of 1 to 5 bytes, read to the end, seek to the start, end or middle, '
          'a file seek to the start of the file, advancing the iteration, a read after a seek on the other object; each object parsed up to three times, interleaved']
OUTSIDE = ['longer histories', 'forward-only transports']

ACTIONS = ['none', 'read', 'readall', 'seek', 'end', 'file', 'other', 'other-parse', 'file-read']


class Again:
    """Takes the decisions about what a block contains once; the second block makes the same ones."""

    def __init__(self, h, seen=None):
        self.h, self.seen, self.again, self.i = h, [] if seen is None else seen, seen is not None, 0

    def __getattr__(self, name):
        return getattr(self.h, name)

    def bool(self):
        if self.again:
            self.i += 1
            return self.seen[self.i - 1]
        v = True if self.h.bool() else False
        self.seen.append(v)
        return v

    def range(self, lo, hi):
        return self.concrete_(lambda: self.h.range(lo, hi))

    def concrete_(self, f):
        if self.again:
            self.i += 1
            return self.seen[self.i - 1]
        self.seen.append(f())
        return self.seen[-1]

    def concrete(self, x):
        if self.again:
            self.i += 1
            self.h.assume(x == self.seen[self.i - 1])
            return self.seen[self.i - 1]
        v = self.h.concrete(x)
        self.seen.append(v)
        return v


def act(h, a, f, o, p, kw, ref):
    if a == 'read':
        o.read(h.pick([1, 3]))
    elif a == 'readall':
        o.read()
    elif a == 'seek':
        o.seek(h.pick([0, 2]))
    elif a == 'end':
        o.seek(0, 2)
    elif a == 'file':
        f.seek(0)
    elif a == 'file-read':
        f.seek(2)
        f.read(5)
    elif a == 'other':
        p.seek(1)
        p.read(2)
    elif a == 'other-parse':
        h.same(p.parse(**kw), ref, 'second object first')


def run(h, spec_, variant, actions, kind='plain'):
    hh = Again(h)
    b1 = blocks.B(hh, spec_, variant)
    b2 = blocks.B(Again(h, hh.seen), spec_, variant)
    if kind == 'gzip':
        h.no_gzip()
    ev = h.load('eventio')
    # what a freshly opened object with nothing else going on gives
    f1, f2 = ev.EventIOFile(h.file(b1.emit())), ev.EventIOFile(h.file(b2.emit()))
    r1, r2 = next(f1).parse(**b1.kw), next(f2).parse(**b1.kw)
    data = h.join([header(h, 7, 0, 5, 1), h.bytes(1), b1.emit(), b2.emit(), header(h, 9, 0, 77, 0)])
    f = ev.EventIOFile(h.file(data, kind))
    next(f)
    o = next(f)
    p = next(f)
    a = h.pick(actions)
    act(h, a, f, o, p, b1.kw, r2)
    h.same(o.parse(**b1.kw), r1, 'after %s' % a)
    h.same(o.parse(**b1.kw), r1, 'again after %s' % a)
    h.same(p.parse(**b1.kw), r2, 'the other object after %s' % a)
    h.same(o.parse(**b1.kw), r1, 'third time after %s' % a)
    rest, end = take(f, 3)
    h.eq([x.header.id for x in rest], [77], 'objects left')
    h.eq(end, 'stop', 'end')


def cases(tier):
    out = []
    for prop in sorted(blocks.SPECS):
        for s in blocks.SPECS[prop]:
            vs = list(s.cases())
            for i, (nm, v) in enumerate(vs):
                if tier == 'quick' and len(vs) > 4 and i % 2 and i != 1:
                    continue
                if tier == 'quick':
                    acts = ['none', 'read', 'other-parse'] if i % 3 else ACTIONS
                    if s.heavy:
                        acts = ['none', 'read'] if i % 3 else ['other', 'end', 'other-parse']
                else:
                    acts = ACTIONS
                out.append(Case(nm, run, dict(spec_=s, variant=v, actions=acts, kind=['plain', 'plain', 'gzip'][i % 3]), witness=3))
    return out
