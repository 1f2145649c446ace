"""C38: readers do not influence each other, and results belong to the caller.

Two files (or one file opened twice) are read in turns, who is next being free;
each must give what it gives alone.  Results are compared at the very end, so
they must not have changed since they were returned."""
from vf.h import Case
from . import blocks, c28, sim
from .c25 import step
from .common import header
from .sim import Sim

BOUNDS = ['every data block of C12 to C22 and C29 next to another one of its kind in another file, all numbers free; dictionaries and lists returned first are emptied and arrays overwritten by the caller',
          'two simulation files of 3 to 4 events or two IACT files of up to 3 events, the same or different ones, every order of up to 6 steps, then each to its end',
          'two iterations of nested containers of two files, every order of 6 steps']
OUTSIDE = ['more than two readers', 'threads', 'two iterations over the same reader', 'structured arrays written to by the caller']


def spoil(x):
    """What a caller may do to a result."""
    if isinstance(x, dict):
        for k in list(x):
            spoil(x[k])
        x.clear()
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            spoil(v)
    elif hasattr(x, 'dtype') and getattr(x, 'shape', ()) and not x.dtype.names:
        try:
            x[...] = 0
        except ValueError:
            pass                 # read-only


def pair(h, spec_, one, two, order):
    ev = h.load('eventio')
    a, b = blocks.B(h, spec_, one), blocks.B(h, spec_, two)
    fa = ev.EventIOFile(h.file(h.join([header(h, 7, 0, 5, 3), h.bytes(3), a.emit()])))
    fb = ev.EventIOFile(h.file(h.join([b.emit(), header(h, 9, 0, 1, 0)])))
    next(fa)
    if order:
        q = next(fb)
        o = next(fa)
    else:
        o = next(fa)
        q = next(fb)
    got = o.parse(**a.kw)
    other = q.parse(**b.kw)
    a.verify(got, 'after another file was parsed')
    spoil(got)
    b.verify(other, 'after the results of another file were changed')
    a.verify(o.parse(**a.kw), 'after the first result was changed')


def turns(h, files, limits, n):
    """Reads the files in turns, then each to the end; the results and how each ended."""
    got, how = [[], []], [None, None]

    def one(i):
        if how[i] is None:
            try:
                got[i].append(next(files[i]))
            except StopIteration:
                how[i] = 'stop'
    for _ in range(n):
        one(1 if h.bool() else 0)
    for i in (0, 1):
        for _ in range(limits[i] + 1):
            one(i)
    return got, how


LONG = ['shower', 'particles', 'event', 'data', 'array12', 'event', 'pesum', 'shower', 'moni', 'laser', 'event', 'array1']
OTHER = ['moni', 'moni2', 'pe', 'calib', 'shower', 'event', 'array2', 'pixmon', 'moni', 'shower', 'event', 'array12']
PLAIN = ['shower', 'event', 'event', 'array2']


def simfile(h, seq, tels, salt, metas=()):
    s = Sim(h, 'all')
    s.salt = salt
    if salt:
        s.history('l')
        s.meta(-1)
        s.card()
    else:
        s.profile()
    for t in metas:
        s.meta(t)
    s.head(tels)
    if not salt:
        s.mc_run()
    for n, k in enumerate(seq):
        step(s, k, n)
    s.histograms()
    return s


def simulations(h, one, two, n, same, late):
    m = h.load('eventio.simtel.simtelfile')
    a = simfile(h, one, (1, 2), 0, (1, 3))
    b = a if same else simfile(h, two, (2,), 50000, (2,))
    pa = h.file(a.bytes())
    pb = pa if same else h.file(b.bytes())
    f = m.SimTelFile(pa, skip_non_triggered=False)
    refs = [s.reference() for s in (a, b)]
    first = []
    if late:
        # the second file is opened when the first is half read
        first = [next(f), next(f)]
    g = m.SimTelFile(pb, skip_non_triggered=False)
    got, how = turns(h, (f, g), [len(r.out) for r in refs], n)
    got[0] = first + got[0]
    for i, (x, r) in enumerate(zip((f, g), refs)):
        h.eq(how[i], 'stop', 'end of file %d' % i)
        sim.check_events(h, got[i], r.out)
        sim.check_attributes(h, x, r)
        sim.check_monitoring(h, x, r)


def showers(h, one, two, n, same):
    iact = h.load('eventio.iact')
    a = c28.make(h, 'some', one, True, extras=('lp', 'p'))
    b = a if same else c28.make(h, 'some', two, False, n=1, extras=('', 'l'))
    pa = h.file(h.join([p.data for p in a.parts]))
    pb = pa if same else h.file(h.join([p.data for p in b.parts]))
    fs = [iact.IACTFile(pa), iact.IACTFile(pb)]
    want = [c28.expected(s.parts) for s in (a, b)]
    got, how = turns(h, [iter(f) for f in fs], [len(w[1]) for w in want], n)
    for i, (f, (at, events, _, _)) in enumerate(zip(fs, want)):
        h.eq(how[i], 'stop', 'end of file %d' % i)
        c28.compare_events(h, got[i], events)
        for k, v in at.items():
            h.eq(getattr(f, k), v, k)


def nested(h, n):
    """Containers of two files, their members read in turns."""
    ev = h.load('eventio')
    data, want, its, keep = [], [], [], []
    for i in range(2):
        ids = [h.int(32, True) for _ in range(3)]
        texts = [h.bytes(j + i) for j in range(3)]
        inner = h.join([x for j in range(3) for x in (header(h, 7, 1, ids[j], j + i, top=False), texts[j])])
        keep.append(ev.EventIOFile(h.file(h.join([header(h, 2010 + i, 0, 5, len(inner), sub=True), inner]))))
        its.append(next(keep[-1]))
        want.append(list(zip(ids, texts)))
    got, how = turns(h, its, [3, 3], n)
    for i in (0, 1):
        h.eq(how[i], 'stop', 'end of container %d' % i)
        h.eq(len(got[i]), 3, 'members')
        for o, (id_, text) in zip(got[i], want[i]):
            h.eq(o.header.id, id_, 'id')
            h.eq(o.read(), text, 'payload')


def cases(tier):
    out = []
    for prop in sorted(blocks.SPECS):
        for s in blocks.SPECS[prop]:
            vs = list(s.cases())
            for i, ((nm, v), (nb, w)) in enumerate(zip(vs, vs[1:] + vs[:1])):
                if tier == 'quick' and len(vs) > 3 and i % 3 or s.heavy and i % 6:
                    continue
                out.append(Case('%s+%s' % (nm, nb[len(s.name):]), pair, dict(spec_=s, one=v, two=w, order=i % 2), witness=1, seconds=150))
    n = 5 if tier == 'quick' else 8
    for i, (a, b) in enumerate(((LONG, OTHER), (OTHER, LONG), (PLAIN, OTHER), (OTHER, PLAIN))):
        for late in (False, True):
            out.append(Case('simulations-%d-%d' % (i, late), simulations, dict(one=a, two=b, n=n, same=False, late=late), witness=2, seconds=200))
    for i, a in enumerate((LONG, OTHER)):
        out.append(Case('same-simulation-%d' % i, simulations, dict(one=a, two=None, n=n, same=True, late=False), witness=2, seconds=200))
    S = [[(c28.TWO, 1, False), (c28.ONE, 0, False)], [(c28.ONE, 0, True), (c28.TWO, 1, False)], [(c28.SPLIT, 1, True)]]
    for i in range(3):
        out.append(Case('showers-%d' % i, showers, dict(one=S[i], two=S[(i + 1) % 3], n=n, same=False), witness=2, seconds=200))
        out.append(Case('same-showers-%d' % i, showers, dict(one=S[i], two=None, n=n, same=True), witness=2, seconds=200))
    out.append(Case('nested', nested, dict(n=6 if tier == 'quick' else 9), witness=2))
    return out
