"""C28: IACT events are assembled per shower and reuse.

A file is built object by object; a shower is a header, the array offsets,
optional longitudinal and particle blocks, the photon bunches of every reuse
(normal or split mode) and an end block.  What an order of objects means is
decided by a small reference parser (expected)."""
from .sim import unknown
from .common import Rec, header, take
from .sim import Fixed, blk
from vf.h import Case

BOUNDS = ['up to 3 showers, 3 reuses, 3 telescopes with up to 2 bunches each, normal and split mode (also mixed), every choice of the optional objects',
          'every value of the array offsets, weights, event numbers, photon bunches and run end in the cases -free; all blocks in the cases all-*',
          'objects out of order: every object of a file left out, doubled, exchanged with its neighbour or replaced by another one', 'every cut between and inside the objects of the listed files',
          'reading again after a complete or partial iteration, on plain files and with the gzip module']
OUTSIDE = ['files whose blocks belong to different showers in the right order', 'reading again on forward-only transports (zcat, zstd)', 'several longitudinal blocks of a shower', '0 reuses', 'two iterators over one file at the same time',
           'objects of the header part or photons of a telescope between array offsets and telescope data, particles among the photons of a split shower']

SMALL = dict(iact_run_header=dict(cv=7.75, part=0), iact_event_header=dict(cv=7.75, part=0), iact_event_end=dict(cv=7.8), iact_run_end={}, telescope_definition=dict(n=2),
             longitudinal=dict(np_=1, nt=2), observation_level_particles=dict(compact=0, n=1), array_offsets=dict(version=1, n=1))


class Part:
    def __init__(self, kind, data, want=None, **kw):
        self.kind, self.data, self.want = kind, data, want
        self.__dict__.update(kw)


class File:
    def __init__(self, h, free, cv=7.75):
        """free: 'none', 'some' (what differs between events) or 'all'; cv: the CORSIKA version of the headers"""
        self.h = h
        self.cv = cv
        self.fixed = h if free == 'all' else Fixed(h)
        self.some = self.fixed if free == 'none' else h
        self.parts = []

    def block(self, h, name, top=True, **kw):
        if isinstance(h, Fixed):
            h._n += 1000
        b = blk(h, name, **dict(SMALL.get(name, {}), **kw))
        return b, b.emit(top=top)

    def add(self, kind, data, want=None, **kw):
        self.parts.append(Part(kind, data, want, **kw))

    def single(self, kind, name, h=None, **kw):
        b, d = self.block(h or self.fixed, name, **kw)
        self.add(kind, d, b.want)

    def start(self, n=2, profile=False):
        self.single('RunHeader', 'iact_run_header', cv=self.cv)
        self.single('InputCard', 'input_card', lens=(2,))
        if profile:
            self.single('AtmosphericProfile', 'atmospheric_profile')
        self.single('TelescopeDefinition', 'telescope_definition', n=n)

    def photons(self, array, tel, kinds, compact, top):
        b, d = self.block(self.some, 'photons', id=1000 * array + tel, tel=tel, kinds=kinds, compact=compact, top=top)
        return d, (tel, b.want[0], b.want[1], b.attrs['n_photons'], b.attrs['n_bunches'])

    def shower(self, reuses, version=1, split=False, extras='', end=True):
        """reuses: for every reuse the list of (telescope, kinds, compact)."""
        h = self.some
        self.single('EventHeader', 'iact_event_header', h, cv=self.cv)
        self.single('ArrayOffsets', 'array_offsets', h, version=version, n=len(reuses))
        self.parts[-1].version = version
        for e in extras:
            if e == 'l':
                self.single('Longitudinal', 'longitudinal')
            elif e == 'p':
                self.single('Particles', 'observation_level_particles')
            elif e == 'u':
                self.unknown()
        for i, tels in enumerate(reuses):
            if split:
                self.marker('TelescopeArrayHead', 1213, i)
                for t in tels:
                    d, w = self.photons(i, *t, top=True)
                    self.add('Photons', d, w)
                self.marker('TelescopeArrayEnd', 1214, i)
            else:
                ps = [self.photons(i, *t, top=False) for t in tels]
                p = self.h.join([d for d, _ in ps])
                self.add('TelescopeData', self.h.join([header(self.h, 1204, 0, i, len(p), sub=True), p]), [w for _, w in ps])
        if end:
            self.single('EventEnd', 'iact_event_end', h, cv=self.cv)

    def marker(self, kind, type_, i):
        h = self.fixed
        p = h.bytes(4)
        self.add(kind, self.h.join([header(self.h, type_, 0, i, len(p)), p]))

    def unknown(self):
        self.add('Unknown', unknown(self.h, 7, True))

    def finish(self):
        self.single('RunEnd', 'iact_run_end', self.some)

    def bytes(self):
        return self.h.join([p.data for p in self.parts])


class Wrong(Exception):
    """The objects are not in the required order."""


class Short(Exception):
    """No more objects."""


def expected(parts):
    """Attributes, events and how it ends ('stop', 'type', 'short'); and whether that happens in the header part."""
    it = iter(parts)
    at, events = {}, []

    def get(*kinds):
        try:
            p = next(it)
        except StopIteration:
            raise Short
        if kinds and p.kind not in kinds:
            raise Wrong
        return p
    try:
        at['header'] = get('RunHeader').want
        at['input_card'] = get('InputCard').want
        p = get('AtmosphericProfile', 'TelescopeDefinition')
        at['atmospheric_profile'] = None
        if p.kind == 'AtmosphericProfile':
            at['atmospheric_profile'] = p.want
            p = get('TelescopeDefinition')
        at['telescope_positions'] = p.want
        at['n_telescopes'] = p.want.n
    except (Wrong, Short) as e:
        return at, [], 'type' if isinstance(e, Wrong) else 'short', True
    try:
        while True:
            p = get('EventHeader', 'RunEnd')
            if p.kind == 'RunEnd':
                at['run_end'] = p.want
                return at, events, 'stop', False
            head = p.want
            p = get('ArrayOffsets')
            t, offsets = p.want
            longi = particles = None
            while True:
                p = get('Longitudinal', 'Particles', 'Unknown', 'TelescopeData', 'TelescopeArrayHead')
                if p.kind == 'Longitudinal':
                    longi = p.want
                elif p.kind == 'Particles':
                    particles = p.want
                elif p.kind != 'Unknown':
                    break
            split = p.kind == 'TelescopeArrayHead'
            reuses = []
            for i in range(offsets.n):
                if i:
                    p = get('TelescopeArrayHead' if split else 'TelescopeData')
                photons = p.want
                if split:
                    photons = []
                    while True:
                        p = get('Photons', 'TelescopeArrayEnd')
                        if p.kind == 'TelescopeArrayEnd':
                            break
                        photons.append(p.want)
                e = dict(header=head, longitudinal=longi, particles=particles, time_offset=t, event_number=head.fields['event_number'], reuse=i + 1,
                         photon_bunches={}, emitter={}, n_photons={}, n_bunches={},
                         reuse_weight=offsets.fields['weight'][i] if 'weight' in offsets.fields else 1.0,
                         impact_x=-offsets.fields['x'][i], impact_y=-offsets.fields['y'][i])
                for tel, ph, em, np_, nb in photons:
                    e['photon_bunches'][tel] = ph
                    e['emitter'][tel] = em
                    e['n_photons'][tel] = np_
                    e['n_bunches'][tel] = nb
                reuses.append(e)
            p = get('EventEnd')
            for e in reuses:
                events.append(dict(e, end=p.want))
    except (Wrong, Short) as e:
        return at, events, 'type' if isinstance(e, Wrong) else 'short', False


def compare_events(h, got, want, m=''):
    h.eq(len(got), len(want), m + 'number of events')
    for i, (g, w) in enumerate(zip(got, want)):
        for k, v in w.items():
            h.eq(getattr(g, k), v, '%sevent %d: %s' % (m, i, k))
        h.eq(sorted(g._fields), sorted(w), '%sevent %d: fields' % (m, i))


def check(h, parts, data=None, again=None, **kw):
    iact = h.load('eventio.iact')
    exc = h.load('eventio.exceptions')
    at, events, how, early = expected(parts)
    path = h.file(h.join([p.data for p in parts]) if data is None else data, kw.pop('kind', 'plain'))
    f, e = h.attempt(iact.IACTFile, path, **kw)
    if early:
        h.check(isinstance(e, exc.WrongType) if how == 'type' else isinstance(e, (EOFError, StopIteration)), 'opening a file that is %s: %r' % (how, e))
        return
    h.check(e is None, 'opening the file: %r' % (e,))

    def attributes():
        for k, v in at.items():
            if k != 'run_end':
                h.eq(getattr(f, k), v, k)
    attributes()
    for i, n in enumerate(again or (None,)):
        if n is not None:
            it = iter(f)
            got = [next(it) for _ in range(n)]
            compare_events(h, got, events[:n], 'pass %d ' % i)
            if n == 1:
                f.peek()
            continue
        got, end = take(f, len(events))
        compare_events(h, got, events, 'pass %d ' % i)
        if how == 'stop':
            h.eq(end, 'stop', 'end of the iteration')
            h.eq(f.run_end, at['run_end'], 'run end')
        elif how == 'type':
            h.check(isinstance(end, (exc.WrongType, ValueError)), 'objects out of order: %r' % (end,))
        else:
            h.check(isinstance(end, Exception), 'a truncated file: %r' % (end,))
    attributes()


ONE = [((1, 'p', 0),)]
TWO = [((1, 'p', 0), (2, 'e', 0)), ((2, 'pe', 1),)]
THREE = [((0, '', 0),), (), ((1005, 'pp', 0), (5, 'p', 1), (1, 'ep', 0), (0, 'p', 1))]
SPLIT = [((0, 'p', 0), (1, 'e', 0)), ((1, 'p', 1),), ()]


def make(h, free, showers, profile=False, n=2, extras=('',), cv=7.75):
    s = File(h, free, cv)
    s.start(n, profile)
    for i, (reuses, version, split) in enumerate(showers):
        s.shower(reuses, version, split, extras[i % len(extras)])
    s.finish()
    return s


def whole(h, free, showers, extras, again=None, cv=7.75, **kw):
    # every choice of the optional objects
    ex = [''.join(x for x in e if h.bool()) for e in extras]
    s = make(h, free, showers, bool(extras[0]) and h.bool(), extras=ex, cv=cv)
    check(h, s.parts, again=again, **kw)


def order(h, showers, how, part, parts):
    s = make(h, 'none', showers, True, extras=('l', 'pu'))
    ps = list(s.parts)
    i = h.pick([k for k in range(len(ps)) if k % parts == part])
    if how == 'drop':
        del ps[i]
    elif how == 'double':
        ps.insert(i, ps[i])
    elif how == 'swap':
        if i + 1 < len(ps):
            ps[i], ps[i + 1] = ps[i + 1], ps[i]
    elif how == 'end':
        del ps[i + 1:]
    elif how == 'move':
        # an object of one place at another
        j = h.pick(range(len(ps)))
        ps[i] = ps[j]
    for a, b in zip(ps, ps[1:]):
        # objects of the header part, or the end of an array, before the telescope data
        if (a.kind in ('ArrayOffsets', 'Longitudinal', 'Particles', 'Unknown')
                and b.kind in ('TelescopeArrayEnd', 'RunHeader', 'InputCard', 'AtmosphericProfile', 'TelescopeDefinition')):
            return
        # particles among the photons
        if a.kind in ('TelescopeArrayHead', 'Photons') and b.kind == 'Particles':
            return
    check(h, ps)


def cut(h, showers, part, parts):
    s = make(h, 'none', showers, False, extras=('l', 'p'))
    data = s.bytes()
    ends, n = [], 0
    for p in s.parts:
        n += len(p.data)
        ends.append(n)
    ok = sorted({x for a, b in zip([0] + ends, ends) for x in (a, a + 1, a + 4, a + 15, a + 16, a + 17, a + 20, a + 28, (a + b) // 2, b - 1) if 4 <= x < n})
    c = h.pick([x for k, x in enumerate(ok) if k % parts == part])
    keep = [p for p, e in zip(s.parts, ends) if e <= c]
    check(h, keep, data[:c])


def large(h, showers, n, version=1):
    check(h, make(h, 'none', showers, n=n).parts)


def cases(tier):
    out = []
    deep = tier == 'thorough'
    S = [[(ONE, 1, False)], [(TWO, 1, False), (ONE, 0, False)], [(THREE, 0, False)], [(SPLIT, 1, True)], [(ONE, 0, True), (TWO, 1, False), (ONE, 1, True)], [],
         [(TWO, 0, True), (SPLIT, 1, True)], [(ONE, 1, False), (ONE, 1, False), (THREE, 1, False)]]
    for i, x in enumerate(S):
        for j, ex in enumerate((('lp', 'p'), ('pul', 'l'))):
            out.append(Case('whole-%d-%d-free' % (i, j), whole, dict(free='some', showers=x, extras=ex), seconds=200, witness=2))
            out.append(Case('whole-%d-%d' % (i, j), whole, dict(free='none', showers=x, extras=ex, again=(None, None)), seconds=200, witness=2))
        if i in (1, 3, 4):
            for cv in (6.5, 7.3, 7.41, 7.8):
                out.append(Case('version-%d-%s' % (i, cv), whole, dict(free='some', showers=x, extras=('',), cv=cv), seconds=200, witness=2))
        if len(x) == 1:
            out.append(Case('all-%d' % i, whole, dict(free='all', showers=x, extras=('l',)), seconds=200, witness=2))
        for kind, z in (('gzip', False), ('plain', True), ('zstd', True), ('gzip', True)):
            n = sum(len(r) for r, _, _ in x)
            again = (None,) if z and kind != 'plain' else tuple(k for k in (n, 1, 2, 0) if k <= n) + (None,)
            out.append(Case('again-%d-%s-%d' % (i, kind, z), whole, dict(free='none', showers=x, extras=('',), again=again, kind=kind, zcat=z), seconds=200, witness=2))
        if x and (i in (1, 3, 4) or deep):
            for how in ('drop', 'double', 'swap', 'end'):
                out.append(Case('order-%s-%d' % (how, i), order, dict(showers=x, how=how, part=0, parts=1), seconds=200, witness=4))
            for p in range(4):
                out.append(Case('order-move-%d-%d' % (i, p), order, dict(showers=x, how='move', part=p, parts=4), seconds=400, witness=4))
            for p in range(3):
                out.append(Case('cut-%d-%d' % (i, p), cut, dict(showers=x, part=p, parts=3), seconds=200, witness=4))
    p = (((1, 'p', 0),),)
    for nm, showers, n in (('reuses', [(p * 300, 1, False)], 2), ('reuses-split', [(p * 140, 0, True)], 2), ('telescopes', [((tuple((t, 'p', t % 2) for t in range(300)),) * 2, 1, False)], 300),
                           ('showers', [(p, 1, bool(i % 2)) for i in range(140)], 2)):
        out.append(Case('large-' + nm, large, dict(showers=showers, n=n), seconds=300, witness=1))
    return out
