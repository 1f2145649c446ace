"""C25: simulated events are assembled from the right objects.

A file is built object by object; which object comes next, which telescopes and
optional parts it has and everything it contains are free.  All events are
collected first and compared afterwards with what the reference assembler
(sim.Ref) makes of the same objects, so objects read later must not have
changed an event returned before."""
import itertools
from . import sim
from .sim import DESCRIPTIONS, Sim
from .common import header
from vf.h import Case

BOUNDS = ['large-*: files of 150 to 300 showers, events, monitoring objects or telescopes with constant contents',
          'all sequences of up to 3 objects (quick; 4 to 5 thorough) after the header part, after a shower and after an event, whatever kind of object comes next, 2 telescopes',
          'longer fixed sequences (3 showers, reuse, calibration events) with every combination of their optional objects',
          'every combination of the optional parts of a telescope event, in several orders; up to 2 telescopes described, in several orders',
          'every id (32 bits) of events, every field of every object, small numbers of pixels']
OUTSIDE = ['more than 3 showers or 8 events, and telescopes other than 0, 1, 2, 7, 123, 999, except in the large-* files', 'objects after the histograms']

CALIB = ('moni', 'moni2', 'laser', 'pixmon', 'pe', 'calib', 'calib2', 'bare', 'shower')


def options(state):
    """What may come next: state is the list of kinds so far."""
    if 'shower' not in state:
        return CALIB
    last = len(state) - 1 - state[::-1].index('shower')
    tail = state[last + 1:]
    out = ['shower', 'event', 'moni', 'laser', 'pixmon']
    if not tail:
        out.append('particles')
    if 'event' in tail:
        now = tail[len(tail) - tail[::-1].index('event'):]
        if not any(k.startswith('array') for k in now):
            out += ['array1', 'array2', 'array12', 'array0']
            if 'pesum' not in now:
                out.append('pesum')
            if 'data' not in now and 'pesum' not in now:
                out.append('data')
    return tuple(out)


def step(s, k, n):
    """Appends an object of kind k."""
    if k == 'moni':
        s.moni(1 + n % 2, 1 if n % 3 else 3)
    elif k == 'moni2':
        s.moni(2, 1)
    elif k == 'laser':
        s.laser(1, n % 2)
    elif k == 'pixmon':
        s.pixmon(2 - n % 2, 1 + n % 3)
    elif k == 'pe':
        s.calib_pe((1, 2) if n % 2 else (2,))
    elif k == 'calib':
        s.calibration((1, 2))
    elif k == 'calib2':
        s.calibration((2,), kind=n)
    elif k == 'bare':
        s.bare_calibration((1,))
    elif k == 'shower':
        s.shower()
    elif k == 'particles':
        s.particles()
    elif k == 'particles0':
        s.particles(n=0)
    elif k == 'event':
        s.event()
    elif k == 'array1':
        s.array((1,), stereo=True)
    elif k == 'array2':
        s.array((2,), track=(1, 2), subs=('sums',))
    elif k == 'array12':
        s.array((1, 2), subs={1: ('samples',), 2: ('list3',)})
    elif k == 'array0':
        s.array(())
    elif k == 'pesum':
        s.pesum()
    elif k == 'data':
        s.data((('p', 1), ('1', 2)) if n % 2 else (('e', 2), ('0', 1), ('1', 1), ('E', 3)))


def open_sim(h, s, **kw):
    m = h.load('eventio.simtel.simtelfile')
    return m.SimTelFile(h.file(s.bytes()), **dict(dict(skip_non_triggered=False), **kw))


def compare(h, s):
    r = s.reference()
    f = open_sim(h, s)
    got, how = sim.read_all(h, f, len(r.out))
    h.eq(how, 'stop', 'end of the iteration')
    sim.check_events(h, got, r.out)
    sim.check_attributes(h, f, r)
    sim.check_monitoring(h, f, r)


def history(h, prefix, n):
    s = Sim(h, 'all')
    s.head()
    state = []
    for k in prefix:
        step(s, k, len(state))
        state.append(k)
    for _ in range(n):
        k = h.pick(('end',) + options(state))
        if k == 'end':
            break
        step(s, k, len(state))
        state.append(k)
    compare(h, s)


def sequence(h, seq, end=True, fixed=True):
    """A sequence of kinds; those with ? are optional."""
    s = Sim(h, fixed)
    s.head((1, 2) if len(seq) % 2 else (1,))
    for n, k in enumerate(seq):
        if k.endswith('?'):
            if not fixed or not h.bool():
                continue
            k = k[:-1]
        step(s, k, n)
    if end:
        s.histograms()
    compare(h, s)


def head(h, tels, order, extra):
    """Descriptions, metadata and run information."""
    s = Sim(h)
    more = [('history', lambda: s.history('lc')), ('global', lambda: s.meta(-1)), ('meta', lambda: s.meta(tels[-1]))] if 'h' in extra else []
    for _, f in more:
        if h.bool():
            f()
    if order != 'late':
        s.run_header(len(tels))
    rest = []
    if 'r' in extra:
        rest += [s.mc_run, s.card, s.profile]
    if 'm' in extra:
        rest += [lambda: s.meta(tels[0]), lambda: s.moni(tels[0], 3), lambda: s.laser(tels[-1]), lambda: s.history('c')]
    for f in rest:
        if h.bool():
            f()
    names = DESCRIPTIONS if order != 'reversed' else DESCRIPTIONS[::-1]
    if order == 'by-type':
        todo = [(d, t) for d in names for t in tels]
    elif order == 'rotated':
        todo = [(names[(i + j) % 7], t) for i in range(7) for j, t in enumerate(tels)]
    else:
        todo = [(d, t) for t in tels for d in names]
    for d, t in todo:
        s.description(d, t)
    if order == 'late':
        s.run_header(len(tels))
    s.n_head = len(s.parts)
    if 'a' in extra:
        # after the header part
        for f in (lambda: s.history('l'), lambda: s.meta(tels[0]), lambda: s.meta(-1), s.mc_run, s.card, s.profile,
                  lambda: s.description(DESCRIPTIONS[2], tels[-1])):
            if h.bool():
                f()
    r = s.reference(upto=s.n_head, end=False)
    f = open_sim(h, s)
    sim.check_attributes(h, f, r)
    sim.check_monitoring(h, f, r)
    got, how = sim.read_all(h, f, 0)
    h.eq((len(got), how), (0, 'stop'), 'events')
    sim.check_attributes(h, f, s.reference())


SUBS = ('samples', 'sums', 'timing', 'image', 'list1', 'times', 'digital3', 'analog4', 'list2', 'unknown')


def telescope_event(h, tel, order, fixed, free):
    s = Sim(h)
    s.head()
    s.shower()
    s.event()
    subs = [x for x in order if x in fixed or (x in free and h.bool())]
    s.array((tel,), subs=tuple(subs))
    compare(h, s)


def array_event(h, tels, track, order, stereo, zero, trigger, kind):
    s = Sim(h)
    s.head()
    s.moni(1)
    s.laser(7)
    kw = dict(track=track, order=order, stereo=stereo, trig_zero=zero, trigger=trigger)
    if kind == 'data':
        s.shower()
        s.event()
        s.array(tels, **kw)
    elif kind == 'bare':
        s.bare_calibration(tels, **kw)
    else:
        s.calib_pe(tels)
        s.calibration(tels, **kw)
    compare(h, s)


def tel_data(h, items, array):
    s = Sim(h)
    s.head()
    s.shower()
    s.event()
    s.data(items, array)
    compare(h, s)


def ignored(h, where, types):
    """Objects nothing is known about change nothing, wherever they are."""
    s = Sim(h)
    t = h.pick(types)
    if where == 'head':
        s.unknown(t)
    s.head()
    s.moni(1)
    if where == 'calibration':
        s.calib_pe(items=[('?', t), ('1', 1), ('?', t), ('1', 2)])
        s.calibration((1,))
        if h.bool():
            s.calib_pe_unknown()
        s.calibration((1,))
        s.calib_pe(items=[('?', t)])
        s.calib_pe_unknown()
        s.calibration((1,))
    if where == 'between':
        s.unknown(t)
    s.shower()
    if where == 'between':
        s.unknown(t)
    s.event()
    if where == 'between' and h.bool():
        s.unknown(t)
    s.data([('?', t), ('p', 1), ('?', t), ('1', 2)] if where == 'data' else [('p', 1)])
    if where == 'between':
        s.unknown(t)
    s.array((1, 2), order='unknown' if where == 'array' else 'te', subs=('unknown%d' % t, 'sums', 'unknown%d' % t) if where == 'telescope' else ('sums',))
    s.event()
    if where == 'between':
        s.unknown(t)
    compare(h, s)


SEQUENCES = [
    ('shower', 'particles0', 'event', 'array1?', 'event', 'particles?', 'shower', 'particles', 'event'),
    ('shower', 'particles?', 'event', 'data?', 'pesum?', 'array1?', 'shower', 'particles?', 'event', 'data?', 'array12?'),
    ('shower', 'event', 'array1?', 'event', 'moni?', 'array12', 'event', 'pixmon?', 'laser?', 'array2', 'shower', 'event'),
    ('moni?', 'pe?', 'calib', 'moni?', 'pe?', 'calib2', 'shower', 'event', 'laser?', 'array12'),
    ('bare', 'moni?', 'bare', 'pixmon?', 'bare', 'shower?'),
    ('shower', 'particles', 'event', 'array1', 'shower', 'event', 'array1', 'shower', 'particles?', 'event', 'array2?'),
    ('shower', 'event', 'data', 'event', 'pesum', 'event', 'array1', 'event', 'data?', 'pesum?', 'array0'),
    ('shower', 'shower', 'particles', 'shower?', 'event', 'moni', 'laser', 'pixmon', 'array12', 'moni?', 'laser?', 'pixmon?', 'event', 'array12'),
    ('pe', 'pe?', 'calib', 'calib2', 'pe?', 'bare?', 'calib', 'shower?'),
]


def large(h, what, n):
    s = Sim(h, 'all')
    if what == 'events':
        s.head((1, 2))
        for i in range(n):
            step(s, ('shower', 'event', 'array12', 'event', 'array1', 'moni', 'calib')[i % 7], i)
    elif what == 'showers':
        s.head()
        for i in range(n):
            s.shower()
            s.event()
            s.array((1,))
    elif what == 'reuses':
        s.head()
        s.shower()
        s.particles()
        for i in range(n):
            s.event()
            s.array((1,))
    elif what == 'monitoring':
        s.head()
        for i in range(n):
            s.moni(i)
            s.laser(n - 1 - i)
            s.pixmon(i)
        s.shower()
        s.event()
        s.array((1,))
        s.moni(n // 2)
    elif what == 'telescopes':
        tels = tuple(range(n))
        s.head(tels)
        s.meta(n - 2)
        s.shower()
        s.event()
        s.data([('p', t) for t in tels])
        s.array(tels, subs={0: ('sums',), 256: ('samples', 'list1'), n - 1: ('image',)})
        s.event()
        s.array((n - 1, 2, 130))
    s.histograms()
    compare(h, s)


def cases(tier):
    out = []
    deep = tier == 'thorough'
    n = 4 if deep else 3
    for k in CALIB:
        if k != 'shower':
            out.append(Case('history-%s' % k, history, dict(prefix=(k,), n=n - (not deep and k in ('moni', 'moni2', 'laser', 'pixmon'))), seconds=400, witness=2))
    for where in ('head', 'between', 'data', 'array', 'telescope', 'calibration'):
        out.append(Case('ignored-' + where, ignored, dict(where=where, types=(7, 2017, 1206)), witness=3))
    for k in options(['shower']):
        out.append(Case('history-shower-%s' % k, history, dict(prefix=('shower', k), n=n - (k != 'event')), seconds=400, witness=2))
    for k in options(['shower', 'event']):
        out.append(Case('history-shower-event-%s' % k, history, dict(prefix=('shower', 'event', k), n=n), seconds=400, witness=2))
    for i, q in enumerate(SEQUENCES):
        for end in (True, False):
            out.append(Case('sequence-%d-%d' % (i, end), sequence, dict(seq=q, end=end), seconds=300, witness=2))
        out.append(Case('sequence-%d-free' % i, sequence, dict(seq=q, fixed=False), seconds=300, witness=2))
    for tels, order, extra in (((1,), 'by-tel', 'h'), ((1, 2), 'by-tel', 'h'), ((2, 1), 'by-type', 'r'), ((7, 123), 'rotated', 'm'), ((0, 999), 'reversed', 'h'), ((1, 2), 'late', 'r'),
                               ((3,), 'by-type', 'a'), ((1, 2), 'by-tel', 'a'), ((1,), 'late', 'm'), ((), 'late', 'r'), ((1, 2, 3, 4, 900), 'by-tel', ''), ((5, 4, 6, 8), 'rotated', ''), ((5, 4, 6, 8), 'late', '')):
        out.append(Case('head-%s-%s-%s' % ('.'.join(map(str, tels)), order, extra), head, dict(tels=tels, order=order, extra=extra), seconds=200, witness=2))
    for i, order in enumerate((SUBS, SUBS[::-1], SUBS[5:] + SUBS[:5])):
        for j, (fixed, free) in enumerate((((), SUBS[:5]), ((), SUBS[5:]), (SUBS[:5], SUBS[5:]), (SUBS[5:], SUBS[:5]), (SUBS[::2], SUBS[1::2]))):
            out.append(Case('telescope-event-%d-%d' % (i, j), telescope_event, dict(tel=(1, 123, 0)[i], order=order, fixed=fixed, free=free), seconds=200, witness=2))
    for i, (tels, track, order, stereo, zero, trigger) in enumerate((
            ((1,), (1,), 'te', 0, 0, 2), ((1, 7), (1, 7), 'te', 1, 0, 3), ((7, 1), (1, 2, 7), 'et', 1, 1, 2), ((), (1, 2), 'te', 0, 0, 2), ((), (), 'te', 1, 0, 1), ((123, 999, 0), (0, 123, 999), 'mixed', 0, 1, 1),
            ((1,), (1, 2), 'mixed', 1, 0, 0), ((1, 2), (2, 1), 'et', 0, 1, 0))):
        for kind in ('data', 'bare', 'calib'):
            out.append(Case('array-event-%d-%s' % (i, kind), array_event, dict(tels=tels, track=track, order=order, stereo=stereo, zero=zero, trigger=trigger, kind=kind), witness=2))
    for i, (items, array) in enumerate([
            ((('p', 1),), 0), ((('1', 1), ('p', 1), ('p', 2)), 3), ((('e', 1), ('e', 2), ('1', 2)), 0), ((), 1), ((('0', 1), ('e', 998), ('1', 0)), 2)]):
        out.append(Case('telescope-data-%d' % i, tel_data, dict(items=items, array=array), witness=2))
    out += [Case('large-%s' % w, large, dict(what=w, n=n), seconds=300, witness=1) for w, n in (('events', 280), ('showers', 150), ('reuses', 270), ('monitoring', 300), ('telescopes', 300))]
    return out
