"""C26: event selection drops exactly the unwanted events.

The same files as in C25, read with every combination of the selection options."""
from . import sim
from .c25 import CALIB, options, step
from .sim import Sim
from vf.h import Case

BOUNDS = ['all sequences of up to 2 objects (quick; 3 thorough) after a header part, a shower and an event, and the listed longer ones with every choice of their optional objects',
          'both skip options, no restriction and every restriction to a set of the telescopes 1, 2, 5 (given as list, tuple or set)',
          'array events of up to 3 telescopes with and without tracking positions, trigger information of versions 0 to 3; every event id; contents free in the cases array-*']
OUTSIDE = ['restrictions to other than 3 telescopes', 'trigger information that lists other telescopes than the event has']

ALLOWED = [None, (1,), (2,), (5,), (1, 2), (1, 5), (2, 5), (1, 2, 5)]


def make_allowed(h, a, i):
    if a is None:
        return [None, [], (), set()][i % 4]
    return [list, tuple, set, frozenset][i % 4](a)


def compare(h, s, allowed, snt, sc, kind=0):
    m = h.load('eventio.simtel.simtelfile')
    kw = dict(skip_calibration=sc)
    if not (snt and kind % 2):
        # the default is to skip events that are not triggered
        kw['skip_non_triggered'] = snt
    if not (allowed is None and kind % 3 == 1):
        kw['allowed_telescopes'] = make_allowed(h, allowed, kind)
    r = s.reference(skip_non_triggered=snt, skip_calibration=sc, allowed=allowed)
    f = m.SimTelFile(h.file(s.bytes()), **kw)
    got, how = sim.read_all(h, f, len(r.out))
    h.eq(how, 'stop', 'end of the iteration')
    sim.check_events(h, got, r.out)
    sim.check_attributes(h, f, r)
    sim.check_monitoring(h, f, r)


def history(h, prefix, n, kinds):
    s = Sim(h, 'all')
    s.head((1, 2))
    state = []
    for k in prefix:
        step(s, k, len(state))
        state.append(k)
    for _ in range(n):
        k = h.pick(('end',) + options(state))
        if k == 'end':
            break
        step(s, k, len(state))
        state.append(k)
    i = h.pick(kinds)
    compare(h, s, ALLOWED[i], h.bool(), h.bool(), i)


def sequence(h, seq, allowed, snt, sc, kind):
    s = Sim(h, 'all')
    s.head((1, 2))
    for n, k in enumerate(seq):
        if k.endswith('?'):
            if not h.bool():
                continue
            k = k[:-1]
        step(s, k, n)
    compare(h, s, allowed, snt, sc, kind)


def array(h, tels, where, trigger, i, free):
    """One array event with free contents, with or without tracking positions for each telescope."""
    s = Sim(h, not free)
    s.head((1,))
    s.moni(tels[0] if tels else 1, 3)
    s.pixmon(2)
    allowed = ALLOWED[i]
    # extra positions of telescopes without data, missing ones of telescopes with data
    track = tuple(t for t in (5, 2, 1) if h.bool())
    kw = dict(track=track, stereo=True, trigger=trigger, subs=('sums',) if free else ())
    if where == 'data':
        s.shower()
        s.event()
        s.data((('p', 1), ('1', 2), ('e', 5)))
        s.array(tels, **kw)
    elif where == 'bare':
        s.bare_calibration(tels, **kw)
    else:
        s.calibration(tels, **kw)
    kept = set(tels) if allowed is None else set(tels) & set(allowed)
    if kept - set(track):
        m = h.load('eventio.simtel.simtelfile')
        f = m.SimTelFile(h.file(s.bytes()), allowed_telescopes=allowed)
        got, e = h.attempt(next, f)
        h.check(isinstance(e, m.NoTrackingPositions), 'missing tracking positions: %r %r' % (got, e))
        return
    compare(h, s, allowed, h.bool(), h.bool(), i)


SEQUENCES = [
    ('shower', 'event', 'array1?', 'event', 'array12?', 'event', 'array0', 'event', 'array2', 'shower', 'event'),
    ('moni', 'pe', 'calib', 'bare?', 'calib2?', 'shower', 'particles', 'event', 'array2?', 'event', 'data', 'pesum'),
    ('bare', 'calib2', 'bare?', 'laser', 'pixmon', 'calib', 'shower', 'event', 'array1?', 'event', 'array2'),
]


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for j, prefix in enumerate([()] + [(k,) for k in CALIB if k not in ('moni', 'moni2', 'laser', 'pixmon')] + [('shower', 'event'), ('shower', 'event', 'array2', 'event'), ('calib', 'shower', 'event')]):
        for p in range(4):
            kinds = [k for k in range(8) if k % 4 == p]
            if not deep:
                kinds = [k for k in kinds if j % 2 == (k // 4) or k in (0, 1, 5)]
            out.append(Case('history-%s-%d' % ('.'.join(prefix), p), history, dict(prefix=prefix, n=3 if deep else 2, kinds=kinds), seconds=400, witness=2))
    for i, q in enumerate(SEQUENCES):
        for k, a in enumerate(ALLOWED):
            for snt in (False, True):
                for sc in (False, True):
                    out.append(Case('sequence-%d-%s-%d%d' % (i, 'all' if a is None else '.'.join(map(str, a)), snt, sc), sequence, dict(seq=q, allowed=a, snt=snt, sc=sc, kind=k + i), seconds=300, witness=2))
    n = 0
    for tels in ((), (1,), (2, 1), (1, 2, 5)):
        for where in ('data', 'bare', 'calib'):
            for i in range(8):
                n += 1
                if deep or n % 2 or tels == (2, 1):
                    out.append(Case('array-%s-%s-%d' % ('.'.join(map(str, tels)), where, i), array, dict(tels=tels, where=where, trigger=(2, 0, 3, 1, 2)[n % 5], i=i, free=n % 4 == 1), seconds=300, witness=2))
    return out
