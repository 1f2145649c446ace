"""C27: a truncated simulation file loses at most its last event.

A file is built object by object and cut after any number of bytes behind its
header part.  The reference assembler is run on the objects that are complete."""
from . import sim
from .c25 import CALIB, open_sim, options, step
from .common import header
from .sim import Sim
from vf.h import Case

BOUNDS = ['files of up to 8 objects after the header part (quick), every kind of object, up to 2 telescopes, the listed orders and every choice of their optional objects',
          'cut-*: every cut after the header part, byte by byte, contents of objects are constants; quick, other cases: around the beginning, header and end of every object and a few inside (thorough: every byte)',
          'with and without skipping events']
OUTSIDE = ['files cut inside the header part (before all telescopes are described)', 'compressed files whose compressed data is cut',
           'objects with payload that no one reads']


def unused(warnings, ignored):
    """Warnings about something else than objects that are not handled."""
    return [w for w in warnings if not issubclass(w[0], ignored)]


def cuts(ends, first):
    """Around the beginning, header and end of every object, and a few inside."""
    out = set()
    for i in range(first, len(ends)):
        a, b = ends[i - 1], ends[i]
        out |= {a, a + 1, a + 4, a + 7, a + 15, a + 16, a + 17, a + 20, a + 28, a + 32, (a + b) // 2, b - 9, b - 1}
    return sorted(c for c in out if ends[first - 1] <= c <= ends[-1])


def run(h, s, part, parts, some, **kw):
    data, ends = s.bytes(), s.ends()
    lo = ends[s.n_head - 1]
    span = len(data) - lo
    a, b = lo + span * part // parts, lo + span * (part + 1) // parts - (0 if part == parts - 1 else 1)
    c = h.pick([x for x in cuts(ends, s.n_head) if a <= x <= b]) if some else h.range(a, b)
    whole = sum(1 for e in ends if e <= c)
    start = ends[whole - 1]
    opts = dict(dict(skip_non_triggered=False), **kw)
    r = s.reference(upto=whole, **opts)
    # an object no one reads goes unnoticed when it is cut after its header
    silent = c == start or (not s.parts[whole][2] and c >= start + 16)
    m = h.load('eventio.simtel.simtelfile')
    f = m.SimTelFile(h.file(data[:c]), **opts)
    n = len(unused(h.warnings, m.UnknownObjectWarning))
    h.eq(n, 0, 'warnings while the header part is read')
    got, how = sim.read_all(h, f, len(r.out) + 1)
    h.eq(how, 'stop', 'end of the iteration')
    sim.check_events(h, got, r.out)
    n = len(unused(h.warnings, m.UnknownObjectWarning))
    h.eq(n > 0, not silent, 'warned about the truncation')
    for _ in range(2):
        again, how = sim.read_all(h, f, 0)
        h.eq((len(again), how), (0, 'stop'), 'iterating again')
    sim.check_attributes(h, f, r, skip=('history',))
    sim.check_monitoring(h, f, r)


def sequence(h, seq, part, parts, mode, some, **kw):
    s = Sim(h, mode)
    s.head((1, 2))
    for n, k in enumerate(seq):
        if k == 'end':
            s.histograms()
        elif k == 'unknown':
            s.unknown()
        elif k == 'meta':
            s.meta(1)
        elif k == 'profile':
            s.profile()
        elif k == 'card':
            s.card()
        elif k == 'mcrun':
            s.mc_run()
        elif k == 'history':
            s.history('lc')
        else:
            step(s, k, n)
    run(h, s, part, parts, some, **kw)


def chosen(h, seq, part, parts, some, **kw):
    """Optional objects are marked with ?."""
    out = []
    for k in seq:
        if k.endswith('?'):
            if not h.bool():
                continue
            k = k[:-1]
        out.append(k)
    sequence(h, out, part, parts, 'all', some, **kw)


SEQUENCES = [
    ('shower', 'particles', 'event', 'data', 'pesum', 'array12', 'event', 'array1', 'end'),
    ('moni', 'laser', 'pixmon', 'pe', 'calib', 'calib2', 'shower', 'event', 'array2', 'shower', 'event'),
    ('bare', 'bare', 'moni', 'bare', 'shower', 'event', 'array0', 'end'),
    ('unknown', 'shower', 'unknown', 'event', 'unknown', 'array1', 'unknown'),
    ('meta', 'profile', 'card', 'mcrun', 'history', 'shower', 'event', 'history', 'array1', 'history', 'end'),
    ('calib', 'bare', 'pe', 'bare', 'calib', 'pe', 'calib2', 'end'),
]
CHOSEN = [
    ('shower', 'event', 'data?', 'pesum?', 'array1?', 'event', 'array1?'),
    ('pe?', 'calib', 'moni?', 'calib2', 'shower', 'event'),
]


def cases(tier):
    out = []
    deep = tier == 'thorough'
    for i, q in enumerate(SEQUENCES):
        for j in range(6):
            out.append(Case('cut-%d-%d' % (i, j), sequence, dict(seq=q, part=j, parts=6, mode='all', some=False), seconds=400, witness=3))
        for j in range(4):
            out.append(Case('cut-%d-free-%d' % (i, j), sequence, dict(seq=q[:5 if not deep else 9], part=j, parts=4, mode=False, some=not deep), seconds=400, witness=3))
        out.append(Case('cut-%d-skip' % i, sequence, dict(seq=q, part=i % 2, parts=2 if not deep else 1, mode='all', some=not deep, skip_non_triggered=True, skip_calibration=i % 2 == 0), seconds=400, witness=3))
    for i, q in enumerate(CHOSEN):
        for j in range(6):
            out.append(Case('chosen-%d-%d' % (i, j), chosen, dict(seq=q, part=j, parts=6, some=not deep), seconds=400, witness=3))
    return out
