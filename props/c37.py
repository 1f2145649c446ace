"""C37: a simulation file is not cut short or thinned out in silence."""
from . import sim
from .c25 import open_sim, options, step
from .common import SYNC
from .sim import Sim
from .spec import REGISTERED, tracking_id
from vf.h import Case

BOUNDS = ['up to 3 objects (quick; 4 thorough) of any kind after the header part, after a shower and after an event, with objects SimTelFile does not use at any place between them, '
          'three types of these (and every one in single places), and unexpected members of calibration photo-electrons; wrong markers and versions of 14 kinds of objects; cut at any byte of the last object or complete']
OUTSIDE = ['objects inside array events, telescope events and photo-electron containers of shower events', 'what the text says besides the type number']

UNUSED = (7, 2017, 1206)


def expected(h, unused, cut, partly=0):
    """Exactly one warning for each unused object (up to partly more when the last object is incomplete), and one for the cut."""
    m = h.load('eventio.simtel.simtelfile')
    skipped = [w for w in h.warnings if issubclass(w[0], m.UnknownObjectWarning)]
    others = [w for w in h.warnings if not issubclass(w[0], m.UnknownObjectWarning)]
    h.check(len(unused) <= len(skipped) <= len(unused) + partly, '%d warnings about %d objects which are not used' % (len(skipped), len(unused)))
    for (_, text), t in zip(skipped, unused):
        h.check(h.says(text, '[%d]' % t), 'warning about an object of type %d: %s' % (t, text))
    h.check(len(others) in ((0, 1) if cut is None else (1,) if cut else (0,)), '%d other warnings' % len(others))


def history(h, prefix, n, cut):
    s = Sim(h, 'all')
    s.head()
    state, unused = [], []
    t = h.pick(UNUSED)
    before, last = 0, 'head'
    for i in range(len(prefix) + n):
        first = cut and not state and not unused
        known = options(state) + ('calib?', 'pe?')
        k = prefix[i] if i < len(prefix) else h.pick((('end',) if not first else ()) + ('unused',) + known)
        if k == 'end':
            break
        before, last = len(unused), k
        if k == 'unused':
            s.unknown(t)
            unused.append(t)
        elif k == 'pe?':
            s.calib_pe(items=[('?', t), ('1', 1), ('?', t)])
            unused += [t, t]
        elif k == 'calib?':
            s.calib_pe_unknown()
            unused.append(7)
        else:
            step(s, k, len(state))
            state.append(k)
    data = s.bytes()
    partly = 0
    if cut:
        # the last object is incomplete
        obj = s.parts.pop()[0]
        whole = len(data)
        at = h.pick([x for x in (1, 11, 12, 15, 16, 17, len(obj) - 1) if x < len(obj)])
        data = data[:whole - len(obj) + at]
        partly = len(unused) - before
        # an object no one reads goes unnoticed when it is cut behind its header
        cut = None if last.endswith('?') else last != 'unused' or at < 16
        unused = unused[:before]
    m = h.load('eventio.simtel.simtelfile')
    f = m.SimTelFile(h.file(data), skip_non_triggered=False)
    got, how = sim.read_all(h, f, 12)
    h.eq(how, 'stop', 'end of the iteration')
    expected(h, unused, cut, partly)


def types(h, place, lo, hi):
    """Any type of object that has no meaning at the top level of a simulation file."""
    s = Sim(h, 'all')
    if lo is None:
        t = h.pick(hi)
    else:
        t = h.int(16)
        h.assume(h.And(t >= lo, t < hi))
    id_ = tracking_id(t) if lo is None and REGISTERED[t][1] == 'TrackingPosition' else None
    add = {'calibration': lambda: s.calibration((1,)), 'shower': s.shower, 'event': s.event, 'array': lambda: s.array((1,))}
    if place == 'first':
        s.unknown(t, id_, 16)
    s.head()
    n = 0
    for k in ('calibration', 'shower', 'event', 'array'):
        if k == place:
            s.unknown(t, id_, 16)
        add[k]()
    if place == 'last':
        s.unknown(t, id_, 16)
    s.histograms()
    m = h.load('eventio.simtel.simtelfile')
    f = m.SimTelFile(h.file(s.bytes()), skip_non_triggered=False)
    got, how = sim.read_all(h, f, 12)
    h.eq(how, 'stop', 'end of the iteration')
    h.eq(len(got), 2, 'events')
    skipped = [w for w in h.warnings if issubclass(w[0], m.UnknownObjectWarning)]
    h.eq(len(h.warnings), 1, 'warnings')
    h.eq(len(skipped), 1, 'warnings about unused objects')
    h.check(lo is not None or h.says(skipped[0][1], '[%d]' % t), 'the warning names the type')


def broken(h, kind, what, place):
    """An object whose marker or version is wrong is neither passed over nor taken for the end of the file."""
    s = Sim(h, 'all')
    if place == 'head':
        s.run_header(1)
        s.profile()
    else:
        s.head()
        for k in ('bare', 'moni', 'shower', 'event', 'array1') if place == 'array' else ('shower', 'event'):
            step(s, k, 0)
    at = len(s.parts)
    if kind == 'unused':
        s.unknown(7)
    elif kind == 'card':
        s.card()
    elif kind == 'mc_run':
        s.mc_run()
    elif kind == 'histograms':
        s.histograms()
    elif kind == 'camera_settings':
        s.description('camera_settings', 1)
    else:
        step(s, kind, 0)
    d = s.parts[at][0]
    if what == 'version':
        v = h.int(12)
        h.assume(v > 6)
        d = h.join([d[:6], h.le(d[6] & 15 | v * 16, 2), d[8:]])
        error = NotImplementedError
    else:
        m = h.bytes(4)
        h.assume(h.Not(h.Or(h.cond(m, SYNC), h.cond(m, SYNC[::-1]))))
        d = h.join([m, d[4:]])
        error = ValueError
    content = h.join([p[0] for p in s.parts[:at]] + [d] + [p[0] for p in s.parts[at + 1:]])
    m = h.load('eventio.simtel.simtelfile')
    try:
        f = m.SimTelFile(h.file(content), skip_non_triggered=False)
    except Exception as e:
        h.check(place == 'head' and isinstance(e, error), 'opening: %r' % (e,))
        return
    h.check(place != 'head', 'opened')
    got, how = sim.read_all(h, f, 12)
    h.check(isinstance(how, error), 'end of the iteration: %r instead of %s' % (how, error.__name__))
    sim.check_events(h, got, s.reference(at, end=False).out)


# what SimTelFile makes use of
USED = ('History', 'HistoryMeta', 'Histograms', 'InputCard', 'AtmosphericProfile', 'RunHeader', 'MCRunHeader', 'CameraSettings', 'CameraOrganization', 'PixelSettings',
        'DisabledPixels', 'CameraSoftwareSettings', 'DriveSettings', 'PointingCorrection', 'PixelMonitoring', 'CameraMonitoring', 'LaserCalibration', 'CalibrationEvent',
        'CalibrationPhotoelectrons', 'MCShower', 'MCEvent', 'MCPhotoelectronSum', 'TelescopeData', 'Photons', 'ArrayEvent')


def cases(tier):
    out = []
    ts = [t for t in sorted(REGISTERED) if (REGISTERED[t][1] not in USED or t == 1200) and (t < 2100 or t in (2100, 2101, 2150, 2199, 2200, 2201, 2299, 3100, 3299, 11100, 11299))]
    for k in ('first', 'calibration', 'shower', 'event', 'array', 'last'):
        for i in range(4):
            out.append(Case('types-%s-%d' % (k, i), types, dict(place=k, lo=None, hi=ts[i::4]), seconds=200, witness=2))
        out.append(Case('types-%s-other' % k, types, dict(place=k, lo=11300, hi=65536), witness=2))
        out.append(Case('types-%s-small' % k, types, dict(place=k, lo=0, hi=70), witness=2))
    n = 2 if tier == 'quick' else 3
    for p in ((), ('shower',), ('shower', 'event'), ('shower', 'event', 'array1')):
        for cut in (False, True):
            out.append(Case('history-%s-%d' % ('.'.join(p), cut), history, dict(prefix=p, n=n, cut=cut), seconds=300, witness=2))
    for place, kinds in (('head', ('card', 'camera_settings', 'unused')), ('event', ('moni', 'laser', 'pixmon', 'pesum', 'event', 'shower', 'histograms', 'mc_run', 'camera_settings', 'unused')),
                         ('array', ('moni', 'calib', 'bare', 'shower', 'event', 'data', 'unused', 'histograms'))):
        for k in kinds:
            out.append(Case('broken-marker-%s-%s' % (place, k), broken, dict(kind=k, what='marker', place=place), witness=1))
            if k not in ('card', 'unused', 'calib', 'bare', 'data'):
                out.append(Case('broken-version-%s-%s' % (place, k), broken, dict(kind=k, what='version', place=place), witness=1))
    return out
