"""C40: every object can be described."""
from vf.h import Case
from . import c28
from .common import SYNC, header
from .spec import REGISTERED, S, tel_of_type, tracking_id

BOUNDS = ['every registered type, among the telescope events and tracking positions those of 15 telescopes; every id, version and flag, payload of 16 bytes with any contents; every unregistered type number', 'CORSIKA files of up to two showers of up to three reuses']
OUTSIDE = ['telescope ids above 16383 in tracking positions', 'the photon numbers in the description of an event']

TELESCOPE = ('CameraSettings', 'CameraOrganization', 'PixelSettings', 'DisabledPixels', 'CameraSoftwareSettings', 'PointingCorrection', 'DriveSettings',
             'TelescopeEventHeader', 'PixelTiming', 'PixelTriggerTimes', 'LaserCalibration', 'PixelMonitoring')
EVENT = ('EventHeader', 'EventEnd', 'MCEvent', 'MCPhotoelectronSum', 'TriggerInformation', 'ArrayEvent')


def described(h, t, name, id_, version):
    """What is said in brackets: a list of texts and numbers, or None for the class name and type alone."""
    bits = id_ & 0xffffffff
    if name == 'HistoryMeta':
        return ['(global)'] if id_ == -1 else ['(telescope_id=', id_, ')']
    if t in (2000,):
        return ['(run_id=', id_, ')']
    if name == 'MCShower':
        return ['(shower_id=', id_, ')']
    if name in EVENT:
        return ['(event_id=', id_, ')']
    if name in TELESCOPE:
        return ['(telescope_id=', id_, ')']
    if name in ('TelescopeEvent', 'TrackingPosition'):
        return ['(telescope_id=', tel_of_type(t, 2200 if name == 'TelescopeEvent' else 2100), ')']
    if name == 'TelescopeData':
        return ['(event_id=', id_, ')']
    if name == 'CalibrationPhotoelectrons':
        return ['(type=', id_, ')']
    if name in ('ADCSums', 'ADCSamples'):
        return ['(telescope_id=', h.ite(h.And(name == 'ADCSums', version <= 1), (bits >> 25) & 31, (bits >> 12) & 0xffff), ')']
    if name in ('ImageParameters', 'CameraMonitoring'):
        return ['(telescope_id=', (bits & 0xff) | ((bits & 0x3f000000) >> 16), ')']
    if name == 'StereoReconstruction':
        return ['(result_bits=', (bits, '012b'), ')']
    if name == 'PixelList':
        code = id_ // 1000000
        return ['(telescope_id=', id_ % 1000000, ', code=', code, ', kind=', 'triggered' if code == 0 else 'selected' if code == 1 else 'unknown', ')']
    if name == 'CalibrationEvent':
        return ['(type=', id_, ')']
    if name == 'PhotoElectrons':
        return ['(array_id=', id_ // 1000, ', telescope_id=', id_ % 1000, ')']
    return []


def check(h, t, name, read):
    id_ = h.int(32, True) if name != 'TrackingPosition' else tracking_id(t)
    version = h.int(12)
    payload = h.bytes(16)
    sub = h.bool()
    ext = h.bool()
    f = h.load('eventio').EventIOFile(h.file(h.join([header(h, 7, 0, 5, 3), h.bytes(3), header(h, t, version, id_, 16, sub=sub, ext=0 if ext else None), payload, header(h, 9, 0, 1, 0)])))
    next(f)
    o = next(f)
    address = 19 + (20 if ext else 16)
    if read:
        o.read(3)
        f.peek()
    for again in range(2):
        if name == 'Photons':
            n = h.signed32(sum(payload[8 + i] << (8 * i) for i in range(4)))
            array, tel = id_ // 1000, id_ % 1000
            if h.And(array == 999, tel == 999):
                want = ['ObservationLevelParticles(n_particles=', n, ')']
            else:
                want = [name, '[%d]' % t, '(array_id=', array, ', telescope_id=', tel, ', n_bunches=', n, ')']
        else:
            want = [name, '[%d]' % t] + described(h, t, name, id_, version)
        if name == 'StereoReconstruction' and not h.And(id_ >= 0, id_ < 4096):
            str(o)  # however such bits are shown
        else:
            h.text_is(str(o), want, 'str')
            h.text_is('{}'.format(o), want, 'formatted')
        h.text_is(repr(o), [name, '[%d]' % t, '(size=16, only_subobjects=%s, address=%d)' % (bool(sub), address)], 'repr')
        if again == 0:
            h.eq(o.read(), payload[payload_start(name) + 3 * read:], 'the rest of the payload')
    o = next(f)
    h.text_is(str(o), ['EventIOObject[9]'], 'the next object')


def counted(h):
    n = h.int(32, True)
    f = h.load('eventio').EventIOFile(h.file(h.join([header(h, 1201, 0, h.int(32, True), 8), h.le(n, 4), h.bytes(4)])))
    o = next(f)
    if n >= 0:
        h.eq(o.__len__(), n, 'number of telescopes')


def payload_start(name):
    return 12 if name == 'Photons' else 4 if name == 'TelescopeDefinition' else 0


def iact(h, showers):
    """An opened CORSIKA file and its events."""
    s = c28.make(h, 'some', showers)
    path = h.file(s.bytes())
    f = h.load('eventio.iact').IACTFile(path)
    want = ['IACTFile(\n  path=', str(path), '\n  n_telescopes=2\n)']
    h.text_is(repr(f), want, 'file')
    _, events, _, _ = c28.expected(s.parts)
    for e, w in zip(f, events):
        h.text_is(repr(e), ['Event(event_number=', w['event_number'], ', reuse=%d, n_telescopes=%d, n_photons={' % (w['reuse'], len(w['n_bunches']))], 'event', True)
        h.text_is(str(f), want, 'file')


def unknown(h, lo, hi):
    t = h.int(16)
    keys = sorted(REGISTERED)
    h.assume(h.And(t >= lo, t < hi))
    f = h.load('eventio').EventIOFile(h.file(h.join([header(h, t, 0, h.int(32, True), 1), h.bytes(1)])))
    o = next(f)
    h.text_is(str(o), ['EventIOObject[', t, ']'], 'str')
    h.text_is(repr(o), ['EventIOObject[', t, '](size=1, only_subobjects=False, address=16)'], 'repr')


def cases(tier):
    out = []
    tels = [x for n in (0, 1, 5, 42, 99, 100, 123, 199, 200, 255, 256, 500, 700, 998, 999) for x in (2200 + n % 100 + 1000 * (n // 100), 2100 + n % 100 + 1000 * (n // 100))]
    for t in sorted(k for k in REGISTERED if REGISTERED[k][1] not in ('TelescopeEvent', 'TrackingPosition')) + tels:
        for read in (False, True):
            out.append(Case('%s-%d-%d' % (REGISTERED[t][1], t, read), check, dict(t=t, name=REGISTERED[t][1], read=read), witness=1))
    keys = sorted(REGISTERED)
    gaps = [(a + 1, b) for a, b in zip([-1] + keys, keys + [65536]) if b - a > 1]
    for a, b in gaps:
        out.append(Case('unknown-%d' % a, unknown, dict(lo=a, hi=b), witness=1))
    out.append(Case('len', counted, {}, witness=2))
    o, t, r, sp = c28.ONE, c28.TWO, c28.THREE, c28.SPLIT
    for i, x in enumerate(([], [(o, 1, False)], [(t, 1, False), (o, 0, False)], [(r, 0, False)], [(sp, 1, True), (t, 1, False)])):
        out.append(Case('iact-%d' % i, iact, dict(showers=x), witness=1))
    return out
