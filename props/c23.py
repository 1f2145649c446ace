"""C23: telescope ids, object types and object ids."""
from vf.h import Case
from .common import header
from .spec import REGISTERED

BOUNDS = ['every telescope id 0 to 999 and every pair of them; every object id (32 bits; not negative where ids are read digit by digit)']
OUTSIDE = ['telescope ids of 1000 and more', 'negative ids of pixel lists and photon objects']

S = 'eventio.simtel.objects'


def spec_type(base, tel):
    return base + tel % 100 + 1000 * (tel // 100)


def telid(h, name=None):
    t = h.int(10)
    h.assume(t < 1000)
    return t


def mapping(h, other):
    """Types of any two telescopes, events and tracking positions."""
    m = h.load(S)
    a, b = telid(h), telid(h)
    for cls, base in ((m.TelescopeEvent, 2200), (m.TrackingPosition, 2100)):
        t = cls.telid_to_type(a)
        h.eq(t, spec_type(base, a), 'type')
        h.eq(cls.type_to_telid(t), a, 'telescope id of the type')
    first, second = {'events': (m.TelescopeEvent, m.TelescopeEvent), 'positions': (m.TrackingPosition, m.TrackingPosition),
                     'both': (m.TelescopeEvent, m.TrackingPosition)}[other]
    ta, tb = first.telid_to_type(a), second.telid_to_type(b)
    if other != 'both':
        h.assume(a != b)
    h.check(ta != tb, 'two telescopes share a type')
    h.eq(m.TrackingPosition.id_to_telid((a & 0xff) | ((a & 0x3f00) << 16)), a, 'telescope id of the object id')


def head(h, type_, id_, version=0, length=0):
    base = h.load('eventio.base')
    from .common import stream_of
    s = stream_of(h, header(h, type_, version, id_, length, top=False))
    return base.read_header(s, offset=0), s


def event(h):
    m = h.load(S)
    t, i = telid(h), h.int(32, True)
    o = m.TelescopeEvent(*head(h, spec_type(2200, t), i))
    h.eq(o.telescope_id, t, 'telescope_id')
    h.eq(o.global_count, i, 'global_count')


def position(h):
    m = h.load(S)
    t, i = telid(h), h.int(32, True)
    hd = head(h, spec_type(2100, t), i)
    tel = (i & 0xff) | ((i & 0x3f000000) >> 16)
    try:
        o = m.TrackingPosition(*hd)
    except ValueError:
        h.check(tel != t, 'a tracking position whose type and id agree is refused')
        return
    h.check(tel == t, 'a tracking position whose type and id disagree is accepted')
    h.eq(o.telescope_id, t, 'telescope_id')
    h.eq(o.has_raw, h.Not((i & 0x100) == 0), 'has_raw')
    h.eq(o.has_cor, h.Not((i & 0x200) == 0), 'has_cor')


def opened(h, base, lo, place):
    """A file with the object of a telescope is opened as the right class."""
    n = 40
    k = h.int(6)
    h.assume(k < n)
    t = lo + h.concrete(k)
    i = (t & 0xff) | ((t & 0x3f00) << 16)
    flags = h.int(2)
    inner = header(h, spec_type(base, t), 0, i | (flags << 8), 0, top=False)
    ev = h.load('eventio')
    if place == 'top':
        o = next(ev.EventIOFile(h.file(header(h, spec_type(base, t), 0, i | (flags << 8), 0))))
    else:
        f = ev.EventIOFile(h.file(h.join([header(h, 2010, 0, 3, len(inner), sub=True), inner])))
        o = next(next(f))
    h.eq(type(o).__name__, 'TelescopeEvent' if base == 2200 else 'TrackingPosition', 'class')
    h.eq(o.telescope_id, t, 'telescope_id')
    if place == 'inside':
        h.eq(str(o), '%s[%d](telescope_id=%d)' % (type(o).__name__, spec_type(2200, t), t) if base == 2200 else
             '%s[%d](telescope_id=%d)' % (type(o).__name__, spec_type(2100, t), t), 'str')


def mismatch(h, lo):
    """Refused also when read from a file."""
    ev = h.load('eventio')
    k = h.int(4)
    t = lo + h.concrete(k)
    i = h.int(32, True)
    h.assume(((i & 0xff) | ((i & 0x3f000000) >> 16)) != t)
    f = ev.EventIOFile(h.file(header(h, spec_type(2100, t), 0, i, 0)))
    e = h.raises(next, f)
    h.check(isinstance(e, ValueError), 'a tracking position whose type and id disagree must be refused, got %r' % (e,))


def bits(i):
    return (i & 0xff) | ((i & 0x3f000000) >> 16)


# what the objects report about any id: name -> function of id (signed) and version
IDS = {}
for _t in (2002, 2003, 2004, 2005, 2006, 2007, 2008, 2011, 2016, 2023, 2032, 2033):
    IDS[_t] = dict(telescope_id=lambda h, i, v: i)
for _t in (2014, 2022):
    IDS[_t] = dict(telescope_id=lambda h, i, v: bits(i))
IDS[2009] = dict(global_count=lambda h, i, v: i)
IDS[2010] = dict(event_id=lambda h, i, v: i)
IDS[2012] = dict(telescope_id=lambda h, i, v: h.ite(v <= 1, (i >> 25) & 0x1f, (i >> 12) & 0xffff))
IDS[2013] = dict(telescope_id=lambda h, i, v: (i >> 12) & 0xffff)
IDS[2028] = dict(type=lambda h, i, v: i)
IDS[2000] = dict(run_id=lambda h, i, v: i)
DIGITS = {2027: dict(telescope_id=lambda h, i, v: i % 1000000, code=lambda h, i, v: i // 1000000)}
for _t in (1205, 1208):
    DIGITS[_t] = dict(telescope_id=lambda h, i, v: i % 1000, array_id=lambda h, i, v: i // 1000)


def ids(h, type_):
    ev = h.load('eventio')
    fields = IDS.get(type_) or DIGITS[type_]
    i, v = h.int(32, True), h.int(12)
    if type_ in DIGITS:
        h.assume(i >= 0)
    data = h.bytes(40)
    o = next(ev.EventIOFile(h.file(h.join([header(h, type_, v, i, 40), data]))))
    h.eq(type(o).__name__, REGISTERED[type_][1], 'class')
    for k, f in fields.items():
        h.eq(getattr(o, k), f(h, i, v), k)


def text(h, type_):
    """The text form names the telescope."""
    ev = h.load('eventio')
    t = h.concrete(h.range(0, 30)) * 33
    i = {2012: t << 12, 2013: t << 12, 2027: 1000000 + t, 1208: 7000 + t}.get(type_)
    if i is None:
        i = (t & 0xff) | ((t & 0x3f00) << 16) | (1 << 8) if type_ in (2014, 2022) else t
    v = h.pick([2, 3])
    if type_ == 1208:
        h.assume(t < 1000)
    o = next(ev.EventIOFile(h.file(h.join([header(h, type_, v, i, 40), h.bytes(40)]))))
    n = REGISTERED[type_][1]
    want = '%s[%d](telescope_id=%d)' % (n, type_, t)
    if type_ == 2013:
        want = '%s[%d](telescope_id=%d)' % (n, type_, t)
    elif type_ == 2027:
        want = '%s[%d](telescope_id=%d, code=1, kind=selected)' % (n, type_, t)
    elif type_ == 1208:
        want = '%s[%d](array_id=7, telescope_id=%d)' % (n, type_, t)
    h.eq(str(o), want, 'str')


def cases(tier):
    out = [Case('mapping-' + o, mapping, dict(other=o), witness=3) for o in ('events', 'positions', 'both')]
    out += [Case('event', event, witness=3), Case('position', position, witness=3)]
    for base in (2100, 2200):
        for lo in range(0, 1000, 40):
            for place in ('top', 'inside') if tier == 'thorough' or lo % 200 == 0 else ('inside',):
                out.append(Case('opened-%d-%d-%s' % (base, lo, place), opened, dict(base=base, lo=lo, place=place), witness=2))
    for lo in (0, 90, 250, 500, 984) if tier == 'quick' else range(0, 992, 16):
        out.append(Case('mismatch-%d' % lo, mismatch, dict(lo=lo), witness=2))
    for t in sorted(IDS) + sorted(DIGITS):
        out.append(Case('ids-%d' % t, ids, dict(type_=t), witness=4))
    for t in sorted(IDS) + [2027, 1208]:
        if t not in (2009, 2010, 2028, 2000):
            out.append(Case('text-%d' % t, text, dict(type_=t), witness=2))
    return out
