"""C24: versions that are not supported are refused."""
from . import blocks, spec
from .common import Case, header

BOUNDS = ['every data block type with the payload of every listed variant and every 12-bit version number', 'types without a decoder and all unknown types with payloads of 0 and 5 bytes or two sub-objects']
OUTSIDE = []

# supported versions as defined by the format and the documentation of the classes
SUPPORTED = {
    1203: {0, 1}, 1208: {1, 2, 3}, 1216: {0, 1}, 100: {1, 2},
    2000: {0, 1, 2}, 2001: {4}, 2002: set(range(7)), 2003: {1, 2}, 2004: {0, 1, 2, 3}, 2005: {0}, 2006: {0}, 2007: {0}, 2008: {0},
    2009: {0, 1, 2, 3}, 2011: set(range(5)), 2012: {3}, 2013: {3}, 2014: {5, 6}, 2015: {1}, 2016: {1, 2}, 2020: {0, 1, 2}, 2021: {0, 1, 2},
    2022: {0, 1}, 2023: {0, 1, 2, 3}, 2026: {0, 1, 2}, 2027: {0, 1}, 2032: {0}, 2033: {0}, 2100: {0},
}
# one layout, whatever the version
UNVERSIONED = {71, 72, 75, 1200, 1201, 1202, 1209, 1210, 1211, 1212, 1215, 2029, 2030}

# no decoder: containers, markers and rarely used types
NO_DECODER = [70, 1204, 1206, 1207, 1213, 1214, 2010, 2017, 2024, 2025, 2028, 2031, 2034, 2200, 2299, 3205]


def refuse(h, spec_, variant):
    b = blocks.B(h, spec_, variant)
    ok = SUPPORTED[spec_.type]
    v = h.int(12)
    h.assume(h.And(*[v != k for k in ok]))
    ev = h.load('eventio')
    f = ev.EventIOFile(h.file(h.join([b.emit(version=v), header(h, 9, 0, 1, 0)])))
    o = next(f)
    h.eq(o.header.version, v, 'version')
    try:
        r = o.parse(**b.kw)
    except NotImplementedError:
        return
    except Exception as e:
        h.fail('%s instead of NotImplementedError' % type(e).__name__)
    h.fail('data is returned for an unsupported version')


def same(h, spec_, variant):
    b = blocks.B(h, spec_, variant)
    v = h.int(12)
    ev = h.load('eventio')
    f = ev.EventIOFile(h.file(b.emit(version=v)))
    b.verify(next(f).parse(**b.kw), 'parsed')


def no_decoder(h, types, n, top):
    """Types without a decoder, whatever they hold."""
    t = h.pick(types) if types else h.int(16)
    if not types:
        h.assume(h.And(*[t != k for k in spec.REGISTERED]))
    sub = h.bool()
    # a container holds objects
    p = h.join([header(h, 7, 0, 1, 0, top=False), header(h, 9, 3, 1, n, top=False), h.bytes(n)]) if sub else h.bytes(n)
    d = header(h, t, h.int(12), h.int(32, True), len(p), sub=sub, user=h.bool(), top=top)
    if not top:
        d = h.join([header(h, 2010, 0, 1, len(d) + len(p), sub=True), d])
    f = h.load('eventio').EventIOFile(h.file(h.join([d, p, header(h, 9, 0, 1, 0)])))
    o = next(f)
    if not top:
        o = next(o)
    h.eq(o.header.type, t, 'type')
    for i in range(2):
        r, e = h.attempt(o.parse)
        h.check(isinstance(e, ValueError if sub else NotImplementedError), 'parse of %s: %r %r' % ('a container' if sub else 'data without a decoder', r, e))
        if i == 0 and not sub:
            h.eq(o.read(), p, 'payload')
        elif i == 0:
            h.eq([x.header.type for x in o], [7, 9], 'sub-objects')


def accept(h, spec_, variant):
    """A version in the documented set decodes."""
    b = blocks.B(h, spec_, variant)
    ev = h.load('eventio')
    f = ev.EventIOFile(h.file(b.emit()))
    b.verify(next(f).parse(**b.kw), 'parsed')


def cases(tier):
    out = []
    for top in (True, False):
        for i, ts in enumerate((NO_DECODER[:6], NO_DECODER[6:12], NO_DECODER[12:], None)):
            for n in (0, 5):
                out.append(Case('nodecoder-%d-%d-%d' % (i, n, top), no_decoder, dict(types=ts, n=n, top=top), witness=4))
    for prop in sorted(blocks.SPECS):
        for s in blocks.SPECS[prop]:
            seen = set()
            for i, (nm, v) in enumerate(s.cases()):
                if s.type == 1205:
                    continue
                if s.type in UNVERSIONED:
                    if tier == 'thorough' or i < 3:
                        out.append(Case('same-' + nm, same, dict(spec_=s, variant=v), witness=3))
                    continue
                if tier == 'thorough' or i < 4:
                    out.append(Case('refuse-' + nm, refuse, dict(spec_=s, variant=v), witness=3))
                ver = v.get('version')
                if ver not in seen:
                    seen.add(ver)
                    out.append(Case('accept-' + nm, accept, dict(spec_=s, variant=v), witness=2))
    return out
