"""C32: cutting a file keeps whole objects within the limit."""
from .c03 import make
from .scripts import run
from .tree import build
from vf.h import Case

BOUNDS = ['every limit text of 1 to 3 characters (quick; 4 thorough): every digit and unit, every other ASCII character', 'every limit of 3 digits and of one digit with k, for the listed files of up to 7 kB (1 to 5 top-level objects, also nested or with extension)',
          'every header field and payload byte of the input', 'plain, gzip and zstd input, plain and gzip output']
OUTSIDE = ['input files that are truncated themselves', 'digits that are not ASCII', 'sizes above 2^53']


def limit_value(h, digits, unit):
    v = 0
    for d in digits:
        v = v * 10 + (d - 48)
    return v * {'': 1, 'k': 1024, 'M': 1024 ** 2, 'G': 1024 ** 3}[unit]


def cut(h, s, digits, unit, kind, out):
    nodes = make(h, s)
    data = build(h, nodes)
    n = len(data)
    ds = [h.int(8) for _ in range(digits)]
    for d in ds:
        h.assume(h.And(d >= 48, d <= 57))
    text = h.join([h.le(d, 1) for d in ds] + [unit.encode()])
    limit = limit_value(h, ds, unit)
    path, res = h.file(data, kind), h.out_path(out)
    e = run(h, 'cut_eventio_file', (), dict(inputfile=path, outputfile=res, max_size=h.text(text)))
    want = 0
    for x in nodes:
        if bool(x.end <= limit):
            want = x.end
    finish(h, e, res, out, data[:want])


def finish(h, e, res, out, want):
    h.check(e is None, 'the tool raised %r' % (e,))
    w = h.written(res)
    h.check(w is not None, 'nothing was written')
    kind, got = w
    h.eq(bytes_(h, got), want, 'contents')
    if len(want):
        h.eq(kind, 'gzip' if out.endswith('.gz') else 'plain', 'compression')


def bytes_(h, got):
    return h.join([h.le(x, 1) for x in got]) if len(got) else b''


def command(h, s, limit, kind, out):
    """The whole command line."""
    nodes = make(h, s)
    data = build(h, nodes)
    path, res = h.file(data, kind), h.out_path(out)
    text, v = limit
    e = run(h, 'cut_eventio_file', (path, res, text))
    want = max([0] + [x.end for x in nodes if x.end <= v])
    finish(h, e, res, out, data[:want])


def size(h, n):
    """Every text of n ASCII characters."""
    m = h.load('eventio.scripts.cut_eventio_file')
    if not hasattr(m, 'parse_size'):
        return
    t = h.bytes(n)
    cs = [t[i] for i in range(n)]
    s = h.text(t)
    v, e = h.attempt(m.parse_size, s)
    digit = [h.And(c >= 48, c <= 57) for c in cs]
    k = n
    unit = ''
    if n > 1:
        for u in 'kMG':
            if bool(cs[-1] == ord(u)):
                unit, k = u, n - 1
    if k and bool(h.And(*digit[:k])):
        h.check(e is None, 'a size is refused: %r' % (e,))
        h.eq(v, limit_value(h, cs[:k], unit), 'size')
    else:
        h.check(isinstance(e, ValueError), 'something else than a size must be refused, got %r %r' % (v, e))


FILES = ['3', '2 1 4', '0 3x 2 0', '(2 1) 1 A (T (2 1) 3x)', 'X (1 2x) 0 (()) 5 1', '900 60 1 40 300', '3000 1080 2000', '']


def cases(tier):
    out = []
    deep = tier != 'quick'
    for i, s in enumerate(FILES[:-1]):
        for j, (kind, o) in enumerate((('plain', 'a.simtel'), ('gzip', 'a.gz'), ('zstd', 'b.simtel.gz'), ('gzip', 'a.gzip'))):
            if i < 5:
                out.append(Case('limit-%d-%d' % (i, j), cut, dict(s=s, digits=3, unit='', kind=kind, out=o), seconds=100, witness=4))
                if j == 0:
                    out.append(Case('limit2-%d' % i, cut, dict(s=s, digits=2, unit='', kind=kind, out=o), seconds=100, witness=4))
            elif j == i - 5 or deep:
                for u in 'kMG':
                    out.append(Case('limit-%d-%d-%s' % (i, j, u), cut, dict(s=s, digits=1, unit=u, kind=kind, out=o), seconds=100, witness=4))
    for i, s in enumerate(FILES[:4]):
        for j, l in enumerate((('0', 0), ('20', 20), ('41', 41), ('1k', 1024), ('3G', 3 << 30), ('0019', 19))):
            out.append(Case('command-%d-%s' % (i, l[0]), command, dict(s=s, limit=l, kind=('plain', 'gzip', 'zstd')[(i + j) % 3], out=('x.dat', 'x.gz')[j % 2]), witness=1))
    for n in range(0, 6 if deep else 4):
        out.append(Case('size-%d' % n, size, dict(n=n), seconds=300, witness=20))
    return out
