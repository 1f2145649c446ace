"""C34: the histogram plot tool draws every histogram once, completely."""
import struct
from . import plots
from .common import Approx, Arr, Case, Seq, header
from .scripts import run

BOUNDS = ['0 to 4 histograms in up to 3 blocks between other objects, up to 6 bins, every content of 8 bits per bin (integers) or from {0, 0.25, 3} (floats), listed edges, titles of up to 4 bytes',
          'saved in listed formats and resolutions or shown']
OUTSIDE = ['what matplotlib makes of the calls: a stand-in records them', 'negative bin contents', 'more bins or histograms',
           'a histogram drawn with other functions than hist, stairs, bar, pcolormesh or pcolor is not compared']
EDGES = {'I': ((0, 10), (-3, 3), (5, 6)), 'F': ((0.0, 1.0), (-2.5, 3.5), (0.5, 100.25))}


def f4(w, v):
    """Stores v as a 32-bit float."""
    return w.f4(int.from_bytes(struct.pack('<f', v), 'little'))


def block(h, w, hists):
    """The payload of a histogram block; what is in it."""
    w.i16(len(hists))
    out = []
    for k, (type_, title, nx, ny, filled) in enumerate(hists):
        w.raw(type_.encode())
        raw, text = h.utf8(title)
        w.i16(sum(title))
        w.raw(raw)
        if sum(title) % 2 == 0:
            w.u8()
        w.i32()
        w.i16(nx)
        w.i16(ny)
        w.i32()
        w.i32(1 if filled else 0)
        num = w.i32 if type_ in 'Ii' else (lambda v: f4(w, v))
        edges = []
        for i, n in enumerate((nx, ny) if ny else (nx,)):
            w.i32()
            w.i32()
            lo, hi = EDGES['I' if type_ in 'Ii' else 'F'][(k + i) % 3]
            num(lo)
            num(hi)
            num(0)
            num(0)
            edges.append([lo + (hi - lo) * j / n for j in range(n + 1)])
        n = nx * max(ny, 1)
        if type_ in 'FD':
            for _ in range(10):
                f4(w, 0)
            data = [f4(w, h.pick([0.0, 0.25, 3.0])) for _ in range(n)] if filled else [0] * n
        else:
            data = [w.i32(h.int(8)) for _ in range(n)] if filled else [0] * n
        out.append((text, edges, data, (ny, nx) if ny else (nx,)))
    return out


def lists(x):
    return [y for y in x]


def between(h, lo, hi, edges, filled, what):
    """Every filled bin lies within the limits."""
    tol = 1e-6 * max(abs(e) for e in edges) + 1e-9
    for i, some in enumerate(filled):
        h.check(h.Or(h.Not(some), h.And(lo <= edges[i] + tol, hi >= edges[i + 1] - tol)), '%s limits cut a bin with content' % what)


def limits(calls, names):
    lim = None
    for name, args, kw in calls:
        if name in names:
            a = list(args)
            if len(a) == 1 and not isinstance(a[0], (int, float)):
                a = list(a[0])
            low = kw.get('left', kw.get('bottom', kw.get('xmin', kw.get('ymin'))))
            high = kw.get('right', kw.get('top', kw.get('xmax', kw.get('ymax'))))
            if a:
                low = a[0]
            if len(a) > 1:
                high = a[1]
            if low is not None or high is not None:
                old = lim or (float('-inf'), float('inf'))
                lim = (low if low is not None else old[0], high if high is not None else old[1])
    return lim


def close(values):
    return Seq([Approx(float(v), 1e-6, 1e-9) for v in values])


def drawn(h, calls, want, msg):
    text, edges, data, shape = want
    titles = [args[0] if args else kw.get('label', kw.get('t')) for n, args, kw in calls if n in ('title', 'set_title', 'suptitle')]
    h.check(len(titles) == 1, msg + ': one title, got %d' % len(titles))
    h.eq(titles[0], text, msg + ': title')
    plots_ = [c for c in calls if c[0] in ('hist', 'stairs', 'bar', 'pcolormesh', 'pcolor')]
    h.check(len(plots_) <= 1, msg + ': drawn %d times' % len(plots_))
    other = [c[0] for c in calls if c[0] in ('plot', 'step', 'imshow', 'hist2d', 'contourf', 'fill_between', 'errorbar', 'barh', 'matshow')]
    if not plots_:
        h.check(other, msg + ': nothing is drawn')
        return
    name, args, kw = plots_[0]
    two = len(shape) == 2
    if not two and name == 'hist':
        bins = args[1] if len(args) > 1 else kw.get('bins')
        x = lists(args[0] if args else kw['x'])
        h.check(len(x) == shape[0], msg + ': one entry per bin')
        for i in range(shape[0]):
            h.check(h.And(edges[0][i] < x[i], x[i] < edges[0][i + 1]), msg + ': entry %d is not in its bin' % i)
        h.eq(bins, close(edges[0]), msg + ': edges')
        h.eq(kw.get('weights'), Arr(shape, data), msg + ': contents')
    elif not two and name == 'stairs':
        h.eq(args[0], Arr(shape, data), msg + ': contents')
        h.eq(args[1] if len(args) > 1 else kw.get('edges'), close(edges[0]), msg + ': edges')
    elif not two and name == 'bar':
        h.eq(args[1] if len(args) > 1 else kw.get('height'), Arr(shape, data), msg + ': contents')
    elif two and name in ('pcolormesh', 'pcolor'):
        h.check(len(args) == 3, msg + ': edges and contents')
        h.eq(args[0], close(edges[0]), msg + ': x edges')
        h.eq(args[1], close(edges[1]), msg + ': y edges')
        h.eq(args[2], Arr(shape, data), msg + ': contents')
    else:
        h.fail(msg + ': a histogram with %d axes is drawn by %s' % (len(shape), name))
    nx = shape[-1]
    x_filled = [h.Or(*[data[j * nx + i] != 0 for j in range(len(data) // nx)]) for i in range(nx)]
    lim = limits(calls, ('xlim', 'set_xlim'))
    if lim:
        between(h, lim[0], lim[1], edges[0], x_filled, 'x')
    lim = limits(calls, ('ylim', 'set_ylim'))
    if lim and two:
        y_filled = [h.Or(*[data[j * nx + i] != 0 for i in range(nx)]) for j in range(shape[0])]
        between(h, lim[0], lim[1], edges[1], y_filled, 'y')
    elif lim:
        for d in data:
            h.check(h.And(lim[0] <= 0, lim[1] >= d), msg + ': y limits cut a bin')


def draw(h, blocks, save=True, fmt=None, dpi=None, noise=False):
    plots.install()
    parts, want = [], []
    for b in blocks:
        if noise:
            parts += [header(h, 70, 0, 1, 4), h.bytes(4)]
        w = h.writer()
        want += block(h, w, b)
        p = w.bytes()
        parts += [header(h, 100, 2, h.int(32, True), len(p)), p]
    if noise or not blocks:
        parts += [header(h, 9, 0, 1, 0)]
    args = [h.file(h.join(parts))]
    if save:
        args += ['-o', 'out/base']
    if fmt:
        args += ['-f', fmt]
    if dpi:
        args += ['--dpi', str(dpi)]
    e = run(h, 'plot_hists', args)
    h.check(e is None, 'the tool raised %r' % (e,))
    got = list(plots.saved)
    h.check(len(got) == len(want), '%d figures for %d histograms' % (len(got), len(want)))
    for k, ((fig, name, kw), x) in enumerate(zip(got, want)):
        h.check(all(fig is not other[0] for other in got[:k]), 'histogram %d has no figure of its own' % (k + 1))
        if save:
            h.check(name is not None, 'histogram %d is not saved' % (k + 1))
            h.eq(str(name), 'out/base_%03d.%s' % (k + 1, fmt or 'pdf'), 'name of figure %d' % (k + 1))
            h.eq(kw.get('dpi'), dpi or 300, 'resolution')
        else:
            h.check(name is None, 'histogram %d is saved' % (k + 1))
        drawn(h, fig.calls, x, 'histogram %d' % (k + 1))


def cases(tier):
    out = []

    def add(name, *blocks, **kw):
        out.append(Case(name, draw, dict(blocks=blocks, **kw), witness=3))
    one = ('I', (1, 1), 3, 0, 1)
    add('none')
    add('no-histograms', ())
    add('int-1d', (one,))
    add('int-1d-png', (one,), fmt='png', dpi=72)
    add('int-1d-shown', (one, one), save=False)
    add('int-2d', (('I', (2, 1), 2, 2, 1),))
    add('int-2d-3', (('i', (), 3, 2, 1),), noise=True)
    add('int-2d-col', (('i', (1,), 1, 4, 1),), noise=True)
    add('float-1d', (('F', (3,), 3, 0, 1),))
    add('float-2d', (('D', (1,), 2, 2, 1),))
    add('real-1d', (('R', (1,), 4, 0, 1),))
    add('real-2d', (('r', (1, 1), 2, 1, 1),))
    add('single-bin', (('R', (1,), 1, 0, 1),))
    add('empty-1d', (('F', (1,), 3, 0, 0),), fmt='svg')
    add('empty-2d', (('I', (1, 2), 2, 3, 0),))
    add('empty-shown', (('I', (1, 2), 2, 3, 0), one), save=False)
    add('several', (one, ('F', (1,), 2, 0, 0), ('R', (2,), 2, 1, 1)))
    add('blocks', (('I', (1,), 2, 0, 1),), (), (('I', (1,), 1, 0, 1), ('D', (1,), 1, 1, 1)), noise=True)
    if tier == 'thorough':
        add('int-1d-6', (('I', (1,), 6, 0, 1),))
        add('int-2d-6', (('I', (1,), 3, 3, 1),))
        add('float-2d-6', (('F', (1,), 3, 2, 1),))
    return out
