"""A stand-in for matplotlib that records what is drawn in which figure and what is saved."""
import sys
import types

figures = []       # every figure made
saved = []         # (figure, file name, dpi), in order
state = types.SimpleNamespace(current=None)


class Figure:
    def __init__(self):
        self.calls = []        # (name, args, keyword arguments)
        self.open = True
        figures.append(self)
        state.current = self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Call(self, name)


class Axes:
    """Axes, colour bars, artists: everything belongs to the figure."""

    def __init__(self, figure):
        self.figure = figure

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Call(self.figure, name)

    def __iter__(self):
        return iter((Axes(self.figure), Axes(self.figure), Axes(self.figure)))


class Call:
    def __init__(self, figure, name):
        self.figure, self.name = figure, name

    def __call__(self, *args, **kw):
        if self.name == 'savefig':
            saved.append((self.figure, args[0] if args else kw.get('fname'), dict(kw)))
            return None
        if self.name in ('show',):
            saved.append((self.figure, None, dict(kw)))
            return None
        if self.name in ('clf', 'clear', 'cla'):
            self.figure.calls.clear()
            return None
        self.figure.calls.append((self.name, args, dict(kw)))
        if self.name == 'subplots':
            return Axes(self.figure)
        return Axes(self.figure)

    def __getattr__(self, name):
        # fig.canvas.draw() and the like
        if name.startswith('__'):
            raise AttributeError(name)
        return Call(self.figure, name)


def _current():
    return state.current or Figure()


def _figure(*a, **k):
    f = Figure()
    f.calls.append(('figure', a, k))
    return f


def _subplots(*a, **k):
    f = Figure()
    return f, Axes(f)


def _close(what=None, *a, **k):
    if what is None:
        state.current = None
    elif what == 'all' or what is state.current:
        state.current = None


class PyPlot(types.ModuleType):
    vf_stand_in = True

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Call(_current(), name)


def install():
    """The stand-in takes the place of matplotlib in this process."""
    figures.clear()
    saved.clear()
    state.current = None
    if getattr(sys.modules.get('matplotlib'), 'vf_stand_in', False):
        return
    top = types.ModuleType('matplotlib')
    top.vf_stand_in = True
    top.__path__ = []
    top.use = lambda *a, **k: None
    top.rcParams = {}
    plt = PyPlot('matplotlib.pyplot')
    plt.figure, plt.subplots, plt.close = _figure, _subplots, _close
    plt.gcf = _current
    plt.gca = lambda *a, **k: Axes(_current())
    plt.rcParams = top.rcParams
    top.pyplot = plt
    sys.modules['matplotlib'] = top
    sys.modules['matplotlib.pyplot'] = plt
