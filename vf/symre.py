"""Regular expressions on symbolic strings: a backtracking matcher over the
parse tree of the re module; every test of a character decides (forks)."""
import re as _re
try:
    from re import _parser as sre, _constants as C
except ImportError:                      # pragma: no cover
    import sre_parse as sre, sre_constants as C
from .sym import SymInt, Unsupported, band, bnot, bor
from .symbytes import SymStr


def rng_(x, a, b):
    return band(x >= a, x <= b)


def category(x, cat):
    """Condition that x (a code point) is in a category; ASCII only for symbolic ones."""
    n = str(cat).lower()
    neg = 'not' in n
    if isinstance(x, SymInt):
        # other digits, letters and spaces are outside of what is modelled
        if not bool(x < 128):
            raise Unsupported('character class of a symbolic non-ASCII character')
        if 'digit' in n:
            r = rng_(x, 48, 57)
        elif 'space' in n:
            r = bor(rng_(x, 9, 13), rng_(x, 28, 32))
        else:
            r = bor(rng_(x, 48, 57), rng_(x, 65, 90), rng_(x, 97, 122), x == 95)
    else:
        ch = chr(x)
        r = ch.isdecimal() if 'digit' in n else (ch.isspace() if 'space' in n else (ch.isalnum() or ch == '_'))
    return bnot(r) if neg else r


def in_set(x, items):
    neg = False
    conds = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            conds.append(x == av)
        elif op is C.RANGE:
            conds.append(rng_(x, *av))
        elif op is C.CATEGORY:
            conds.append(category(x, av))
        else:
            raise Unsupported('regular expression set %s' % op)
    r = bor(*conds)
    return bnot(r) if neg else r


class Matcher:
    def __init__(self, s, flags):
        self.s, self.n, self.flags = s, len(s), flags

    def seq(self, items, i, groups, k):
        """Matches the items from position i, then the continuation k(position, groups)."""
        if not items:
            return k(i, groups)
        (op, av), rest = items[0], items[1:]
        go = lambda j, g: self.seq(rest, j, g, k)
        one = None
        if op is C.LITERAL:
            one = lambda x: x == av
        elif op is C.NOT_LITERAL:
            one = lambda x: bnot(x == av)
        elif op is C.IN:
            one = lambda x: in_set(x, av)
        elif op is C.ANY:
            one = lambda x: True if self.flags & _re.S else bnot(x == 10)
        if one is not None:
            if i < self.n and bool(one(self.s[i])):
                return go(i + 1, groups)
            return None
        if op is C.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele:
                raise Unsupported('regular expression flags')

            def after(j, gs):
                if g is not None:
                    gs = dict(gs)
                    gs[g] = (i, j)
                return go(j, gs)
            return self.seq(list(sub), i, groups, after)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is C.MAX_REPEAT

            def rep(count, j, gs):
                def more():
                    if count >= hi if hi is not C.MAXREPEAT else False:
                        return None
                    return self.seq(sub, j, gs, lambda e, g2: rep(count + 1, e, g2) if e > j or count < lo else None)
                if count < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else go(j, gs)
                r = go(j, gs)
                return r if r is not None else more()
            return rep(0, i, groups)
        if op is C.BRANCH:
            for b in av[1]:
                r = self.seq(list(b), i, groups, go)
                if r is not None:
                    return r
            return None
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING) and not self.flags & _re.M:
                return go(i, groups) if i == 0 else None
            if av is C.AT_END_STRING:
                return go(i, groups) if i == self.n else None
            if av is C.AT_END and not self.flags & _re.M:
                if i == self.n or (i == self.n - 1 and bool(self.s[i] == 10)):
                    return go(i, groups)
                return None
        raise Unsupported('regular expression %s' % op)


class Match:
    def __init__(self, s, span, groups, names, n):
        self._s, self._span, self._g, self._names, self._n = s, span, groups, names, n
        self.string = s
        self.lastindex = max(groups) if groups else None

    def _one(self, k):
        if k == 0:
            return self._s[slice(*self._span)]
        k = self._names.get(k, k)
        if not isinstance(k, int) or k > self._n:
            raise IndexError('no such group')
        g = self._g.get(k)
        return None if g is None else self._s[slice(*g)]

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = tuple(self._one(k) for k in ks)
        return r[0] if len(ks) == 1 else r

    __getitem__ = _one

    def groups(self, default=None):
        r = [self._one(i + 1) for i in range(self._n)]
        return tuple(default if x is None else x for x in r)

    def groupdict(self, default=None):
        return {k: default if self._one(i) is None else self._one(i) for k, i in self._names.items()}

    def span(self, k=0):
        if k == 0:
            return self._span
        return self._g.get(self._names.get(k, k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]


def find(how, pattern, s, flags=0):
    """match, fullmatch or search of a pattern in a symbolic string."""
    if isinstance(pattern, _re.Pattern):
        flags, pattern = pattern.flags, pattern.pattern
    if not isinstance(pattern, str):
        raise Unsupported('regular expression on bytes')
    if flags & (_re.I | _re.M | _re.X | _re.A | _re.L):
        raise Unsupported('regular expression flags')
    t = sre.parse(pattern, flags & ~_re.U)
    m = Matcher(SymStr.of(s).c, flags)
    for st in range(len(s) + 1 if how == 'search' else 1):
        end = (lambda j, g: (j, g) if j == m.n else None) if how == 'fullmatch' else (lambda j, g: (j, g))
        r = m.seq(list(t), st, {}, end)
        if r is not None:
            return Match(SymStr.of(s), (st, r[0]), r[1], dict(t.state.groupdict), t.state.groups - 1)
    return None
