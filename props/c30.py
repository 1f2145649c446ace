"""C30: search helpers find exactly the matching objects."""
from vf.h import Case
from .tree import Node, build, data_of, next_or
from .spec import class_of, tracking_id

BOUNDS = ['trees of up to 9 objects, depth to 4, every assignment of 2 to 4 types to the marked objects, all header fields and payloads',
          'every cut position of the listed files', 'n from -1 to 4']

LEAF = (7, 2012, 1212)
CONT = (2010, 2205, 11)


def tree(h, s, vary):
    """Like c03.make, but the types of the first `vary` objects marked ? are decided per path."""
    toks = s.replace('(', ' ( ').replace(')', ' ) ').split()
    pos = 0
    left = vary
    names = {'A': 2010, 'T': 2205, 'U': 2206, 'G': 11, 'D': 2012, 'P': 2101, 'Q': 2199, 'V': 3205, 'I': 1212, 'o': 7}

    def seq():
        nonlocal pos, left
        out = []
        while pos < len(toks) and toks[pos] != ')':
            t = toks[pos]
            pos += 1
            cont = pos < len(toks) and toks[pos] == '('
            if t == '?':
                ty = h.pick(CONT if cont else LEAF) if left > 0 else (11 if cont else 7)
                left -= 1
            else:
                ty = names[t]
            if cont:
                pos += 1
                subs = seq()
                pos += 1
                out.append(Node(h, ty, subs, cls=class_of(ty)))
            else:
                id_ = dict(id_=tracking_id(ty)) if class_of(ty) == 'TrackingPosition' else {}
                out.append(Node(h, ty, h.bytes(1), cls=class_of(ty), ext=len(out) % 3 == 2, **id_))
        return out
    return seq()


class Trunc(Exception):
    pass


def want_of(nodes, c, how, arg, n=None):
    """Expected (nodes, truncated); c is the length of the file."""
    out = []
    state = {'cut': False}

    def reach(node):
        """None: end of the file; otherwise the header must be there."""
        if node.top and c <= node.start:
            return False
        if c < node.address:
            raise Trunc
        return True

    def match(x, t):
        return t is None or class_of(x.type) in [class_of(y) for y in t]

    def walk(ns, level):
        for x in ns:
            if not reach(x):
                return
            if how == 'dfs':
                out.append((x, level))
            elif how == 'sub':
                if match(x, arg):
                    out.append((x, level))
                    if n is not None and len(out) >= n:
                        raise StopIteration
                    continue
            if x.subs is not None:
                walk(x.subs, level + 1)

    def top():
        for x in nodes:
            if not reach(x):
                return
            if match(x, arg):
                out.append((x, 0))

    def struct(ns, level, tolerant):
        try:
            for x in ns:
                if not reach(x):
                    return
                if match(x, arg[-1]):
                    out.append((x, level))
                elif match(x, arg[level]) and x.subs is not None:
                    struct(x.subs, level + 1, tolerant)
        except Trunc:
            state['cut'] = True
            if not tolerant:
                raise
    try:
        if how in ('dfs', 'sub'):
            if n is None or n > 0:
                walk(nodes, 0)
        elif how == 'top':
            top()
        elif how == 'struct':
            struct(nodes, 0, False)
        else:
            struct(nodes, 0, True)
    except Trunc:
        state['cut'] = True
    except StopIteration:
        pass
    return out, state['cut']


def classes(h, types):
    k = h.load('eventio.base').KNOWN_OBJECTS
    return tuple(k[t] for t in types)


def consume(h, it, want, cut, c, read, tolerant, level):
    """it yields want, then ends or raises EOFError."""
    for i, (n, lv) in enumerate(want):
        o, how = next_or(h, it)
        h.check(o is not None, 'object %d (%s) missing: %r' % (i, n.cls, how))
        if level:
            o, l = o
            h.eq(l, lv, 'level of object %d' % i)
        same(h, o, n, i, c, read)
    o, how = next_or(h, it)
    h.check(o is None, 'one object too many: %r' % (o,))
    if cut and not tolerant:
        h.check(isinstance(how, EOFError), 'a truncated file must raise EOFError here, got %r' % (how,))
    else:
        h.check(how == 'stop', 'the search must end, got %r' % (how,))


def same(h, o, n, i, c, read):
    m = 'object %d' % i
    h.eq(type(o).__name__, n.cls, m + ' class')
    h.eq(o.header.type, n.type, m + ' type')
    h.eq(o.header.id, n.id, m + ' id')
    h.eq(o.header.version, n.version, m + ' version')
    h.eq(o.address, n.address, m + ' address')
    h.eq(o.size, n.size, m + ' size')
    if read and n.subs is None:
        o.seek(0)
        if c < n.end:
            d, e = h.attempt(o.read)
            h.check(isinstance(e, EOFError), '%s: the payload is cut, got %r %r' % (m, d, e))
            o.seek(0)
        left = max(0, min(c, n.end) - n.address)
        h.eq(o.read(left), data_of(h, n)[:left], m + ' payload')


def search(h, s, vary, fn, cutting, read, part=0, parts=1):
    nodes = tree(h, s, vary)
    data = build(h, nodes)
    c = len(data)
    if cutting:
        lo = 4 + (c - 4) * part // parts
        c = h.range(lo, 4 + (c - 4) * (part + 1) // parts - 1)
    f = h.load('eventio').EventIOFile(h.file(data[:c]))
    su = h.load('eventio.search_utils')
    name, arg = fn
    nw = len(h.warnings)
    if name == 'dfs':
        want, cut = want_of(nodes, c, 'dfs', None)
        consume(h, su.yield_all_objects_depth_first(f), want, cut, c, read, False, True)
    elif name == 'sub':
        want, cut = want_of(nodes, c, 'sub', arg)
        cl = classes(h, arg)
        consume(h, su.yield_subobjects(f, cl[0] if len(cl) == 1 else cl), want, cut, c, read, False, False)
    elif name == 'n':
        k = h.range(-1, 4) if not cutting else 2
        want, cut = want_of(nodes, c, 'sub', arg, max(k, 0))
        cl = classes(h, arg)
        consume(h, su.yield_n_subobjects(f, cl, n=k) if k != 3 else su.yield_n_subobjects(f, cl), want, cut and len(want) < k, c, read, False, False)
    elif name == 'top':
        want, cut = want_of(nodes, c, 'top', arg)
        consume(h, su.yield_toplevel_of_type(f, classes(h, arg)), want, cut, c, read, True, False)
        h.check((len(h.warnings) > nw) == cut, 'warning about the truncation: %d' % (len(h.warnings) - nw))
    elif name == 'collect':
        want, cut = want_of(nodes, c, 'top', arg)
        r = su.collect_toplevel_of_type(f, classes(h, arg)[0])
        listed(h, r, want, c, read)
        h.check((len(h.warnings) > nw) == cut, 'warning about the truncation: %d' % (len(h.warnings) - nw))
    elif name == 'struct':
        want, cut = want_of(nodes, c, 'struct', [(x,) for x in arg])
        consume(h, su.yield_all_subobjects(f, list(classes(h, arg))), want, cut, c, read, False, False)
    elif name == 'findall':
        want, cut = want_of(nodes, c, 'findall', [(x,) for x in arg])
        r = su.find_all_subobjects(f, list(classes(h, arg)))
        listed(h, r, want, c, read)
        h.check((len(h.warnings) > nw) == cut, 'warning about the truncation: %d' % (len(h.warnings) - nw))
    elif name == 'find':
        want, cut = want_of(nodes, c, 'top', arg)
        o, e = h.attempt(su.find_type, f, classes(h, arg))
        if want:
            h.check(e is None, 'find_type raised %r' % (e,))
            n = want[0][0]
            same(h, o, n, 0, c, read)
            rest, cut = want_of(nodes[nodes.index(n) + 1:], c, 'top', None)
            consume(h, f, rest, cut, c, False, False, False)
        else:
            h.check(isinstance(e, EOFError) if cut else isinstance(e, (StopIteration, ValueError)), 'find_type without a match: %r %r' % (o, e))


def listed(h, r, want, c, read):
    h.eq(len(r), len(want), 'number of objects found')
    for i, (o, (n, _)) in enumerate(zip(r, want)):
        same(h, o, n, i, c, read)


def inside(h, s, vary, fn):
    """Searching below an object."""
    nodes = tree(h, s, vary)
    f = h.load('eventio').EventIOFile(h.file(build(h, nodes)))
    su = h.load('eventio.search_utils')
    for n in nodes:
        o = next(f)
        if fn == 'dfs':
            want = [(x, l) for s_ in n.subs or () for x, l in s_.walk(0)]
            consume(h, su.yield_all_objects_depth_first(o), want, False, 10 ** 6, True, False, True)
        else:
            if class_of(n.type) in [class_of(y) for y in fn]:
                want = [(n, 0)]
            else:
                want, _ = want_of([n], 10 ** 6, 'sub', fn)
            consume(h, su.yield_subobjects(o, classes(h, fn)), want, False, 10 ** 6, True, False, False)


FN = [('dfs', None), ('sub', (2012,)), ('sub', (2012, 2205)), ('n', (2012, 1212)), ('top', (2010,)), ('top', (2012, 1212)), ('collect', (2012,)), ('collect', (2010,)),
      ('struct', (2010, 2205, 2012)), ('struct', (2010, 1212)), ('struct', (1212,)), ('findall', (2010, 2205, 2012)), ('findall', (2205, 2012)),
      ('findall', (2010,)), ('find', (2012,)), ('find', (2010, 2205))]
TREES = [('?(T(?D)?)D', 9), ('A(?(?I)D)?', 9), ('????', 9), ('?(?(?))A(D)', 9), ('A(T(DI)U(D)D)A(T(D)?)', 1), ('A(T(D)T(D?))T(DD)D', 1), ('?()?()', 9), ('A(A(T(D)D))A(D)', 0)]
SPACED = lambda s: ' '.join(s)


def cases(tier):
    out = []
    for i, (s, v) in enumerate(TREES):
        for k, (name, arg) in enumerate(FN):
            nm = '%d-%s-%s' % (i, name, '.'.join(map(str, arg or ())))
            out.append(Case('whole-' + nm, search, dict(s=SPACED(s), vary=v, fn=(name, arg), cutting=False, read=(i + k) % 2 == 0), seconds=120, witness=3))
            if i in (5, 7) or tier != 'quick':
                for p in range(2):
                    out.append(Case('cut-%s-%d' % (nm, p), search, dict(s=SPACED(s), vary=v if tier != 'quick' else 0, fn=(name, arg), cutting=True, read=(i + k) % 2 == 0, part=p, parts=2),
                                    seconds=120, witness=3))
        out.append(Case('below-%d-dfs' % i, inside, dict(s=SPACED(s), vary=v, fn='dfs'), seconds=120, witness=3))
        out.append(Case('below-%d-sub' % i, inside, dict(s=SPACED(s), vary=v, fn=(2012,)), seconds=120, witness=3))
    return out
