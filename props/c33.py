"""C33: summary tools report exactly what the file contains."""
from vf.h import Case
from .c30 import tree
from .scripts import run
from .spec import REGISTERED, class_of, tel_of_type
from .tree import Node, build

BOUNDS = ['object counts: trees of up to 7 objects, depth to 4, every version and id, every assignment of types to up to 3 of the objects, every cut position of the listed files; as text and as JSON',
          'structure: up to 8 objects, depth to 4, every assignment of types to up to 4 of the objects, 0 to 8 repeats, every id, str and repr, every cut position of the listed files',
          'history: 0 to 3 blocks of up to 3 entries, every time stamp (32 bits), text of up to 4 bytes (ASCII) or with characters of up to 4 bytes',
          'metadata: up to 3 blocks of up to 3 entries, keys and values of up to 3 characters, printable characters for JSON']
OUTSIDE = ['time zones other than the one of the system', 'keys or values with characters that JSON escapes (only --json)', 'the differences printed by --tel-diff for texts other than the listed ones']


# ---- object counts ------------------------------------------------------------
def info_type(n):
    return {'TrackingPosition': 2100, 'TelescopeEvent': 2200}.get(n.cls, n.type)


def info_name(n):
    m, c = REGISTERED.get(n.type, ('eventio.base', 'EventIOObject'))
    return '%s.%s' % (m[8:], c)


def cut_pos(h, nodes, cut):
    end = nodes[-1].end if nodes else 0
    return h.range(4, end) if cut else end      # fewer bytes are not recognised as a file


def readable(nodes, c):
    """(objects whose header is in the first c bytes, a header is cut)"""
    out = [(n, l) for x in nodes for n, l in x.walk() if c >= n.address]
    broken = any(c < n.address and not (n.top and c <= n.start) for x in nodes for n, _ in x.walk() if parents_in(nodes, n, c))
    return out, broken


def parents_in(nodes, n, c):
    """The reader gets to the position of n: all before it have their headers."""
    for x in nodes:
        for m, _ in x.walk():
            if m is n:
                return True
            if c < m.address and (m.top and c <= m.start):
                return False
    return True


def less(a, b):
    for x, y in zip(a, b):
        if isinstance(x, str) or not bool(x == y):
            return bool(x < y)
    return False


def same_version(nodes, plain):
    for x in nodes if plain else ():
        for n, _ in x.walk():
            n.version = 2


def counts(h, s, vary, json, cut=False, plain=False):
    nodes = tree(h, s, vary)
    same_version(nodes, plain)
    data = build(h, nodes)
    c = cut_pos(h, nodes, cut)
    e = run(h, 'print_object_information', (h.file(data[:c]),) + (('--json',) if json else ()))
    h.check(e is None, 'the tool raised %r' % (e,))
    objs, broken = readable(nodes, c)
    rows = []
    for n, level in objs:
        key = (info_type(n), n.version, level, info_name(n))
        for i, (k, cnt) in enumerate(rows):
            if all(bool(x == y) for x, y in zip(k, key)):
                rows[i] = (k, cnt + 1)
                break
        else:
            rows.insert(next((i for i, (k, _) in enumerate(rows) if less(key, k)), len(rows)), (key, 1))
    out = []
    if json:
        out.append('[')
        for i, ((t, v, l, name), cnt) in enumerate(rows):
            out += [',' if i else '', '\n  {\n    "type": ', t, ',\n    "version": ', v, ',\n    "level": ', l,
                    ',\n    "name": "%s",\n    "number_of_objects": ' % name, cnt, '\n  }']
        out.append('\n]\n' if rows else ']\n')
    else:
        out += [' Type | Version | Level | #Objects | eventio-class\n', '-' * 60, '\n']
        for (t, v, l, name), cnt in rows:
            out += [(t, ' 5d'), ' | ', (v, ' 7d'), ' | ', (l, ' 5d'), ' | ', (cnt, ' 8d'), ' | ', name, '\n']
        out += ['-' * 60, '\n']
    h.printed_is(out)
    h.check(bool(h.warnings) == broken, 'warnings %r for %s file' % (h.warnings, 'a cut' if broken else 'a complete'))


# ---- structure ----------------------------------------------------------------
def text_of(h, n, low):
    if low:
        return ['%s[%d](size=%d, only_subobjects=%s, address=%d)' % (n.cls, n.type, n.size, n.only, n.address)]
    if n.cls == 'ArrayEvent':
        return ['ArrayEvent[2010](event_id=', n.id, ')']
    if n.cls == 'TelescopeEvent':
        return ['TelescopeEvent[%d](telescope_id=%d)' % (n.type, tel_of_type(n.type, 2200))]
    if n.cls == 'ADCSums':
        tel = (n.id >> 25) & 0x1f if bool(n.version <= 1) else (n.id >> 12) & 0xffff
        return ['ADCSums[2012](telescope_id=', tel, ')']
    if n.cls == 'TriggerInformation':
        return ['TriggerInformation[2009](event_id=', n.id, ')']
    if n.cls == 'HistoryMeta':
        if bool(n.id == -1):
            return ['HistoryMeta[75](global)']
        return ['HistoryMeta[75](telescope_id=', n.id, ')']
    return ['%s[%d]' % (n.cls, n.type)]


def structure(h, s, vary, low=False, m=None, cut=False, parsed=False, plain=False):
    nodes = tree(h, s, vary)
    same_version(nodes, plain)
    data = build(h, nodes)
    c = cut_pos(h, nodes, cut)
    path = h.file(data[:c])
    if m is None:
        m = h.range(0, 8)
    if m == 'default':
        m = 5
        e = run(h, 'print_structure', (path,) + (('-r',) if low else ()))
    elif parsed:
        e = run(h, 'print_structure', (path, '-m', m) + (('-r',) if low else ()))
    else:
        e = run(h, 'print_structure', (path,) + (('--repr',) if low else ()), dict(inputfile=path, max_repeats=m, repr=low))
    h.check(e is None, 'the tool raised %r' % (e,))
    objs, broken = readable(nodes, c)
    out = []
    i = 0
    while i < len(objs):
        j = i + 1
        while j < len(objs) and objs[i][0].cls != 'EventIOObject' and objs[j][0].cls == objs[i][0].cls:
            j += 1
        for n, level in objs[i:min(j, i + m)]:
            out += ['    ' * level + ' '] + text_of(h, n, low) + ['\n']
        left = j - i - m
        if left > 0:
            out += ['    ' * objs[j - 1][1] + ' And %d objects more of the same type\n' % left]
        i = j
    if broken:
        h.printed_starts(out)
    else:
        h.printed_is(out)


TEL = {2002, 2003, 2004, 2005, 2006, 2007, 2008, 2011, 2016, 2023, 2032, 2033}       # the id is the telescope id
NAMED = {2009: 'event_id', 2010: 'event_id', 2020: 'shower_id', 2021: 'event_id', 2026: 'event_id', 2028: 'type', 2034: 'type', 2000: 'run_id',
         1202: 'event_id', 1204: 'event_id', 1209: 'event_id'}


def texts(h, type_, only):
    """The line printed for one object of each class."""
    c = class_of(type_)
    id_, payload = h.int(32, True), h.bytes(0 if only else 4)
    n = Node(h, type_, [] if only else payload, id_=id_, cls=c)
    pre = '%s[%d]' % (c, type_)
    if type_ in TEL:
        out = [pre, '(telescope_id=', id_, ')']
    elif type_ in NAMED:
        out = [pre, '(%s=' % NAMED[type_], id_, ')']
    elif type_ in (2014, 2022):
        out = [pre, '(telescope_id=', (id_ & 0xff) | ((id_ & 0x3f000000) >> 16), ')']
    elif type_ == 2012:
        out = text_of(h, n, False)
    elif type_ == 2013:
        out = [pre, '(telescope_id=', (id_ >> 12) & 0xffff, ')']
    elif type_ == 2015:
        n.id = h.pick((0, 1, 0x3ff, 0x7ff, 0x205, 0xabc))
        out = [pre + '(result_bits=' + bin(n.id)[2:].zfill(12) + ')']
    elif type_ == 2027:
        tel, code = h.int(20), h.pick((0, 1, 2, 7))
        h.assume(tel < 1000000)
        n.id = code * 1000000 + tel
        out = [pre, '(telescope_id=', tel, ', code=%d, kind=%s)' % (code, {0: 'triggered', 1: 'selected'}.get(code, 'unknown'))]
    elif type_ in (1205, 1208):
        tel, arr = h.int(10), h.pick((0, 1, 17, 999))
        h.assume(tel < 1000)
        n.id = arr * 1000 + tel
        out = [pre, '(array_id=%d, telescope_id=' % arr, tel]
        if type_ == 1205:
            w = h.writer()
            w.raw(h.bytes(8))
            n_bunches = w.i32()
            n.payload = w.bytes()
            out += [', n_bunches=', n_bunches]
            if bool(h.And(tel == 999, arr == 999)):
                out = ['ObservationLevelParticles(n_particles=', n_bunches]
        out += [')']
    elif type_ == 75 or c == 'TelescopeEvent':
        out = text_of(h, n, False)
    else:
        out = [pre]
    path = h.file(build(h, [n]))
    e = run(h, 'print_structure', (path,))
    h.check(e is None, 'the tool raised %r' % (e,))
    h.printed_is([' '] + out + ['\n'])


# ---- history ------------------------------------------------------------------
def entry(h, kind, text):
    w = h.writer()
    t = w.i32()
    w.u16(len(text))
    w.raw(text)
    return Node(h, kind, w.bytes(), cls=class_of(kind)), t


def is_space(h, c):
    return bool(h.Or(c == 32, h.And(c >= 9, c <= 13), h.And(c >= 28, c <= 31)))


def history(h, blocks, after, wide=None, later=0):
    """blocks: per History object the lengths of the texts."""
    nodes, out = [], []
    for i, b in enumerate(blocks):
        subs = []
        for j, n in enumerate(b):
            if wide:
                data, text = h.utf8(wide)
                for k, l in enumerate(wide):
                    if l == 1:
                        h.assume(h.Not(is_space_cond(h, data[sum(wide[:k])])))
                if 2 in wide or 3 in wide:
                    h.assume(not_space(h, wide, data))
                pieces = [text]
            else:
                data = h.bytes(n)
                cs = [data[k] for k in range(n)]
                for c in cs:
                    h.assume(c < 128)
                a, z = 0, n
                while a < z and is_space(h, cs[a]):
                    a += 1
                while z > a and is_space(h, cs[z - 1]):
                    z -= 1
                pieces = [h.text(data[a:z])]
            node, t = entry(h, (71, 72)[(i + j) % 2], data)
            subs.append(node)
            out += [h.date(t, '%Y-%m-%dT%H:%M:%S'), ' '] + pieces + ['\n']
        nodes.append(Node(h, 70, subs, cls='History'))
    # only the blocks at the beginning are shown
    more = [Node(h, 70, [entry(h, 71, h.bytes(2))[0]], cls='History') for _ in range(later)]
    e = run(h, 'print_simtel_history', (h.file(build(h, nodes + tree(h, after, 0) + more)),))
    h.check(e is None, 'the tool raised %r' % (e,))
    h.printed_is(out)


def is_space_cond(h, c):
    return h.Or(c == 32, h.And(c >= 9, c <= 13), h.And(c >= 28, c <= 31))


def not_space(h, wide, data):
    """No character of two or three bytes is white space (those start with c2, e1, e2 or e3)."""
    pos, cs = 0, []
    for l in wide:
        if l in (2, 3):
            x = data[pos]
            cs.append(h.And(x != 0xc2, x != 0xe1, x != 0xe2, x != 0xe3))
        pos += l
    return h.And(*cs)


# ---- metadata -----------------------------------------------------------------
def block(h, tel, sizes, enc='utf8', json=False, dup=False):
    """A HistoryMeta object and its [(key, value)] as texts."""
    w = h.writer()
    w.varint(1, len(sizes))
    items = []
    for i, (k, v) in enumerate(sizes):
        pair = []
        for n, first in ((k, not dup), (v, False)):
            if enc == 'utf8':
                b = h.ascii(n, printable=False)
            else:
                b = h.bytes(n)
            if first:
                b = h.join([bytes([97 + i]), b])
            if json:
                for x in range(len(b)):
                    h.assume(h.And(b[x] >= 32, b[x] < 127, b[x] != 34, b[x] != 92))
            w.varint(1, len(b))
            w.raw(b)
            pair.append(h.text(b) if enc == 'utf8' else h.latin1(b))
        for j, (a, _) in enumerate(items):
            if dup and bool(h.cond(a, pair[0])):
                items[j] = (a, pair[1])
                break
        else:
            items.append(tuple(pair))
    return Node(h, 75, w.bytes(), id_=tel, cls='HistoryMeta'), items


IDS = (-1, 0, 1, 7, 300, 2 ** 31 - 1)


def meta(h, blocks, how, before='', after='D', enc='utf8', dup=False, later=()):
    nodes = []
    glob, tels = None, {}
    used = 0
    for i, sizes in enumerate(blocks):
        tel = IDS[0] if i == 0 and how != 'function' else h.pick(IDS)
        node, items = block(h, tel, sizes, enc, how == 'json', dup)
        nodes.append(node)
        if tel == -1:
            glob = items
        else:
            tels[tel] = items
    # metadata behind another object is not part of the metadata section
    rest = [block(h, h.pick(IDS), s, enc, how == 'json')[0] for s in later]
    path = h.file(build(h, tree(h, before, 0) + nodes + tree(h, after, 0) + rest))
    if how == 'function':
        m = h.load('eventio.scripts.print_simtel_metaparams')
        if not hasattr(m, 'read_meta'):
            return
        r, e = h.attempt(m.read_meta, path, enc)
        h.check(e is None, 'read_meta raised %r' % (e,))
        g, t = r
        h.check((g is None) == (glob is None), 'global metadata %r' % (g,))
        if glob is not None:
            h.eq(list(g.items()), glob, 'global')
        h.eq(list(t), list(tels), 'telescopes')
        for k in tels:
            h.eq(list(t[k].items()), tels[k], 'telescope %d' % k)
        return
    args = (path,) + (('--json',) if how == 'json' else ()) + (('--encoding', enc) if enc != 'utf8' else ())
    e = run(h, 'print_simtel_metaparams', args)
    h.check(e is None, 'the tool raised %r' % (e,))
    out = []
    if how == 'json':
        def obj(items, pad):
            r = ['{'] if items else ['{}']
            for i, (k, v) in enumerate(items):
                r += [',' if i else '', '\n' + pad + '  "', k, '": "', v, '"']
            return r + ['\n' + pad + '}'] if items else r
        out += ['{\n  "global": '] + (obj(glob, '  ') if glob is not None else ['null']) + [',\n  "telescopes": ']
        if tels:
            out.append('{')
            for i, (k, items) in enumerate(tels.items()):
                out += [',' if i else '', '\n    "%d": ' % k] + obj(items, '    ')
            out.append('\n  }\n}\n')
        else:
            out.append('{}\n}\n')
    else:
        def lines(items):
            r = []
            for i, (k, v) in enumerate(items):
                r += ['\n' if i else '', k, ' = ', v]
            return r + ['\n']
        if glob is not None:
            out += ['Global METAPARAMs\n-----------------\n'] + lines(glob)
        for k, items in tels.items():
            t = 'METAPARAMs for telescope=%d' % k
            out += ['\n', t, '\n', '-' * len(t), '\n'] + lines(items)
    h.printed_is(out)


def diff(h, ids):
    """--tel-diff shows the lines in which two telescopes differ."""
    a, b = ids
    vals = {}
    nodes = []
    for tel in (-1, 1, 2, 300):
        w = h.writer()
        w.varint(1, 2)
        v = [h.pick((b'1', b'2')), b'%d' % (tel % 2)]
        for k, x in zip((b'K', b'L'), v):
            w.varint(1, 1)
            w.raw(k)
            w.varint(1, 1)
            w.raw(x)
        vals[tel] = [l % x.decode() for l, x in zip(('K = %s', 'L = %s'), v)]
        nodes.append(Node(h, 75, w.bytes(), id_=tel, cls='HistoryMeta'))
    e = run(h, 'print_simtel_metaparams', (h.file(build(h, nodes)), '--tel-diff', a, b))
    h.check(e is None, 'the tool raised %r' % (e,))
    got = [l for l in h.printed_text().splitlines() if l[:1] in ('+', '-') and l[:3] not in ('---', '+++')]
    h.check(sorted(got) == sorted(['-' + x for x in vals[a] if x not in vals[b]] + ['+' + x for x in vals[b] if x not in vals[a]]),
            'difference %r of %r and %r' % (got, vals[a], vals[b]))


def cases(tier):
    deep = tier != 'quick'
    out = []
    for i, (s, vary) in enumerate((('? ? ?', 2), ('A ( T ( D ) U ( D D ) ) o', 0), ('? ( ? ( ? ) ) ?', 2), ('A ( A ( A ( o ) ) )', 0), ('D D D', 0), ('G ( D D ) o G ( D )', 0),
                                   ('? ( D ? ) D', 2), ('T ( ) U ( ) T ( )', 0), ('o o o o', 0))):
        for json in (False, True):
            out.append(Case('counts-%d%s' % (i, '-json' if json else ''), counts, dict(s=s, vary=vary + (1 if deep and vary else 0), json=json), seconds=100, witness=4))
    for i, s in enumerate(('D o', 'A ( D o ) T ( D )', 'G ( G ( D ) ) o')):
        out.append(Case('counts-cut-%d' % i, counts, dict(s=s, vary=0, json=bool(i % 2), cut=True), seconds=100, witness=4))
    for i, (s, vary, m) in enumerate((('? ? ? ?', 3, None), ('D D D D D D D', 0, None), ('D D D D D D o', 0, 5), ('A ( D D D ) A ( D D )', 0, None), ('A ( A ( A ( ) ) A ( ) ) A ( )', 0, None),
                                      ('o o o', 0, 1), ('T ( ) U ( ) T ( ) D D D I I', 0, None), ('G ( D ? D ) ? D', 2, 2), ('A ( ) A ( ) A ( ) ? ?', 2, 1))):
        out.append(Case('structure-%d' % i, structure, dict(s=s, vary=vary + (1 if deep and vary else 0), m=m), seconds=150, witness=4))
        if i % 2:
            out.append(Case('structure-%d-repr' % i, structure, dict(s=s, vary=vary, m=m if m is not None else 2, low=True, parsed=True), seconds=100, witness=4))
    out.append(Case('structure-args', structure, dict(s='D D D D A ( ) A ( ) A ( )', vary=0, m=2, parsed=True), witness=2))
    out.append(Case('structure-default', structure, dict(s='D D D D D D D D A ( D D D D D ) A ( ) A ( )', vary=0, m='default', plain=True), witness=2))
    out.append(Case('structure-deep', structure, dict(s='A ( G ( G ( G ( G ( D D ) D ) ) o ) ) D', vary=0, m=1, plain=True), witness=2))
    out.append(Case('counts-deep', counts, dict(s='A ( G ( G ( G ( G ( D D ) D ) ) o ) ) D', vary=0, json=False, plain=True), witness=2))
    out.append(Case('counts-telescopes', counts, dict(s='T ( ) V ( ) P A ( P Q V ( D ) ) P', vary=0, json=True, plain=True), witness=2))
    for i, (s, m) in enumerate((('D D D D', 2), ('A ( D D o ) A ( ) T ( D )', 1))):
        out.append(Case('structure-cut-%d' % i, structure, dict(s=s, vary=0, m=m, cut=True), seconds=150, witness=4))
    for t in sorted(REGISTERED) + [7]:
        c = class_of(t)
        if c in ('TelescopeEvent', 'TrackingPosition') and t not in (2205, 3299, 2101):
            continue
        if c == 'TrackingPosition':
            continue
        out.append(Case('text-%d' % t, texts, dict(type_=t, only=t in (70, 1204, 2010, 2028, 2034)), witness=3))
    for i, (b, after) in enumerate((((), 'D'), ((), 'o A ( )'), (((2,),), ''), (((1, 3), (), (0,)), 'D A ( D )'), (((4,),), 'o'), (((2,), (2, 1)), 'A ( )'))):
        out.append(Case('history-%d' % i, history, dict(blocks=b, after=after), seconds=150, witness=4))
    out.append(Case('history-later', history, dict(blocks=((1,), (2,)), after='o', later=1), seconds=150, witness=4))
    for i, w in enumerate(((2,), (1, 3), (4, 1), (2, 1, 2))):
        out.append(Case('history-wide-%d' % i, history, dict(blocks=((0,),), after='D', wide=w), seconds=100, witness=4))
    for i, b in enumerate(((), ((),), (((0, 1),),), (((1, 2), (1, 0)), ((1, 1),)), (((2, 3),), (), ((1, 1), (0, 1), (1, 0))))):
        for how in ('text', 'json', 'function'):
            out.append(Case('meta-%d-%s' % (i, how), meta, dict(blocks=b, how=how, before=('', 'D', 'o A ( )')[i % 3], after=('D', 'o T ( )', '')[i % 3]), seconds=150, witness=3))
    out.append(Case('meta-latin1', meta, dict(blocks=(((1, 2),), ((0, 1),)), how='function', enc='latin1'), witness=3))
    out.append(Case('meta-latin1-text', meta, dict(blocks=(((1, 2),), ((0, 1),)), how='text', enc='latin1'), witness=3))
    out.append(Case('meta-twice', meta, dict(blocks=(((1, 1), (1, 1), (1, 1)),), how='function', dup=True), witness=5))
    for how in ('text', 'json', 'function'):
        out.append(Case('meta-later-' + how, meta, dict(blocks=(((1, 1),), ((0, 1),)), how=how, after='o' if how == 'text' else 'D A ( )', later=(((1, 1),),)), seconds=150, witness=6))
    out.append(Case('diff-0', diff, dict(ids=(1, 2)), witness=4))
    out.append(Case('diff-1', diff, dict(ids=(300, 2)), witness=4))
    return out
