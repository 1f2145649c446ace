"""C15, see blocks.py for the format."""
from .large import BOUNDS as LARGE_BOUNDS
from vf.h import Case
from .blocks import standard_cases
from .common import header
from .spec import class_of

BOUNDS = ['the listed versions and sizes, every value of every field and element', 'every word count (32 bits) of the four CORSIKA blocks', LARGE_BOUNDS]
OUTSIDE = ['larger arrays']


def word_count(h, type_, right, words):
    """A CORSIKA block that declares another number of words is refused."""
    n = h.int(32, True)
    h.assume(n != right)
    w = h.writer()
    w.i32(n)
    w.raw(h.bytes(4 * words))
    b = w.bytes()
    f = h.load('eventio').EventIOFile(h.file(h.join([header(h, type_, h.int(12), h.int(32, True), len(b)), b])))
    o = next(f)
    h.eq(type(o).__name__, class_of(type_), 'class')
    r, e = h.attempt(o.parse)
    h.check(isinstance(e, h.load('eventio.exceptions').WrongSize), 'expected WrongSize, got %r %r' % (r, e))


def cases(tier):
    out = standard_cases('C15', tier)
    for t, right in ((1200, 273), (1202, 273), (1209, 273), (1210, 3)):
        for words in (right, right - 1) if tier == 'quick' else (right, right - 1, right + 1, 0, 2 * right):
            out.append(Case('count-%d-%d' % (t, words), word_count, dict(type_=t, right=right, words=words), witness=3))
    return out
