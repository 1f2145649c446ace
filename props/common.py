"""Shared builders for the harnesses (no imports of the code under test)."""
from vf.h import Arr, Approx, ANY, Case, Rec, Seq, W

SYNC = b'\x37\x8a\x1f\xd4'
SYNC_BE = b'\xd4\x1f\x8a\x37'


def header(h, type_, version=0, id_=0, length=0, sub=False, user=False, ext=None, top=True):
    """Bytes of an object header; every field may be symbolic."""
    sub_ = h.ite(sub, 1, 0)
    user_ = h.ite(user, 1, 0)
    word = type_ | (user_ << 16) | ((1 << 17) if ext is not None else 0) | (version << 20)
    lw = length | (sub_ << 30)
    parts = [SYNC] if top else []
    parts += [h.le(word, 4), h.le(id_, 4), h.le(lw, 4)]
    if ext is not None:
        parts.append(h.le(ext, 4))
    return h.join(parts)


def obj(h, type_, payload, version=0, id_=0, top=True, sub=False, ext=False, user=False):
    """An object with its payload."""
    return h.join([header(h, type_, version, id_, len(payload), sub, user, 0 if ext else None, top), payload])


def take(it, n):
    """Up to n items of an iterator and how it ended: 'stop', 'more' or the exception."""
    out = []
    it = iter(it)
    while True:
        try:
            x = next(it)
        except StopIteration:
            return out, 'stop'
        except Exception as e:
            return out, e
        out.append(x)
        if len(out) > n:
            return out, 'more'


def open_file(h, content, kind='plain', **kw):
    return h.load('eventio').EventIOFile(h.file(content, kind, **kw))


def first(h, content, **kw):
    f = open_file(h, content, **kw)
    return f, next(f)


def stream_of(h, data):
    if h.sym:
        from vf.facades import BytesIO
        return BytesIO(data)
    import io
    return io.BytesIO(data)
