"""Running the command line tools."""
import sys
import types


def run(h, module, args, values=None):
    """Runs main() of a tool with these arguments; returns the exception or None.

    values: what the parsed arguments are (may be symbolic); used in place of the
    text if the tool has a global parser."""
    m = h.load('eventio.scripts.' + module)
    old, p = sys.argv, getattr(m, 'parser', None)
    sys.argv = [module] + [str(a) for a in args]
    if values is not None and p is not None:
        m.parser = types.SimpleNamespace(parse_args=lambda *a, **k: types.SimpleNamespace(**values))
    elif values is not None:
        h.assume(False)
    try:
        try:
            _, e = h.attempt(m.main)
        except SystemExit as x:
            e = x
    finally:
        sys.argv = old
        if p is not None:
            m.parser = p
    if isinstance(e, SystemExit) and not e.code:
        e = None
    return e
