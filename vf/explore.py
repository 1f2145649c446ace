"""Explores one case symbolically: every path, every obligation."""
import os
import signal
import sys
import time
import traceback
from . import loader as L
from . import interp, facades, symnp, cyx, sym
from .hsym import SymH, PathDone, unsup
from .sym import Engine, PathAbort, Unsupported, CaseBudget

COVER = set()
TOOL = 3
_on = False


def _py_start(code, off):
    fn = code.co_filename
    if fn.startswith(L.REPO):
        COVER.add(os.path.relpath(fn, os.path.join(L.REPO, 'src')) + ':' + code.co_qualname)
    return sys.monitoring.DISABLE


import logging
logging.disable(logging.CRITICAL)


def monitor():
    global _on
    if not _on:
        m = sys.monitoring
        m.use_tool_id(TOOL, 'vf')
        m.register_callback(TOOL, m.events.PY_START, _py_start)
        m.set_events(TOOL, m.events.PY_START)
        _on = True


class Base:
    loader = None
    snapshot = None


def get_loader():
    if Base.loader is None:
        Base.loader = L.Loader(cyx.load)
        for n in ('eventio', 'eventio.base', 'eventio.var_int', 'eventio.header', 'eventio.simtel.parsing', 'eventio.iact',
                  'eventio.simtel', 'eventio.histograms', 'eventio.search_utils', 'eventio.simtel.simtelfile'):
            try:
                Base.loader.load(n)
            except Exception:
                # reported by the case that needs the module
                pass
    return Base.loader


def _alarm(*a):
    raise CaseBudget()


def run_case(case, tier, seed=1, fresh=False):
    """Result dictionary of one case."""
    monitor()
    t0 = time.time()
    loader = get_loader() if not fresh else L.Loader(cyx.load)
    e = Engine(timeout_ms=30000 if tier == 'quick' else 120000, deadline=t0 + case.seconds)
    res = dict(name=case.name, paths=0, aborted=0, cand=[], inconclusive=[], witness=[], bounds=case.bounds)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, case.seconds + 10)
    nwit = 0
    try:
        while True:
            e.start_path()
            h = SymH(e, loader)
            try:
                case.fn(h, **case.kw)
                res['paths'] += 1
                take = nwit < case.witness or (res['paths'] & (res['paths'] - 1)) == 0
                if take:
                    for m in e.models(1 + (nwit == 0), seed=seed * 1000 + res['paths']):
                        res['witness'].append(m)
                        nwit += 1
            except PathAbort:
                res['aborted'] += 1
            except PathDone as d:
                res['paths'] += 1
                if d.unknown:
                    res['inconclusive'].append(('solver gave no answer: ' + d.msg, _models(e, 3, seed)))
                elif d.inputs == 'unknown' or d.inputs is None:
                    res['inconclusive'].append(('solver gave no model: ' + d.msg, []))
                else:
                    res['cand'].append((d.msg, d.inputs))
            except Unsupported as u:
                res['paths'] += 1
                res['inconclusive'].append(('not followed: %s%s' % (u, where(u)), _models(e, 4, seed)))
            except CaseBudget:
                raise
            except RecursionError as x:
                res['inconclusive'].append(('recursion', []))
            except Exception as x:
                res['paths'] += 1
                msg = 'raised %s: %s%s' % (type(x).__name__, text(x), where(x))
                if unsup(x):
                    res['inconclusive'].append(('not followed: ' + msg, _models(e, 4, seed)))
                else:
                    m = e.model()
                    if isinstance(m, dict):
                        res['cand'].append((msg, m))
                        # a second, different model in case the first does not reproduce
                    else:
                        res['inconclusive'].append(('solver gave no model: ' + msg, []))
            if len(res['cand']) + len(res['inconclusive']) > 12:
                res['inconclusive'].append(('stopped after many reports', []))
                break
            if not e.next_path():
                break
    except CaseBudget:
        try:
            ms = []
            e.deadline = None
            signal.setitimer(signal.ITIMER_REAL, 10)
            ms = _models(e, 4, seed)
        except BaseException:
            ms = []
        res['inconclusive'].append(('time budget of the case used up after %d paths' % res['paths'], ms))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    res.update(queries=e.queries, solver_s=round(e.solver_time, 3), branches=e.branches, obligations=e.obligations,
               discharged=e.discharged, forks=e.forks, unknowns=e.unknowns, wall=round(time.time() - t0, 2),
               notes=sorted(e.notes), cover=sorted(COVER | cyx.ENTERED))
    if len(res['witness']) > 24:
        res['witness'] = res['witness'][:12] + res['witness'][-12:]
    return res


def text(x):
    try:
        return str(interp.fstr(str(x)))[:300]
    except BaseException:
        return '?'


def where(x):
    tb = traceback.extract_tb(x.__traceback__)
    fr = [f for f in tb if f.filename.startswith(L.REPO)] or list(tb)
    out = ''
    if fr:
        out += ' at %s:%s' % (os.path.basename(fr[-1].filename), fr[-1].lineno)
    if tb:
        out += ' (%s:%s %s)' % (os.path.basename(tb[-1].filename), tb[-1].lineno, tb[-1].name)
    return out


def _models(e, n, seed):
    d = e.deadline
    e.deadline = None
    try:
        e.solver.set('timeout', 3000)
        return e.models(n, seed)
    except BaseException as x:
        if isinstance(x, KeyboardInterrupt):
            raise
        return []
    finally:
        e.deadline = d
        e.solver.set('timeout', 30000)
