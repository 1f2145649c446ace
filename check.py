#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--case SUBSTR] [--strict] [-v]

Decides one property of properties.jsonl by symbolic execution of the code in
/repo; exit 0 if it held on everything explored, 1 with a VIOLATION line if a
counterexample reproduces on the real code."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                f = dict(x.split('=', 1) for x in l[6:].split(' ; ')[0].split() if '=' in x)
                if f.get('property') == prop:
                    f['text'] = l.split(' ; ', 1)[1] if ' ; ' in l else ''
                    out.append(f)
    return out


_CASES = None
_ARGS = None


def _task(i):
    from vf import explore
    try:
        return i, explore.run_case(_CASES[i], _ARGS.tier, _ARGS.seed)
    except BaseException as e:
        import traceback
        return i, {'name': _CASES[i].name, 'error': ''.join(traceback.format_exception(e))[-3000:]}


def main():
    global _CASES, _ARGS
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--strict', action='store_true', default=bool(os.environ.get('VF_STRICT')))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VF_JOBS', '8')))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('-v', action='store_true')
    a = _ARGS = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    prop = a.prop.upper()
    t0 = time.time()
    limit = 800 if a.tier == 'quick' else 6 * 3600
    from vf import build, native, explore
    b = build.start()
    try:
        rc = run(prop, a, t0, limit, b, build, native, explore)
    finally:
        build.clean(b)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, a, t0, limit, b, build, native, explore):
    global _CASES
    mod = importlib.import_module('props.' + prop.lower())
    _CASES = [c for c in mod.cases(a.tier) if not a.case or a.case in c.name]
    assert len({c.name for c in _CASES}) == len(_CASES), 'case names'
    load_err = None
    try:
        explore.get_loader()
    except BaseException as e:
        load_err = repr(e)
    results = [None] * len(_CASES)
    order = sorted(range(len(_CASES)), key=lambda i: -_CASES[i].seconds)
    ctx = mp.get_context('fork')
    with ctx.Pool(min(a.jobs, max(1, len(order))), maxtasksperchild=None) as pool:
        it = pool.imap_unordered(_task, order, chunksize=1)
        for _ in order:
            left = limit - (time.time() - t0)
            try:
                i, r = it.next(timeout=max(1, left))
            except mp.TimeoutError:
                break
            results[i] = r
            if a.v:
                print('  %-40s %s' % (r['name'], {k: r[k] for k in ('paths', 'aborted', 'queries', 'solver_s', 'wall', 'obligations', 'discharged') if k in r}),
                      'CAND %s' % r['cand'] if r.get('cand') else '', 'INC %s' % [x[0] for x in r['inconclusive']] if r.get('inconclusive') else '',
                      r.get('error', ''), flush=True)
        pool.terminate()
    t_explore = time.time() - t0
    site = build.finish(b)
    reqs, meta = [], []
    incon = []
    for i, r in enumerate(results):
        if r is None or 'error' in r:
            incon.append((_CASES[i].name, 'case did not finish' if r is None else 'engine error: ' + r['error'][-600:]))
            continue
        for msg, inp in r['cand']:
            reqs.append(dict(prop=prop, tier=a.tier, case=r['name'], inputs=inp))
            meta.append(('cand', r['name'], msg))
        for msg, ms in r['inconclusive']:
            incon.append((r['name'], msg))
            for inp in ms:
                reqs.append(dict(prop=prop, tier=a.tier, case=r['name'], inputs=inp))
                meta.append(('concolic', r['name'], msg))
        for inp in r['witness']:
            reqs.append(dict(prop=prop, tier=a.tier, case=r['name'], inputs=inp))
            meta.append(('witness', r['name'], ''))
    answers = []
    if site is None:
        incon.append(('build', 'the extension modules do not build'))
        answers = [(None, 'no build')] * len(reqs)
    else:
        try:
            answers = native.run_all(site, reqs, workers=a.jobs)
        except RuntimeError as e:
            incon.append(('native', str(e)[-800:]))
            answers = [(None, 'not run')] * len(reqs)
    known = known_findings(prop)
    violations, suppressed = [], []
    nrep = 0
    for (kind, case, msg), req, (ok, nmsg) in zip(meta, reqs, answers):
        if ok is True:
            nrep += 1
        if kind == 'cand' and ok is not False:
            incon.append((case, 'counterexample did not reproduce: %s (native: %s %s)' % (msg, ok, nmsg)))
        elif kind == 'witness' and ok is None:
            incon.append((case, 'witness not accepted natively: ' + nmsg))
        elif ok is False:
            v = dict(case=case, msg=msg, native=nmsg, inputs=req['inputs'], kind=kind)
            for k in known:
                if k.get('case') and k['case'] != case:
                    continue
                if k.get('match') and k['match'].replace('_', ' ') not in (nmsg or '').replace('_', ' '):
                    continue
                suppressed.append((k, v))
                break
            else:
                violations.append(v)
    for k in known:
        hit = any(x is k for x, _ in suppressed)
        print('KNOWN-FINDING: property=%s %s' % (prop, k.get('text', '')) if hit else
              'note: listed finding of %s was not met: %s' % (prop, k.get('text', '')))
    good = [r for r in results if r and 'error' not in r]
    tot = lambda k: sum(r[k] for r in good)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rp = None
    if violations:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, prop + '.json')
        with open(rp, 'w') as f:
            json.dump(dict(prop=prop, tier=a.tier, violations=violations[:20]), f, indent=1)
    cover = sorted({x for r in good for x in r['cover']})
    samples = []
    for r in good:
        for w in r['witness'][:1]:
            samples.append({'case': r['name'], 'inputs': {k: v for k, v in list(w.items())[:12]}})
    ninc = len(incon)
    ev = dict(
        property=prop, tier=a.tier, seed=a.seed, level='model_checking',
        coverage=dict(
            states=tot('paths') if good else 0, transitions=tot('branches') if good else 0,
            traces_validated_against_impl=nrep, samples=samples[:6],
            cases=len(_CASES), cases_finished=len(good), functions_encoded=cover[:400],
            bounds=sorted({r['bounds'] for r in good if r['bounds']})[:60] + list(getattr(mod, 'BOUNDS', [])),
            outside_bounds=list(getattr(mod, 'OUTSIDE', [])),
            obligations=tot('obligations') if good else 0, discharged=tot('discharged') if good else 0,
            solver_queries=tot('queries') if good else 0, solver_s=round(tot('solver_s'), 2) if good else 0,
            explore_s=round(t_explore, 1), inconclusive=[' | '.join(x)[:300] for x in incon[:25]], inconclusive_count=ninc,
            known_findings_met=len(suppressed)),
        assumptions=list(getattr(mod, 'ASSUMES', [])) + [
            'numpy, struct, io, gzip, zstandard and subprocess behave as their stand-ins; every explored case has witnesses replayed on the real build',
            'Cython generates C code that means what its typed tree says'],
        wall_s=round(time.time() - t0, 1), violations=len(violations))
    if not a.case:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %d paths, %d branches, %d obligations (%d discharged), %d queries, %.1f s solver, %d native replays, %d inconclusive, %.1f s'
          % (prop, a.tier, len(_CASES), ev['coverage']['states'], ev['coverage']['transitions'], ev['coverage']['obligations'],
             ev['coverage']['discharged'], ev['coverage']['solver_queries'], ev['coverage']['solver_s'], nrep, ninc, ev['wall_s']))
    for c, m in incon[:8 if not a.v else 1000]:
        print('inconclusive: %s: %s' % (c, m))
    if load_err:
        print('note: modules did not load: ' + load_err)
    if violations:
        for v in violations[:5]:
            print('counterexample (%s) case=%s: %s; on the real code: %s; inputs %s'
                  % (v['kind'], v['case'], v['msg'][:300], v['native'][:300], json.dumps(v['inputs'])[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if a.strict and ninc:
        return 3
    return 0


if __name__ == '__main__':
    main()
