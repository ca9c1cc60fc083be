#!/opt/venv/bin/python
"""Decide one property:  check.py PROPERTY [--replay FILE] [--only SUBSTR] [-v]"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection  # noqa: F401  pylint: disable=unused-import
import os
import random
import re
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PV_REPO', '/repo')
PY = '/opt/venv/bin/python'
for var in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(var, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
sys.unraisablehook = lambda *_: None      # destructors of engines left in mid-air by an aborted path
if os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY) and 'venv' not in sys.prefix:
    os.execv(PY, [PY] + sys.argv)
if os.environ.get('PYTHONHASHSEED') != '0':
    try:        # deep solver terms need stack; takes effect with the exec below
        _soft, _hard = resource.getrlimit(resource.RLIMIT_STACK)
        _want = 1 << 30
        resource.setrlimit(resource.RLIMIT_STACK, (_want if _hard == resource.RLIM_INFINITY else min(_want, _hard), _hard))
    except (ValueError, OSError):
        pass
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

from pv import core  # noqa: E402  pylint: disable=wrong-import-position

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))


def load(prop):
    mod = importlib.import_module('contracts.' + prop.lower())
    return mod, [h for h in core.REGISTRY if h.prop == prop]


def known_findings(prop):
    out = []
    with open(os.path.join(HERE, 'known_findings.json'), encoding='utf-8') as f:
        for e in json.load(f)['findings']:
            if e['property'] == prop:
                out.append(e)
    return out


def match_known(known, h, detail, vc):
    for e in known:
        if e['harness'] != h.name:
            continue
        if not re.search(e['detail'], detail):
            continue
        if all(vc.choices.get(k) == v for k, v in e.get('choices', {}).items()):
            return e
    return None


def run_harness(arg):
    """Everything for one harness; returns a plain dict. What the code under test prints is not part of the report."""
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return _run_harness(arg)


def _run_harness(arg):
    idx, prop, tier, seed, t_budget = arg[:5]
    h = [x for x in core.REGISTRY if x.prop == prop][idx]
    t0 = time.time()
    res = dict(name=h.name, functions=h.functions, bounded=h.bounded, size_bound=h.size_bound, obligations=[], unsupported=[], paths=0,
               violations=[], known=[], evals=0, skipped=0, ensures=0, distinct=0, samples=[], z3time=0.0,
               exhausted=False, notices=[], crossed=0, cross_fail=[], assumptions=list(h.assumptions))
    known = known_findings(prop)
    refuted = []
    deadline = t0 + t_budget
    try:
        if len(arg) > 5:
            res['unsupported'] = [arg[5]]
            res['notices'].append(arg[5] + '; bounded search only')
        elif h.bounded is None:
            from pv import shims
            sr = core.SymRunner(h, tier, shims=shims.shimmed if h.raw_ctor else shims.ideal)
            sr.run(t0 + 0.6 * t_budget)
            res['paths'] = sr.done_paths
            res['z3time'] = sr.z3time
            res['unsupported'] = sr.unsupported[:5]
            res['crossed'], res['cross_fail'] = sr.crossed, sr.cross_fail
            for o in sr.obligations:
                res['obligations'].append((o.name, o.status, o.backend, round(o.time, 4)))
            refuted = [o for o in sr.obligations if o.status == 'refuted']
            if any(o.status == 'unknown' for o in sr.obligations):
                res['notices'].append('solver undecided on some obligations')
            if not sr.obligations and not sr.unsupported:
                res['notices'].append('no obligation generated (vacuous)')
            if sr.unsupported:
                res['notices'].append('outside the verifier\'s reach: ' + sr.unsupported[0])
        # the bounded search: replay of counter-models first
        n = h.thorough if tier == 'thorough' else h.samples
        found = False
        for o in refuted[:6]:
            m = o.model or {}
            tries = [(m.get('values', {}), m.get('choices', {}))]
            for k in range(40):
                tries.append(({}, m.get('choices', {})))
            for k, (vals, ch) in enumerate(tries):
                st, vc, det = core.run_concrete(h, random.Random(f'{seed}/replay/{k}'), vals, ch)
                if st == 'fail':
                    e = match_known(known, h, det, vc)
                    if e:
                        res['known'].append(e['what'])
                        o.status = 'known'
                        break
                    res['violations'].append(dict(harness=h.name, obligation=o.name, detail=det, values=vc.values,
                                                  choices=vc.choices, reproduced=True, verifier=o.detail,
                                                  backend=o.backend))
                    found = True
                    break
            if found:
                break
        if not found:
            fails, stats = core.search_concrete(h, seed, n, max(deadline, time.time() + 5), known=lambda vc, d:
                                                match_known(known, h, d, vc))
            res['evals'], res['skipped'], res['ensures'] = stats['evals'], stats['skipped'], stats['ensures']
            res['distinct'] = len(stats['distinct'])
            res['samples'] = stats['samples']
            res['exhausted'] = stats['exhausted']
            res['unsup_conc'] = stats['unsup']
            for e in stats['known']:
                res['known'].append(e['what'])
            for vc, det in fails[:1]:
                res['violations'].append(dict(harness=h.name, obligation=det.split(':')[0], detail=det,
                                              values=vc.values, choices=vc.choices, script=vc.script,
                                              rng=getattr(vc, 'rng_key', None), reproduced=True,
                                              verifier='; '.join(f'{o.name}: {o.detail}' for o in refuted[:2]) or
                                              'bounded search on the real code'))
                found = True
        left = [o for o in refuted if o.status == 'refuted']
        if not found and left and not res['known']:
            o = left[0]
            res['violations'].append(dict(harness=h.name, obligation=o.name, detail=o.detail, model=o.model,
                                          reproduced=False, backend=o.backend, verifier=o.detail))
    except Exception:  # pylint: disable=broad-except
        res['notices'].append('harness crashed: ' + traceback.format_exc()[-1500:])
        res['crashed'] = True
    res['wall'] = time.time() - t0
    return res


def empty(h, why):
    return dict(name=h.name, functions=h.functions, bounded=h.bounded, size_bound=h.size_bound, obligations=[], unsupported=[why], paths=0,
                violations=[], known=[], evals=0, skipped=0, ensures=0, distinct=0, samples=[], z3time=0.0, exhausted=False,
                notices=[why], crossed=0, cross_fail=[], assumptions=list(h.assumptions), wall=0)


def _child(conn, task):
    conn.send(run_harness(task))
    conn.close()


def schedule(tasks, hs, width, end):
    """One process per contract; a process that dies or is stuck in the solver is replaced by a bounded search only."""
    ctx = mp.get_context('fork')
    todo, running, results = list(tasks), [], []
    while todo or running:
        while todo and len(running) < width:
            t = todo.pop(0)
            rd, wr = ctx.Pipe(duplex=False)
            pr = ctx.Process(target=_child, args=(wr, t), daemon=True)
            pr.start()
            wr.close()
            limit = 3 * t[4] + 60 if TIER == 'quick' else 6 * t[4] + 600
            running.append((t, pr, rd, min(end, time.time() + limit)))
        ready = mp.connection.wait([r[2] for r in running], timeout=1)
        for item in list(running):
            t, pr, rd, until = item
            res, why = None, None
            if rd in ready:
                try:
                    res = rd.recv()
                except EOFError:
                    pr.join()
                    why = f'the process of the contract ended ({pr.exitcode})'
            elif time.time() > until:
                pr.kill()
                why = 'time limit'
            else:
                continue
            running.remove(item)
            rd.close()
            pr.join()
            if res is None and len(t) == 5 and time.time() < end:
                todo.append(t + (why,))                   # once more, without the verifier
                continue
            results.append(res or empty(hs[t[0]], why))
    return results


def replay(path):
    with open(path, encoding='utf-8') as f:
        r = json.load(f)
    load(r['property'])
    h = [x for x in core.REGISTRY if x.prop == r['property'] and x.name == r['harness']][0]
    if not r.get('reproduced'):
        print('no failing input was found; failed obligation:', r['obligation'], '-', r['detail'])
        return 1
    st, _vc, det = core.run_concrete(h, random.Random(r['rng']) if r.get('rng') else random.Random(0), r['values'],
                                     r['choices'], r.get('script'))
    print(st, det)
    return 1 if st == 'fail' else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 2))
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    t0 = time.time()
    prop = a.prop
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        mod, hs = load(prop)
    except Exception:  # pylint: disable=broad-except
        # the tree under test does not even import: show it as a violation with the traceback as replay
        path = os.path.join(HERE, 'evidence', f'{prop}.replay.json')
        tb = traceback.format_exc()
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(dict(property=prop, harness='import', obligation='the code under contract can be loaded',
                           detail=tb, reproduced=True), f, indent=1)
        print(tb)
        if '/repo/' in tb.split('contracts')[-1]:
            print(f'VIOLATION property={prop} replay={path}')
            sys.exit(1)
        sys.exit(3)
    tasks = [(i, prop, TIER, SEED, (h.budget_thorough if TIER == 'thorough' else h.budget)) for i, h in enumerate(hs)
             if not a.only or a.only in h.name]
    if hasattr(mod, 'prepare'):
        mod.prepare()
    # longest first
    tasks.sort(key=lambda t: -hs[t[0]].weight)
    results = schedule(tasks, hs, a.j, t0 + (800 if TIER == 'quick' else 6 * 3600))
    viol = [v for r in results for v in r['violations']]
    obs = [(r['name'],) + o for r in results for o in r['obligations']]
    disch = [o for o in obs if o[2] == 'discharged']
    backends = {}
    for o in disch:
        backends[o[3]] = backends.get(o[3], 0) + 1
    # a violation found on a concrete input ranks before one without
    viol.sort(key=lambda v: not v['reproduced'])
    for r in results:
        if a.v or r['notices'] or r['violations']:
            st = 'VIOLATED' if r['violations'] else 'ok'
            nd = sum(1 for o in r['obligations'] if o[1] == 'discharged')
            print(f"[{st}] {r['name']}: {nd}/{len(r['obligations'])} obligations, {r['paths']} paths, "
                  f"{r['evals']} native runs ({r['distinct']} distinct), {r['wall']:.1f}s")
            for n in r['notices']:
                print('    note:', n)
            for v in r['violations']:
                print('    failed obligation:', v['obligation'], '|', v['detail'][:500], '|', v.get('choices'),
                      str(v.get('values'))[:300])
    proved = [r for r in results if r['bounded'] is None and r['obligations'] and not r['unsupported'] and
              all(o[1] == 'discharged' for o in r['obligations'])]
    sized = [r for r in proved if r['size_bound']]
    proved = [r for r in proved if not r['size_bound']]
    bnd = [r for r in results if r not in proved and r not in sized]
    lvl = getattr(mod, 'LEVEL', 'proof')
    trusted = ['CPython and numpy semantics of the statements executed by the real code objects',
               'z3 (linear/nonlinear arithmetic, bit-vectors)', 'pv.num exact trigonometric algebra',
               'pv path explorer (re-execution over all feasible branches)'] + list(getattr(mod, 'TRUSTED', []))
    funs = sorted({f for r in proved for f in r['functions']})
    bfuns = sorted({f for r in bnd + sized for f in r['functions']} - set(funs))
    n_un = sum(1 for r in proved for o in r['obligations'])
    evals = sum(r['evals'] for r in results)
    dist = sum(r['distinct'] for r in results)
    cov = dict(obligations=len(obs), discharged=len(disch),
               checker_cmd=f'VERIF_SEED={SEED} VERIF_TIER={TIER} {PY} /verif/check.py {prop}',
               trusted_base=trusted, back_ends=backends, solver_time_s=round(sum(r['z3time'] for r in results), 2),
               cvc5_cross_checked=sum(r['crossed'] for r in results),
               obligations_unbounded=n_un,
               bounded_in_structure_size=[dict(name=r['name'], bound=r['size_bound'], values='all (symbolic)',
                                               obligations=len(r['obligations'])) for r in sized],
               harnesses_proved=[r['name'] for r in proved],
               functions_under_contract=funs, functions_bounded_only=bfuns,
               bounded_stand_ins=[dict(name=r['name'], bound=r['bounded'] or
                                       'symbolic run left undecided: ' + '; '.join(r['notices'])[:300],
                                       runs=r['evals'], distinct=r['distinct'], exhaustive=r['exhausted'])
                                  for r in bnd],
               paths=sum(r['paths'] for r in results),
               evaluations=evals, distinct_nontrivial=dist,
               rule='native executions of the same contracts on the real code; inputs drawn (or enumerated) by the '
                    'contract harness; non-trivial: at least one postcondition evaluated; distinct by drawn values',
               samples=[dict(harness=r['name'], **s) for r in results for s in r['samples'][:1]][:12])
    if lvl != 'proof':
        cov['explanation'] = getattr(mod, 'EXPLANATION', '')
    assumptions = list(getattr(mod, 'ASSUMPTIONS', [])) + sorted({x for r in results for x in r['assumptions']})
    ev = dict(property=prop, tier=TIER, seed=SEED, level=lvl, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(HERE, 'evidence', f'{prop}.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted({k for r in results for k in r['known']}):
        print(f'KNOWN-FINDING: property={prop} {k}')
    print(f'{prop}: {len(disch)}/{len(obs)} obligations discharged in {len(proved)} contracts + {len(sized)} bounded in '
          f'size; {len(bnd)} bounded stand-ins; {evals} native runs; {time.time() - t0:.1f}s')
    if viol:
        v = viol[0]
        path = os.path.join(HERE, 'evidence', f'{prop}.replay.json')
        with open(path, 'w', encoding='utf-8') as f:
            json.dump(dict(property=prop, **v, replay_cmd=f'{PY} /verif/check.py {prop} --replay {path}'), f, indent=1,
                      default=str)
        print(f'VIOLATION property={prop} replay={path}' + ('' if v['reproduced'] else ' no-failing-input-found'))
        sys.exit(1)
    if evals == 0 and not disch:
        print('check explored nothing')
        sys.exit(3)
    sys.exit(0)


if __name__ == '__main__':
    main()
