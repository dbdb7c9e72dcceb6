#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] : decide one property on /repo's working tree."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TRACER_REPO', '/repo')
PY3 = '/usr/bin/python3'
TRANSLATE = '/opt/vp/py3/translate.py'
PYPY = '/opt/venvpp/bin/python'
sys.path.insert(0, VERIF)
sys.setrecursionlimit(20000)


def translate(dest):
    t0 = time.time()
    r = subprocess.run([PY3, TRANSLATE, os.path.join(REPO, 'tracer'), os.path.join(dest, 'tracer')],
                       capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout + r.stderr)
        raise SystemExit(2)
    return time.time() - t0


def worker(args):
    prop, name, tree, tier, scale = args
    warnings.simplefilter('ignore')
    try:
        from symx import load, explore, solve
        from harness import registry
        if not load.TOUCHED.get('__installed__'):
            load.install(tree)
            load.TOUCHED['__installed__'] = True
        h = registry.load(prop)[name]
        T = load.namespace()
        opts = dict(h.opts)
        budget = h.budget * scale
        if tier == 'thorough':
            opts['oblig_timeout'] = opts.get('oblig_timeout', 15.) * 4
            opts['feas_timeout'] = opts.get('feas_timeout', 4.) * 3
        r = explore.Run(h.fn, T, budget=budget, **opts).go()
        load.TOUCHED.pop('__installed__', None)
        return dict(name=name, counts=r.counts, left=r.left, unknowns=r.unknowns, unsupported=r.unsupported,
                    wall=r.wall, stats=solve.STATS.as_dict(), witnesses=r.witnesses, fallback=r.fallback,
                    cands=[dict(what=c.what, values=c.values, kind=c.kind, robust=c.robust, knife=c.knife,
                                detail=getattr(c, 'detail', '')) for c in r.cands],
                    knife=r.knife,
                    touched=[(f, q, sorted(l)) for (f, q), l in load.TOUCHED.items()])
    except BaseException:
        return dict(name=name, error=traceback.format_exc())


def replay(prop, tree, cases, scratch):
    """Run cases on the real code; list of results."""
    if not cases:
        return []
    n = min(6, max(1, len(cases) // 60))
    procs = []
    for k in range(n):
        jf, of = os.path.join(scratch, 'job%d.json' % k), os.path.join(scratch, 'out%d.json' % k)
        with open(jf, 'w') as f:
            json.dump(dict(tree=tree, verif=VERIF, property=prop, cases=cases[k::n]), f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        procs.append((subprocess.Popen([PYPY, os.path.join(VERIF, 'symx', 'concrete.py'), jf, of],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env), of))
    out = [None] * len(cases)
    for k, (p, of) in enumerate(procs):
        o, _ = p.communicate()
        if p.returncode:
            sys.stderr.write(o[-3000:])
            raise SystemExit('replay failed')
        for i, r in enumerate(json.load(open(of))):
            out[k + i * n] = r
    return out


def close(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
        return a == b
    try:
        return abs(a - b) <= 1e-5 * max(1., abs(a), abs(b))
    except TypeError:
        return False


def known_findings(prop):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'known']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.property
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vt_')
    try:
        code = run(prop, a, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def run(prop, a, scratch, t0):
    tree = os.path.join(scratch, 'tree')
    os.mkdir(tree)
    tt = translate(tree)
    from harness import registry
    hs = registry.load(prop)
    names = [n for n, h in hs.items() if (a.tier == 'thorough' or h.tier == 'quick') and (not a.only or a.only in n)]
    scale = 1.0 if a.tier == 'quick' else 6.0
    names.sort(key=lambda n: -hs[n].budget)
    ctx = mp.get_context('fork')
    results = []
    with ctx.Pool(min(a.jobs, max(1, len(names))), maxtasksperchild=1) as pool:
        it = pool.imap_unordered(worker, [(prop, n, tree, a.tier, scale) for n in names], chunksize=1)
        limit = t0 + (700. if a.tier == 'quick' else 3 * 3600.)
        while len(results) < len(names):
            try:
                r = it.next(max(0.1, limit - time.time()))
            except mp.TimeoutError:
                pool.terminate()
                break
            results.append(r)
            if a.v and 'error' not in r:
                print('  %-40s %.1fs %s left=%d q=%d st=%.1fs max=%.1f %s' % (
                    r['name'], r['wall'], r['counts'], r['left'], r['stats']['queries'], r['stats']['solver_time_s'],
                    r['stats']['slowest_query_s'], r['stats']['decided_by']), flush=True)
                for d in (r['unknowns'], r['unsupported']):
                    for k, v in d.items():
                        print('      ', v, 'x', k)
    errs = [r for r in results if 'error' in r]
    for r in errs:
        print('INCONCLUSIVE harness %s failed:\n%s' % (r['name'], r['error']))
    results = [r for r in results if 'error' not in r]
    results.sort(key=lambda r: r['name'])
    late = sorted(set(names) - set(r['name'] for r in results + errs))
    for n in late:
        print('INCONCLUSIVE harness %s: not finished within the time of the check' % n)

    # replays
    cases, meta = [], []
    for r in results:
        for c in r['cands']:
            cases.append(dict(harness=r['name'], values=c['values']))
            meta.append((r, c, None))
        for w in r['witnesses']:
            cases.append(dict(harness=r['name'], values=w['values']))
            meta.append((r, None, w))
        for v in r['fallback']:
            cases.append(dict(harness=r['name'], values=v))
            meta.append((r, None, None))
    res = replay(prop, tree, cases, scratch)
    violations, unrepro = [], []
    wit = dict(replayed=0, agree=0, disagree=0, assumption=0, not_robust=0, fallback=0)
    detail = []
    for (r, c, w), x, case in zip(meta, res, cases):
        whats = [f[0] for f in x['failures']]
        hard = [f[0] for f in x['failures'] if f[2]]
        if x['status'] == 'crash':
            whats.append(x['what'])
            hard.append(x['what'])
        if c is not None:
            hit = x['status'] != 'assumption' and bool(whats)
            if hit and c['knife'] and not c['robust'] and r['knife'] == 'drop':
                if a.v:
                    print('   knife-edge dropped:', r['name'], c['what'])
                continue
            if hit:
                if c['what'] not in whats:
                    c = dict(c, what=whats[0])
                violations.append((r['name'], c, x, case))
            else:
                unrepro.append((r['name'], c, x, case))
            continue
        if w is None:
            wit['fallback'] += 1
            if x['status'] != 'assumption' and hard:
                violations.append((r['name'], dict(what=hard[0], values=case['values'], detail=''), x, case))
            continue
        wit['replayed'] += 1
        if x['status'] == 'assumption':
            wit['assumption'] += 1
        elif not w['robust']:
            wit['not_robust'] += 1
        else:
            ok = x['status'] == 'ok' and not x['failures'] and all(
                k in x['obs'] and close(v, x['obs'][k]) for k, v in w['obs'].items())
            wit['agree' if ok else 'disagree'] += 1
            if not ok:
                detail.append(dict(harness=r['name'], values=case['values'], status=x['status'],
                                   failures=x['failures'][:3], sym=w['obs'], real=x['obs'], detail=x.get('detail'),
                                   tb=x.get('tb'), slack=w['slack']))
            if hard and w['slack'] >= 1e-3:
                violations.append((r['name'], dict(what=hard[0], values=case['values'], detail=''), x, case))
    # a refuted obligation none of whose models reproduce is not reported as a violation
    viol_keys = set((v[0], v[1]['what']) for v in violations)
    unre = {}
    for n, c, x, case in unrepro:
        if (n, c['what']) not in viol_keys and (a.v or (c['robust'] and not c['knife'])):
            unre.setdefault((n, c['what']), (c, x))
    known = known_findings(prop)
    seen_known, fresh = {}, []
    for v in violations:
        k = next((k for k in known if v[0] in (k['harness'] if isinstance(k['harness'], list) else [k['harness']]) and (v[1]['what'].startswith(k['what']))), None)
        if k is not None:
            seen_known[k['id']] = k
        else:
            fresh.append(v)
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['description']))
    shown = set()
    rdir = os.path.join(VERIF, 'replays')
    for n, c, x, case in fresh:
        key = (n, c['what'])
        if key in shown or len(shown) >= 5:
            continue
        shown.add(key)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%d.json' % (prop, len(shown)))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, harness=n, what=c['what'], values=c['values'], result=x), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('   %s: %s %s' % (n, c['what'], c['detail'] or (x['failures'][:2] or x.get('detail'))))
    for (n, w), (c, x) in unre.items():
        print('UNREPRODUCED %s: %s (real run: %s %s)' % (n, w, x['status'], x.get('detail') or x['failures'][:2]))
        if a.v:
            print('     ', dict((k, v) for k, v in c['values'].items() if '~mem' not in k))
    if a.v:
        print('witnesses', wit)
        for d in detail[:4]:
            print('   disagreement', json.dumps(d)[:1500])
    vac = [r['name'] for r in results if not r['counts'].get('path_ok') and not r['cands'] and not r['unsupported']]
    for r in results:
        if r['unsupported']:
            print('INCONCLUSIVE paths in %s: %s' % (r['name'], r['unsupported']))
    write_evidence(prop, a, results, wit, detail, fresh, seen_known, unre, vac, late, errs, t0, tt, hs)
    if fresh:
        return 1
    for n in vac:
        print('INCONCLUSIVE harness %s: no path was explored to its end' % n)
    if len(errs) + len(vac) + len(late) >= len(names):
        return 2
    print('OK property=%s tier=%s paths=%d obligations=%d queries=%d wall=%.1fs' % (
        prop, a.tier, sum(r['counts'].get('path_ok', 0) for r in results),
        sum(r['counts'].get('obligations', 0) for r in results),
        sum(r['stats']['queries'] for r in results), time.time() - t0))
    return 0


def write_evidence(prop, a, results, wit, detail, fresh, seen_known, unre, vac, late, errs, t0, tt, hs):
    from harness import registry
    m = importlib.import_module('harness.' + prop.lower())
    tot = {}
    for r in results:
        for k, v in r['counts'].items():
            tot[k] = tot.get(k, 0) + v
    by = {}
    for r in results:
        for k, v in r['stats']['decided_by'].items():
            by[k] = by.get(k, 0) + v
    fns = {}
    for r in results:
        for f, q, l in r['touched']:
            fns.setdefault((f, q), set()).update(l)
    if os.environ.get('SYMX_LINES'):
        with open(os.path.join(os.environ['SYMX_LINES'], prop + '.json'), 'w') as f:
            json.dump([[k[0], k[1], sorted(v)] for k, v in fns.items()], f)
    ev = dict(
        property=prop, tier=a.tier, seed=int(os.environ.get('VERIF_SEED', '0') or 0), level='other',
        coverage=dict(
            explanation='Bounded symbolic execution of the translated working tree; every obligation on every '
                        'explored path is put to an SMT solver (z3 linear relaxation, z3 nlsat, z3 smt). '
                        + (getattr(m, 'BOUNDS', '') or ''),
            functions_encoded=sorted('%s:%s' % k for k in fns if k[1] != '<module>'),
            lines_encoded=sum(len(v) for v in fns.values()),
            harnesses=[dict(name=r['name'], paths=r['counts'].get('path_ok', 0),
                            obligations=r['counts'].get('obligations', 0),
                            discharged=r['counts'].get('discharged', 0),
                            unknown=r['counts'].get('unknown', 0),
                            decided_with_some_inputs_fixed=r['counts'].get('reduced', 0),
                            paths_not_explored=r['left'], unsupported=r['unsupported'],
                            unknown_obligations=r['unknowns'], wall_s=round(r['wall'], 2)) for r in results],
            paths=tot.get('path_ok', 0), infeasible_paths=tot.get('path_infeasible', 0),
            obligations=tot.get('obligations', 0), obligations_discharged=tot.get('discharged', 0),
            obligations_unknown=tot.get('unknown', 0), obligations_with_some_inputs_fixed=tot.get('reduced', 0),
            paths_not_explored=sum(r['left'] for r in results),
            feasibility_unknown=tot.get('unknown_feasibility', 0),
            queries=sum(r['stats']['queries'] for r in results),
            queries_given_to_z3=sum(v for k, v in by.items() if k.startswith('z3')),
            obligations_false_by_normal_form=by.get('normal-form', 0),
            queries_unsat=sum(r['stats']['unsat'] for r in results),
            queries_sat=sum(r['stats']['sat'] for r in results),
            queries_unknown=sum(r['stats']['unknown'] for r in results),
            solver_time_s=round(sum(r['stats']['solver_time_s'] for r in results), 2),
            decided_by=by, reachability_witnesses=wit, witness_disagreements=detail[:5],
            translate_s=round(tt, 2),
            not_reproduced=['%s: %s' % k for k in unre], harnesses_without_a_complete_path=vac, harnesses_failed=[e['name'] for e in errs], harnesses_not_finished=late,
            known_findings_seen=[k['id'] for k in seen_known.values()],
        ),
        assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + [
            'floating-point arithmetic is modelled as exact real arithmetic (obligations carry a margin, default 1e-6)',
            'numpy and math are replaced by symbolic models of the calls the code makes; each explored path is '
            'validated by running its witness on the real code',
            'Python 2 source is translated with the same lib2to3 step the build uses'],
        wall_s=round(time.time() - t0, 2),
        violations=[dict(harness=n, what=c['what'], values=c['values']) for n, c, x, case in fresh[:10]])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
