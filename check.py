#!/usr/bin/env python3
"""usage: python3-vt check.py PROPERTY      (tier from VERIF_TIER, seed from VERIF_SEED)

1. extracts the functions under contract from /repo's current source and discharges every obligation of the property's
   contracts (pyver, z3, cvc5), one process per contract;
2. meanwhile evaluates the property on the real code (rac: runtime contract checking) - to turn a failed obligation into a
   failing input, and as the bounded stand-in for what the verifier cannot reach;
3. writes evidence/PROPERTY.json and reports."""
import importlib, json, multiprocessing as mp, os, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('RAC_REPO', '/repo')
PYREAL = '/opt/venv/bin/python'
from contracts import registry

def prove_one(prop, idx, timeout, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from pyver.source import Program
        from pyver.verify import verify_contract
        sys.setrecursionlimit(6000)
        c, grp, cfg = registry.contracts(prop)[idx]
        q.put((idx, verify_contract(Program(REPO), c, grp, cfg, timeout)))
    except BaseException as e:
        q.put((idx, dict(key='?', status='out-of-subset', reason='verifier: %s: %s' % (type(e).__name__, e), obligations=0, proved=0, trivial=0, failed=[],
                         backends={}, inlined=[], ext=[], contracts_used=[], assumed=[], seconds=0, solver_seconds=0)))

def prove_all(prop, timeout, wall, jobs):
    grp = [c for c, _, _ in registry.contracts(prop)]
    todo, running, res = list(range(len(grp))), {}, {}
    ctx = mp.get_context('fork')
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=prove_one, args=(prop, i, timeout, q)); p.start()
            running[i] = (p, q, time.time())
        for i, (p, q, t0) in list(running.items()):
            if not q.empty():
                _, res[i] = q.get(); p.join(2); p.kill(); del running[i]
            elif not p.is_alive() or time.time() - t0 > wall:
                p.kill(); del running[i]
                res[i] = dict(key='?', status='out-of-subset', reason='the verifier ran out of its time or memory', obligations=0, proved=0, trivial=0, failed=[], backends={},
                              inlined=[], ext=[], contracts_used=[], assumed=[], seconds=time.time() - t0, solver_seconds=0)
        time.sleep(0.02)
    for i, r in res.items():
        r['key'], r['title'], r['target'] = grp[i].key, grp[i].title, getattr(grp[i], 'target', None)
    return [res[i] for i in sorted(res)]

def rac_env():
    e = dict(os.environ)
    e.update(RAC_REPO=REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONPATH='', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    return e
def rac_start(prop, secs, seed, cands=None):
    out = tempfile.mktemp(prefix='rac_out_', suffix='.json')
    cmd = [PYREAL, os.path.join(HERE, 'rac', 'run.py'), prop, str(secs), str(seed), out]
    cf = None
    if cands is not None:
        cf = out + '.c'
        with open(cf, 'w') as f: json.dump(cands, f, default=str)
        cmd.append(cf)
    return subprocess.Popen(cmd, env=rac_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd='/tmp'), out, cf, time.time(), secs
def rac_wait(h):
    p, out, cf, t0, secs = h
    try: _, err = p.communicate(timeout=max(5, t0 + secs * 2 + 90 - time.time()))
    except subprocess.TimeoutExpired:
        p.kill(); _, err = p.communicate()
        err = b'TIMEOUT ' + (err or b'')
    try:
        with open(out) as f: r = json.load(f)
    except Exception: r = dict(error='the runtime check ended without a result: ' + (err or b'').decode()[-400:], violations=[], evaluations=0, distinct=0, per_check={}, samples=[], rule='')
    for x in (out, cf):
        if x and os.path.exists(x): os.unlink(x)
    return r

def load_known():
    known = []
    with open(os.path.join(HERE, 'known-findings.json')) as f:
        for x in json.load(f): known.append(x)
    return known
def is_known(known, prop, v):
    for k in known:
        if k.get('status') == 'open' and k['property'] == prop and k['match'] in v['what'] and k.get('check') == v['check']: return k
    return None

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    meta = registry.META[prop]
    secs = meta.get('quick_s', 35) if tier == 'quick' else meta.get('thorough_s', 420)
    nrac = 2 if tier == 'quick' else 5
    racs = [rac_start(prop, secs, seed * 100 + i) for i in range(nrac)]
    proofs = prove_all(prop, 12 if tier == 'quick' else 40, 240 if tier == 'quick' else 600, 6 if tier == 'quick' else 4)
    # obligations that were not accepted: ask the real code
    failed = [(r, f) for r in proofs for f in r['failed']]
    cand_res = None
    if failed:
        cands = [dict(contract=r['key'], obligation=f['name'], model=f.get('model')) for r, f in failed]
        cand_res = rac_wait(rac_start(prop, 20, seed, cands))
    rres = [rac_wait(h) for h in racs]
    errors = [r['error'] for r in rres if r.get('error')] + [r['harness'] for r in rres if r.get('harness')]
    viol = []
    for r in rres + ([cand_res] if cand_res else []):
        for v in r['violations']:
            if all(v['check'] != w['check'] or v['what'] != w['what'] for w in viol): viol.append(v)
    if failed and not viol:
        # look longer for a failing input before reporting the bare obligation
        rr = [rac_wait(h) for h in [rac_start(prop, secs, seed * 100 + 50 + i) for i in range(5)]]
        rres += rr
        for r in rr: viol += r['violations']
    outd = os.path.join(HERE, 'out'); os.makedirs(outd, exist_ok=True)
    known = load_known()
    lines, nviol = [], 0
    for k in known:
        if k.get('status') == 'open' and k['property'] == prop: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    concrete = [v for v in viol if not is_known(known, prop, v)]
    for i, v in enumerate(concrete[:3]):
        path = os.path.join(outd, 'replay-%s-%d.json' % (prop, i))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, check=v['check'], case=v['case'], what=v['what'], how='PYTHONPATH= %s %s/rac/run.py --replay %s' % (PYREAL, HERE, path),
                           failed_obligations=[dict(function=r['target'], obligation=f['name'], model=f.get('model')) for r, f in failed]), f, indent=1, default=str)
        print('%s: %s' % (prop, v['what'][:600]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path)); nviol += 1
    if failed and not concrete and not viol:
        path = os.path.join(outd, 'replay-%s-obligation.json' % prop)
        with open(path, 'w') as f:
            json.dump(dict(property=prop, failed_obligations=[dict(contract=r['key'], title=r['title'], function=r['target'], **{k: v for k, v in fo.items()}) for r, fo in failed]), f, indent=1, default=str)
        for r, fo in failed[:5]: print('%s: obligation not discharged: %s (%s)' % (prop, fo['name'], fo['status']))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)); nviol += 1
    # evidence
    undecided = [r for r in proofs if r['status'] in ('out-of-subset', 'empty')]
    obl, dis = sum(r['obligations'] for r in proofs), sum(r['proved'] for r in proofs)
    backends = {}
    for r in proofs:
        for k, v in r['backends'].items(): backends[k] = backends.get(k, 0) + v
    ext = sorted({x for r in proofs for x in r['ext']})
    complete = bool(proofs) and not undecided and not failed
    level = meta['level'] if complete else ('other' if meta['level'] == 'proof' else meta['level'])
    cov = dict(obligations=obl, discharged=dis, checker_cmd='cd /verif && VERIF_TIER=%s VERIF_SEED=%d python3-vt check.py %s' % (tier, seed, prop),
               trusted_base=['pyver: the translation of the Python subset to verification conditions (/verif/pyver)', 'z3 %s, cvc5' % z3ver()] +
                            ['assumed contract of the library function %s' % x for x in ext] + meta.get('trusted', []),
               backends=backends, trivially_true_obligations=sum(r['trivial'] for r in proofs), solver_seconds=round(sum(r['solver_seconds'] for r in proofs), 2),
               verifier_seconds=round(sum(r['seconds'] for r in proofs), 2),
               functions_under_contract=[dict(contract=r['key'], function=r['target'], statement=r['title'], status=r['status'], obligations=r['obligations'], discharged=r['proved'],
                                              inlined_callees=r['inlined'], callee_contracts=r['contracts_used'], reason=r.get('reason')) for r in proofs],
               not_discharged=[dict(contract=r['key'], obligation=f['name'], status=f['status']) for r, f in failed],
               bounded=dict(evaluations=sum(r['evaluations'] for r in rres), distinct_nontrivial=sum(r['distinct'] for r in rres),
                            per_check={k: sum(r['per_check'].get(k, 0) for r in rres) for k in {k for r in rres for k in r['per_check']}},
                            bound='%d processes x %d s of generated cases' % (nrac, secs), label='bounded: runtime contract checking of the real code; not counted as proved',
                            stands_in_for=[dict(contract=r['key'], function=r['target'], reason=(r.get('reason') or '')[-300:]) for r in undecided] + meta.get('bounded_only', [])),
               evaluations=sum(r['evaluations'] for r in rres), distinct_nontrivial=sum(r['distinct'] for r in rres),
               rule=next((r['rule'] for r in rres if r.get('rule')), 'generated cases; distinct by content'), samples=[s for r in rres for s in r['samples']][:4],
               explanation=meta.get('explanation', 'deductive verification of contracts on the real functions, plus a bounded check of the real code'))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=registry.ASSUMPTIONS + meta.get('assumptions', []) + (['runtime check trouble: ' + str(e)[-300:] for e in errors]))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for r in undecided: print('%s: %s is outside the verifier (%s): bounded check only' % (prop, r['key'], (r.get('reason') or '').strip().split('\n')[-1][:160]))
    print('%s: %d of %d obligations discharged in %d contracts; bounded check: %d cases; %.1f s' % (prop, dis, obl, len(proofs), cov['evaluations'], time.time() - t0))
    for l in lines: print(l)
    if lines: return 1
    if errors:
        for e in errors: print('note: ' + str(e)[-400:], file=sys.stderr)
    if (not proofs or undecided) and all(r.get('error') for r in rres):
        print('no answer: neither the verifier nor the runtime check could run', file=sys.stderr); return 2
    return 0

def z3ver():
    import z3
    return z3.get_version_string()
if __name__ == '__main__': sys.exit(main())
