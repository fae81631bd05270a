from rac.base import *
from rac.simkit import *
import subprocess, sys
RULE = 'each generated simulation run twice in one process (global generators and caches disturbed in between), once more from the reported seed when none is given, and in fresh processes with different hash seeds'
def digest(kw, keep_seed=None):
    with fresh_dir(), contextlib.redirect_stdout(io.StringIO()):
        m = make_sim(kw)
        with open(m.directory / 'initial-state-descriptors.json') as f: seed = json.load(f)['Randomness seed']
        out = [[(a.unique_id, type(a).__name__, repr(a.stake), repr(a.cost)) for a in m.get_agents_list()]]
        lim = 40
        while m.running and lim:
            lim -= 1; m.step()
            out.append([(p.id, p.owner, repr(p.stake), repr(p.pledge), repr(p.margin), repr(p.cost), sorted((k, repr(v)) for k, v in p.delegators.items())) for p in m.pools.values()])
        out.append({k: repr(v) for k, v in m.datacollector.model_vars.items()})
    return seed, json.loads(json.dumps(out))
def diff(a, b):
    if len(a) != len(b): return '%d rounds against %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return 'the initial agents differ' if i == 0 else 'the metrics differ' if isinstance(x, dict) else 'the pools after round %d differ' % i
@check
def twice(c):
    import numpy as np
    random.seed(c['g'][0]); np.random.seed(c['g'][0])
    kw = c['kw']
    s1, d1 = digest(kw)
    random.seed(c['g'][1]); np.random.seed(c['g'][1]); [random.random() for _ in range(c['g'][1] % 7)]
    if c.get('between'): digest(c['between'])
    kw2 = dict(kw)
    if kw.get('seed') is None: kw2['seed'] = s1
    else: need(s1 == kw['seed'], 'seed %r is reported as %r' % (kw['seed'], s1))
    s2, d2 = digest(kw2)
    d = diff(d1, d2)
    need(not d, 'the same parameters and seed %r evolve differently: %s' % (s1, d))
@check
def processes(c):
    env = dict(os.environ); outs = []
    for h in ('1', '2'):
        env['PYTHONHASHSEED'] = h
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'digest.py'), json.dumps(c['kws'])], env=env, capture_output=True, timeout=120)
        need(r.returncode == 0, 'a fresh process failed: ' + r.stderr.decode()[-300:])
        outs.append(json.loads(r.stdout.decode().splitlines()[-1]))
    for kw, a, b in zip(c['kws'], *outs):
        d = diff(a, b)
        need(not d, 'two processes evolve differently from %r: %s' % (kw, d))
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        if i % 30 == 2:
            ctx.run('processes', dict(kws=[gen_sim(rng, nmax=12) for _ in range(5)])); continue
        kw = gen_sim(rng, nmax=14)
        if rng.random() < .3: kw['seed'] = None
        elif rng.random() < .1: kw['seed'] = 0
        ctx.run('twice', dict(kw=kw, g=[rng.randint(0, 9999), rng.randint(0, 9999)], between=gen_sim(rng, nmax=6) if rng.random() < .3 else None))
