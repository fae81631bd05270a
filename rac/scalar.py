"""Runtime checking of the scalar contracts: the very specifications that are proved, evaluated on floats."""
import importlib, math
from types import SimpleNamespace
from pyver.spec import Conc, A, Lemma
from rac.base import *

class Stub:
    """a reward scheme that pays a fixed reward function"""
    def __init__(self, c1, c2, beta): self.c1, self.c2, self.global_saturation_threshold, self.k, self.a0 = c1, c2, beta, max(1, int(1 / beta) if beta else 1), 0.3
    def calculate_pool_reward(self, pool_pledge, pool_stake): return self.c1 * min(pool_stake, self.global_saturation_threshold) + self.c2 * pool_pledge
    def get_pool_saturation_threshold(self, pool_pledge): return self.global_saturation_threshold

def make_rss(spec):
    import logic.reward_schemes as rs
    if spec['cls'] == 'Stub': return Stub(spec['c1'], spec['c2'], spec['beta'])
    o = getattr(rs, spec['cls'])(spec['k'], spec['a0'])
    for f in ('crossover_factor', 'curve_root'):
        if f in spec and hasattr(o, f): setattr(o, f, spec[f])
    if spec.get('k2'): o.k = spec['k2']
    return o
def gen_rss(rng, cls):
    if cls is None:
        if rng.random() < .5: return {'cls': 'Stub', 'c1': rng.choice([1.0, 0.0, rng.random()]), 'c2': rng.choice([0.0, rng.random()]), 'beta': logu(rng, 1e-3, 1)}
        cls = rng.choice(['CardanoRSS', 'SimplifiedRSS', 'FlatPledgeBenefitRSS', 'CurvePledgeBenefitRSS', 'CIP50RSS'])
    d = {'cls': cls, 'k': rng.choice([1, 2, 3, 5, 10, 100, 500, rng.randint(1, 1000)]), 'a0': rng.choice([0.0, 0.3, 1.0, 2.0, 50.0, 10.0, rng.random(), rng.random() * 100])}
    if cls.startswith('Curve') and rng.random() < .4: d['crossover_factor'] = rng.choice([1, 2, 8, 20]); d['curve_root'] = rng.choice([1, 2, 3, 4])
    if rng.random() < .25: d['k2'] = rng.choice([1, 2, 7, 100, 33.7, rng.randint(1, 1000)])
    return d

def contract(prop, key):
    m = importlib.import_module('contracts.scalar')
    for c in getattr(m, prop):
        if c.key == key: return c
    raise KeyError(key)

@check
def scalar_contract(case):
    c = contract(case['prop'], case['contract'])
    S = Conc()
    d = {}
    for n, t in c.params.items():
        v = case['args'][n]
        d[n] = make_rss(v) if isinstance(v, dict) else v
    a = A(d)
    if c.requires and not all(ok for _, ok in c.requires(S, a)): return None
    if isinstance(c, Lemma):
        for name, ok in c.ensures(S, a):
            if not ok: return '%s: %s fails for %s' % (c.key, name, case['args'])
        return None
    mod, qual = c.target.split(':')
    m = importlib.import_module(mod)
    raises = {e: cond(S, a) for e, cond in c.raises.items()}
    parts = qual.split('.')
    try:
        if len(parts) == 1: r = getattr(m, parts[0])(**d)
        elif parts[-1] == 'setter': setattr(d['self'], parts[1], d[[n for n in d if n != 'self'][0]]); r = None
        else:
            kw = dict(d); o = kw.pop('self'); r = getattr(o, parts[1])(**kw)
    except Exception as e:
        if raises.get(type(e).__name__): return None
        return '%s raised %s(%s) for %s' % (qual, type(e).__name__, e, case['args'])
    for e, must in raises.items():
        if must: return '%s did not raise %s for %s' % (qual, e, case['args'])
    if c.value is not None:
        v = c.value(S, a)
        if not S.eq(r, v): return '%s returned %r, the specification (%s) says %r, for %s' % (qual, r, c.title, v, case['args'])
    if c.ensures:
        for name, ok in c.ensures(S, a, r):
            if not ok: return '%s: "%s" fails (result %r) for %s' % (qual, name, r, case['args'])
    return None

def gen_args(rng, c):
    d, pool = {}, [real(rng) for _ in range(3)]
    for n, t in c.params.items():
        if isinstance(t, str) and t.startswith('rss:'): d[n] = gen_rss(rng, t[4:])
        elif t == 'Rss': d[n] = gen_rss(rng, None)
        elif t == 'int': d[n] = rng.choice([1, 2, 3, 5, 10, 100, rng.randint(0, 500), 0, -1])
        elif 'margin' in n or 'fraction' in n or n in ('f1', 'f2'): d[n] = rng.choice([0.0, 1.0, 0.5, rng.random(), rng.random(), rng.random() ** 4])
        else: d[n] = rng.choice(pool) * rng.choice([1, 1, 1, 2, .5, 1.1]) if rng.random() < .4 else real(rng)
    thr = None
    for v in d.values():
        if isinstance(v, dict) and 'k' in v: thr = 1 / v.get('k2', v['k'])
        elif isinstance(v, dict): thr = v['beta']
    if thr:
        for n in d:
            if isinstance(d[n], float) and n not in ('a0',) and 'margin' not in n and rng.random() < .6: d[n] = thr * rng.choice([0.0, 1.0, 1.0, 0.5, 2.0, rng.random(), rng.random() * 3, 1e-6])
    # make order requirements likely
    for lo, hi in (('pledge', 'pledge2'), ('stake', 'stake2'), ('pool_pledge', 'pool_stake'), ('pledge', 'pool_stake'), ('stake_allocation', 'pool_stake')):
        if lo in d and hi in d and d[lo] > d[hi] and rng.random() < .85: d[lo], d[hi] = d[hi], d[lo]
    if 'f1' in d and 'f2' in d: d['f2'] = 1 - d['f1']
    if c.key == 'C05.margin' and rng.random() < .3: d['target_desirability'] = d['potential_profit'] * rng.choice([1.0, 0.5, 1.0000001, 0.9999999])
    return d

def run_scalars(ctx, prop, share=1.0):
    m = importlib.import_module('contracts.scalar')
    cs = [c for c in getattr(m, prop) if not getattr(c, 'skip_rac', False)]
    i = 0
    while ctx.more(share):
        i += 1
        for c in cs:
            for _ in range(5):
                ctx.run('scalar_contract', {'prop': prop, 'contract': c.key, 'args': gen_args(ctx.rng, c)})
        if i > 4000: break

def scalar_candidates(ctx, prop, cands):
    m = importlib.import_module('contracts.scalar')
    cs = {c.key: c for c in getattr(m, prop)}
    for cand in cands:
        c = cs.get(cand['contract'])
        if c is None or not cand.get('model'): continue
        d = {}
        for n, t in c.params.items():
            v = cand['model'].get(n)
            if isinstance(v, dict):
                thr = v.get('global_saturation_threshold', 1.0) or 1.0
                if v.get('cls'):
                    v = {'cls': v['cls'], 'k': max(1, round(1 / thr)) if thr > 0 else 1, 'a0': v.get('a0', 0.3), 'k2': 1 / thr if thr > 0 else None,
                         **{f: v[f] for f in ('crossover_factor', 'curve_root') if f in v}}
                else: v = gen_rss(ctx.rng, None)
            elif v is None and (t == 'Rss' or str(t).startswith('rss:')): v = gen_rss(ctx.rng, None if t == 'Rss' else t[4:])
            d[n] = v
        if any(v is None or isinstance(v, str) for v in d.values()): continue
        ctx.run('scalar_contract', {'prop': prop, 'contract': c.key, 'args': d})
