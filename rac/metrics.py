"""Independent definitions of the documented metrics (docs/metrics.md) on a state of the system."""
from rac.base import *
from rac.simkit import *
NAMES = {1: "Pool count", 2: "Total pledge", 3: "Mean pledge", 4: "Median pledge", 5: "Average pools per operator", 6: "Max pools per operator", 7: "Median pools per operator",
         8: "Average saturation rate", 9: "Nakamoto coefficient", 10: "Statistical distance", 11: "Min-aggregate pledge", 12: "Pledge rate", 13: "Pool homogeneity factor", 14: "Iterations",
         15: "Mean stake rank", 16: "Mean cost rank", 17: "Median stake rank", 18: "Median cost rank", 19: "Number of pool splitters", 20: "Cost efficient stakeholders", 21: "StakePairs",
         22: "Gini-id", 23: "Gini-id stake", 24: "Mean margin", 25: "Median margin", 26: "Stake per agent", 27: "Stake per agent id", 28: "Total delegated stake", 29: "Total agent stake", 30: "Operator count"}
NAMED = {"Gini-id (k)": 'gk', "Gini-id stake (k)": 'gsk'}
def mean(x): return math.fsum(x) / len(x) if x else 0
def median(x):
    x = sorted(x); n = len(x)
    if not n: return 0
    return x[n // 2] if n % 2 else (x[n // 2 - 1] + x[n // 2]) / 2
def by_owner(st, what):
    d = {}
    for p in st['pools']: d[p['owner']] = d.get(p['owner'], 0) + (1 if what == 'n' else p['stake'])
    return d
def gini(xs):
    s = math.fsum(xs)
    if s == 0: return None
    return math.fsum(abs(a - b) for a in xs for b in xs) / (2 * len(xs) * s)
def rank(vals, best):
    """ids ranked: best value first, ties to the smaller id"""
    order = sorted(vals, key=lambda i: (-vals[i] if best == 'max' else vals[i], i))
    return {i: r + 1 for r, i in enumerate(order)}
def nakamoto(vals):
    """smallest coalition with more than half; None when rounding decides"""
    v = sorted(vals, reverse=True); tot = math.fsum(v)
    for i in range(1, len(v) + 1):
        s = math.fsum(v[:i])
        if s != tot / 2 and abs(s - tot / 2) < 1e-13: return None
        if s > tot / 2: return i
    return None
def value(i, st):
    P, A = st['pools'], st['agents']; e = st['econ']
    pl, sk, mg = [p['pledge'] for p in P], [p['stake'] for p in P], [p['margin'] for p in P]
    cnt, con = by_owner(st, 'n'), by_owner(st, 's')
    k = st['k']
    if i == 1: return len(P)
    if i == 2: return math.fsum(pl)
    if i == 3: return mean(pl)
    if i == 4: return median(pl)
    if i == 5: return len(P) / len(cnt) if P else 0
    if i == 6: return max(cnt.values()) if P else 0
    if i == 7: return median(list(cnt.values()))
    if i == 8: return mean([p['stake'] / e.thr(p['pledge']) for p in P])
    if i == 9: return nakamoto([con.get(a['id'], 0) for a in A]) if P else 0
    if i == 10: return math.fsum(abs(con.get(a['id'], 0) - a['stake']) for a in A) / 2 if P else 0
    if i == 12: return math.fsum(pl) / math.fsum(sk) if P else 0
    if i == 13: return math.fsum(sk) / (len(P) * max(sk)) if P else 0
    if i == 14: return st['steps']
    if i in (15, 16, 17, 18):
        r = rank({a['id']: a['stake'] if i in (15, 17) else a['cost'] for a in A}, 'max' if i in (15, 17) else 'min')
        x = [r[p['owner']] for p in P]
        if not x: return 0
        m = (sum(x) / len(x)) if i < 17 else median(x)
        import fractions
        m = fractions.Fraction(sum(x), len(x)) if i < 17 else fractions.Fraction(median(x))
        return round(m)
    if i == 19: return sum(c > 1 for c in cnt.values())
    if i == 20:
        pp = [e.pp(a['stake'], a['cost']) for a in A]
        return None if any(0 < abs(x) < 1e-13 for x in pp) else sum(x > 0 for x in pp)
    if i == 21:
        own = {a['id']: a['stake'] for a in A}
        return dict(x=[own[p['owner']] for p in P], y=sk, r=mg, pool_id=[p['id'] for p in P], owner_id=[p['owner'] for p in P])
    if i == 22: return gini(list(cnt.values()))
    if i == 23: return gini(list(con.values()))
    pad = lambda v: v + [0] * max(0, k - len(v))
    if i == 'gk': return gini(pad(list(cnt.values())))
    if i == 'gsk': return gini(pad(list(con.values())))
    if i == 24: return mean(mg)
    if i == 25: return median(mg)
    if i == 26: return [con.get(j, 0) for j in range(len(A))]
    if i == 27: return {j: con.get(j, 0) for j in range(len(A))}
    if i == 28: return math.fsum(sk)
    if i == 29: return math.fsum(a['stake'] for a in A)
    if i == 30: return len(cnt)
def same(x, y):
    if isinstance(y, dict):
        return set(x) == set(y) and all(same(x[a], y[a]) for a in y)
    if isinstance(y, list): return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    return close(x, y, 1e-9, 1e-12)
def snap(m):
    return dict(pools=[dict(id=p.id, owner=p.owner, stake=p.stake, pledge=p.pledge, margin=p.margin) for p in m.pools.values()],
                agents=[dict(id=a.unique_id, stake=a.stake, cost=a.cost) for a in m.schedule.agents], econ=econ(m), k=m.reward_scheme.k, steps=m.schedule.steps)
def small(c):
    """a model in an arbitrary state"""
    import logic.sim as sim, logic.stakeholder_profiles as pr, logic.reward_schemes as R
    from logic.pool import Pool
    from mesa.time import BaseScheduler
    m = sim.Simulation.__new__(sim.Simulation)
    m.n, m.reward_scheme, m.schedule = len(c['agents']), R.RSS_MAPPING[c['scheme']](c['k'], c['a0']), BaseScheduler(m)
    m.pool_rankings, m.pool_rankings_myopic = [], []
    m.schedule.steps = c['steps']
    if c['pools'] is not None: m.pools = {}
    for i, (s, co, prof) in enumerate(c['agents']): m.schedule.add(pr.PROFILE_MAPPING[prof](unique_id=i, model=m, stake=s, cost=co))
    for j, (o, s, pl, mg) in enumerate(c['pools'] or []):
        p = Pool(pool_id=j * c['gap'] + 1, cost=0.001, pledge=pl, owner=o, reward_scheme=m.reward_scheme, margin=mg)
        p.stake = s
        m.pools[p.id] = p
    return m
def gen_small(rng, nopools=.08):
    n = rng.choice([1, 2, 3, 5, 8, 20, rng.randint(1, 40)])
    pick = rng.choice([lambda: real(rng, 0), lambda: rng.choice([0.25, 0.5, 0.125, 0.0625]), rng.random, lambda: rng.randint(1, 4) / 8])
    ags = [[pick() if rng.random() > .05 else 0.0, rng.choice([1e-3, 1e-4, real(rng)]), rng.choice([0, 0, 1, 2])] for _ in range(n)]
    ags[0][0] = ags[0][0] or 0.5
    q = 0 if rng.random() < nopools else rng.choice([1, 2, 3, 5, 10, rng.randint(1, 30)])
    same_ = rng.random() < .2
    v = pick() or 1.0
    pools = []
    for _ in range(q):
        s = v if same_ else (pick() or 1.0)
        pools.append([rng.randrange(n) if rng.random() < .8 else 0, s, s * rng.choice([1, .5, .1, rng.random(), 0.01]), rng.choice([0, 0, 1, .5, rng.random()])])
    sch = rng.choice([0, 0, 1, 2, 3, 4])
    return dict(agents=ags, pools=pools, scheme=sch, k=rng.choice([1, 2, 3, 10, 100]), a0=rng.choice([.3, 1.0, 5.0]), steps=rng.randint(0, 50), gap=rng.choice([1, 1, 3]))
def pic(m): return [(p.id, p.owner, p.stake, p.pledge, p.margin, p.cost, p.desirability, p.potential_profit, p.is_private, dict(p.delegators)) for p in m.pools.values()], \
                   [(a.unique_id, a.stake, a.cost) for a in m.schedule.agents], m.reward_scheme.k, m.reward_scheme.a0, m.schedule.steps
def metric_case(c, ids):
    import logic.model_reporters as mr
    m = small(c); st = snap(m)
    ids = [i for i in ids if i != 8 or all(st['econ'].thr(p['pledge']) > 0 for p in st['pools'])]
    for i in ids:
        nm = NAMES.get(i) or [a for a, b in NAMED.items() if b == i][0]
        if isinstance(i, int): need(mr.REPORTER_IDS.get(i) == nm, 'metric %d is %r, documented as %r' % (i, mr.REPORTER_IDS.get(i), nm))
        before = pic(m)
        got, want = mr.ALL_MODEL_REPORTEERS[nm](m), value(i, st)
        need(pic(m) == before, 'reporting "%s" changes the system' % nm)
        if want is None: continue
        need(same(got, want), '%s is reported as %r, should be %r' % (nm, got, want))
        if i in (22, 23, 'gk', 'gsk'): need(-1e-12 <= got <= 1 + 1e-12, '%s is %r' % (nm, got))
class MWatch(Watch):
    def before_round(self): self.st = snap(self.m); self.n = len(next(iter(self.m.datacollector.model_vars.values())))
    def after_round(self):
        for nm, v in self.m.datacollector.model_vars.items():
            i = [a for a, b in NAMES.items() if b == nm][0]
            if i not in self.ids: continue
            need(len(v) == self.n + 1, '%s collected %d times in a round' % (nm, len(v) - self.n))
            if i == 8 and any(self.st['econ'].thr(p['pledge']) <= 0 for p in self.st['pools']): continue
            w = value(i, self.st)
            if w is not None: need(same(v[-1], w), '%s is collected as %r, should be %r' % (nm, v[-1], w))
def metric_sim(kw, ids):
    MWatch.ids = ids
    run_watched(kw, MWatch)
def run_metrics(ctx, ids, case_check, sim_check, extra=None):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        if i % 40 == 0:
            kw = gen_sim(rng, nmax=10); kw['metrics'] = rng.sample([x for x in ids if isinstance(x, int)], min(len([x for x in ids if isinstance(x, int)]), 5)); kw['max_iterations'] = min(6, kw['max_iterations'])
            if kw['reward_scheme'] == 4: kw['a0'] = 2.0
            ctx.run(sim_check, kw)
        elif extra and i % 3 == 0: extra()
        else: ctx.run(case_check, gen_small(rng))
