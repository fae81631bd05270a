from rac.base import *
from rac.scalar import *
from rac.simkit import *
RULE = 'scalar margin/desirability arguments of many magnitudes; pools re-priced under changing schemes; every pool, held or planned, after every move and phase change of generated simulations'
class W(Watch):
    def moved(self, a): inv_fresh(self.m)
    def phase(self, st): inv_fresh(self.m)
    def planned(self, a):
        if a.new_strategy is not None:
            for p in a.new_strategy.owned_pools.values(): pool_fresh(econ(self.m), p)
@check
def in_sim(kw): run_watched(kw, W)
@check
def pool_ops(c):
    import logic.reward_schemes as R
    from logic.pool import Pool
    r = R.RSS_MAPPING[c['s']](c['k'], c['a0'])
    p = Pool(pool_id=1, cost=c['cost'], pledge=c['pledge'], owner=0, reward_scheme=r, margin=c['m0'])
    chk = lambda: pool_fresh(Econ(c['s'], r.global_saturation_threshold, r.a0), p)
    chk()
    for op, v in c['ops']:
        if op == 'margin': p.margin = v
        elif op == 'k': r.k = v; p.set_profit(reward_scheme=r); p.set_desirability()
        elif op == 'a0': r.a0 = v; p.set_profit(reward_scheme=r); p.set_desirability()
        elif op == 'pledge': p.pledge = v; p.set_profit(reward_scheme=r); p.margin = p.margin
        elif op == 'cost': p.cost = v; p.set_profit(reward_scheme=r); p.margin = p.margin
        chk()
@check
def plan(c):
    def f(m):
        for a in m.get_agents_list():
            if a.strategy is None: continue
            st = a.find_operator_move(c['t'], a.determine_pools_to_keep(c['t']), c['margins'])
            for p in st.owned_pools.values(): pool_fresh(econ(m), p)
            e = econ(m)
            for t in range(1, m.reward_scheme.k + 1):
                ms, u = a.calculate_margins_and_utility(num_pools=t)
                need(len(ms) == t and all(0 <= x <= 1 for x in ms), 'margins %r for %d pools' % (ms, t))
    in_world(c['w'], f)
def run(ctx):
    rng = ctx.rng
    run_scalars(ctx, 'C05', .3)
    i = 0
    while ctx.more():
        i += 1
        if i % 4 == 0:
            ctx.run('in_sim', gen_sim(rng, phases=.6, nmax=12))
        elif i % 4 == 1:
            w = gen_world(rng); t = rng.randint(1, max(1, min(4, w['k'])))
            ctx.run('plan', dict(w=w, t=t, margins=[rng.choice([0, .1, .5, 1]) for _ in range(rng.choice([0, t, t]))]))
        else:
            k = rng.randint(1, 20)
            ctx.run('pool_ops', dict(s=rng.randint(0, 4), k=k, a0=rng.choice([0, .3, 1, 5]), cost=real(rng), pledge=rng.choice([real(rng), 1 / k]), m0=rng.choice([0, 1, .3]),
                    ops=[rng.choice([['margin', rng.random()], ['k', rng.randint(1, 20)], ['a0', real(rng)], ['pledge', real(rng)], ['cost', real(rng)]]) for _ in range(4)]))
def candidates(ctx, cands): scalar_candidates(ctx, 'C05', cands)
