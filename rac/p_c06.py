from rac.base import *
from rac.scalar import *
from rac.simkit import *
RULE = 'scalar arguments of many magnitudes; worlds and simulations in which the pledge and cost of every pool of a planned or executed move are compared with the formulas'
def chk(a, strat):
    m = a.model; t = len(strat.owned_pools)
    if not t: return
    pl = min(a.stake / t, m.reward_scheme.global_saturation_threshold)
    co = (a.cost + (t - 1) * m.extra_pool_cost_fraction * a.cost) / t
    for p in strat.owned_pools.values():
        need(close(p.pledge, pl), 'pool %s of agent with stake %r and %d pools has pledge %r, should be %r' % (p.id, a.stake, t, p.pledge, pl))
        need(close(p.cost, co), 'pool %s of agent with cost %r and %d pools costs %r, should be %r' % (p.id, a.cost, t, p.cost, co))
    need(sum(p.pledge for p in strat.owned_pools.values()) <= a.stake * (1 + 1e-9), 'total pledge above the stake')
class W(Watch):
    def moved(self, a): chk(a, a.strategy)
    def planned(self, a):
        if a.new_strategy is not None: chk(a, a.new_strategy)
@check
def in_sim(kw): run_watched(kw, W)
@check
def methods(c):
    def f(m):
        for a in m.get_agents_list():
            for t in range(1, m.reward_scheme.k + 2):
                need(close(a.determine_pledge_per_pool(t), min(a.stake / t, m.reward_scheme.global_saturation_threshold)), 'pledge for %d pools' % t)
                need(close(a.calculate_cost_per_pool(t), a.cost * (1 + (t - 1) * m.extra_pool_cost_fraction) / t), 'cost for %d pools' % t)
            for t in (0, -1):
                try: a.determine_pledge_per_pool(t)
                except ValueError: pass
                else: raise Fail('a pledge for %d pools is not refused' % t)
            if a.strategy is None: continue
            for t in range(1, min(4, m.reward_scheme.k) + 1):
                chk(a, a.find_operator_move(t, a.determine_pools_to_keep(t), [0] * t))
    in_world(c, f)
def run(ctx):
    run_scalars(ctx, 'C06', .3)
    i = 0
    while ctx.more():
        i += 1
        if i % 3 == 0: ctx.run('in_sim', gen_sim(ctx.rng, nmax=12))
        else: ctx.run('methods', gen_world(ctx.rng))
def candidates(ctx, cands): scalar_candidates(ctx, 'C06', cands)
