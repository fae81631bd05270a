from rac.base import *
from rac.simkit import *
RULE = 'current and anticipated utilities of every agent for its present, delegating and operating strategies in generated worlds, recomputed from the formulas and an independent ranking'
def nm_stake(e, m, pool, ranking):
    """None when the comparison is a matter of rounding"""
    i = [id(p) for p in ranking].index(id(pool))
    s = math.fsum(e.thr(p.pledge) for p in ranking[:i])
    if s != m.total_stake and abs(s - m.total_stake) < 1e-12: return None
    return max(e.thr(pool.pledge), pool.stake) if s < m.total_stake else pool.pledge
key = lambda p: (-p.desirability, -p.potential_profit, p.id)
def o_current(a):
    m = a.model; e = econ(m)
    u = sum(e.op(p.stake, p.pledge, p.margin, p.cost) for p in a.strategy.owned_pools.values())
    for pid, x in a.strategy.stake_allocations.items():
        p = m.pools[pid]; u += e.dl(x, p.stake, p.pledge, p.margin, p.cost)
    return u
def o_expected(a, s):
    m = a.model; e = econ(m); u = 0
    myo = type(a).__name__ == 'MyopicStakeholder'
    rk = sorted([p for p in m.pools.values() if p.owner != a.unique_id] + list(s.owned_pools.values()), key=key)
    for p in s.owned_pools.values():
        st = p.stake if myo else nm_stake(e, m, p, rk)
        if st is None: return None
        u += e.op(st, p.pledge, p.margin, p.cost)
    rk = sorted(m.pools.values(), key=key)
    for pid, x in s.stake_allocations.items():
        if pid not in m.pools: continue
        p = m.pools[pid]
        cur = p.stake - a.strategy.stake_allocations.get(pid, 0) + x
        if myo: st = cur
        else:
            st = nm_stake(e, m, p, rk)
            if st is None: return None
            st = max(st, cur)
        u += e.dl(x, st, p.pledge, p.margin, p.cost)
    return u
def chk_current(a):
    g, w = a.calculate_current_utility(), o_current(a)
    need(close(g, w, 1e-8, 1e-12), 'agent %s: current utility %r, should be %r' % (a.unique_id, g, w))
def chk_expected(a, s, what):
    g, w = a.calculate_expected_utility(s), o_expected(a, s)
    if w is not None: need(close(g, w, 1e-8, 1e-12), 'agent %s: expected utility of %s is %r, should be %r' % (a.unique_id, what, g, w))
@check
def utilities(c):
    from logic.strategy import Strategy
    def f(m):
        for a in m.get_agents_list():
            if a.strategy is None: continue
            chk_current(a)
            chk_expected(a, a.strategy, 'the present strategy')
            chk_expected(a, a.find_delegation_move(), 'delegating')
            for t in range(1, min(3, m.reward_scheme.k) + 1):
                ms, u = a.calculate_margins_and_utility(num_pools=t)
                chk_expected(a, a.find_operator_move(t, a.determine_pools_to_keep(t), ms), 'operating %d pools' % t)
            al = {pid: a.stake * f for pid, f in zip(m.pools, c['fr']) if m.pools[pid].owner != a.unique_id}
            if c.get('closed'): al[10 ** 6] = a.stake * .1
            chk_expected(a, Strategy(stake_allocations=al), 'an arbitrary allocation')
    in_world(c['w'], f)
class W(Watch):
    def planned(self, a):
        chk_current(a); chk_expected(a, a.strategy, 'the present strategy')
        if a.new_strategy is not None: chk_expected(a, a.new_strategy, 'the planned strategy')
@check
def in_sim(kw): run_watched(kw, W)
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        if i % 6 == 0: ctx.run('in_sim', gen_sim(rng, nmax=12))
        else: ctx.run('utilities', dict(w=gen_world(rng), fr=[rng.choice([0.1, 0.3, 0.5, rng.random() * .3]) for _ in range(4)], closed=rng.random() < .2))
