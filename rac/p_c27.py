from rac.base import *
from rac.simkit import *
RULE = 'scripted utilities per number of pools (single- and many-peaked, with plateaus) driving the search; real planning in worlds compared pool by pool'
@check
def search(c):
    def f(m):
        a = [x for x in m.get_agents_list() if x.strategy is not None][:1]
        if not a: return
        a = a[0]; k = m.reward_scheme.k; u = c['u'][:k]; asked = []
        def mu(num_pools):
            need(1 <= num_pools <= k, 'utility asked for %r pools, k = %d' % (num_pools, k))
            asked.append(num_pools)
            need(len(asked) < 50 * k + 50, 'the search does not end')
            return ([0.125 * (num_pools % 8)] * num_pools, u[num_pools - 1])
        a.calculate_margins_and_utility = mu
        got = {}
        o = a.find_operator_move
        def fo(num_pools, owned_pools, margins=[]):
            got['t'], got['m'] = num_pools, list(margins); return o(num_pools, owned_pools, margins)
        a.find_operator_move = fo
        s0 = state(m)
        util, st = a.choose_pool_strategy()
        same_state(s0, state(m), 'planning', m=m)
        need(st is not None and 't' in got, 'no strategy came out')
        t = len(st.owned_pools)
        need(t == got['t'], '%d pools planned, %d chosen' % (t, got['t']))
        need(1 <= t <= k, '%d pools chosen, k = %d' % (t, k))
        if t > 1: need(u[t - 2] <= u[t - 1], '%d pools chosen, %d would be better: %r' % (t, t - 1, u))
        if t < k: need(u[t] <= u[t - 1], '%d pools chosen, %d would be better: %r' % (t, t + 1, u))
        if c['peak']: need(u[t - 1] == max(u), '%d pools chosen, utilities %r' % (t, u))
        need(all(p.margin == 0.125 * (t % 8) for p in st.owned_pools.values()), 'margins are those of another number of pools')
        wellformed(a, st, t)
        need(close(util, a.calculate_expected_utility(st), 1e-9, 1e-13), 'the utility reported is not that of the strategy')
    in_world(c['w'], f)
def wellformed(a, st, t):
    m = a.model; e = econ(m)
    need(len(st.owned_pools) == t, '%d pools instead of %d' % (len(st.owned_pools), t))
    pl = min(a.stake / t, m.reward_scheme.global_saturation_threshold); co = a.cost * (1 + (t - 1) * m.extra_pool_cost_fraction) / t
    for pid, p in st.owned_pools.items():
        need(p.id == pid and p.owner == a.unique_id, 'pool %s of owner %s filed under %s for agent %s' % (p.id, p.owner, pid, a.unique_id))
        need(close(p.pledge, pl) and close(p.cost, co), 'pool %s: pledge %r cost %r, should be %r %r' % (pid, p.pledge, p.cost, pl, co))
        need(p.is_private == (p.pledge >= e.thr(p.pledge)), 'pool %s with pledge %r, threshold %r is private: %s' % (pid, p.pledge, e.thr(p.pledge), p.is_private))
        need(all(p is not q for q in m.pools.values()), 'the plan shares pool %s with the actual state' % pid)
        need(p.delegators is not (m.pools[pid].delegators if pid in m.pools else None), 'the plan shares the delegators of pool %s' % pid)
        if pid in m.pools: need(close(p.stake, m.pools[pid].stake - m.pools[pid].pledge + p.pledge, 1e-9, 1e-13) and p.delegators == m.pools[pid].delegators, 'pool %s: planned stake %r' % (pid, p.stake))
        else: need(p.stake == p.pledge and not p.delegators, 'new pool %s with stake %r' % (pid, p.stake))
    old = a.strategy.owned_pools
    kept = set(st.owned_pools) & set(old)
    need(len(kept) == min(t, len(old)), 'keeps %d of %d pools for %d' % (len(kept), len(old), t))
    key = lambda i: (old[i].desirability, old[i].potential_profit, old[i].stake, -i)
    need(kept == set(sorted(old, key=key, reverse=True)[:t]), 'keeps %s of %s' % (sorted(kept), {i: key(i) for i in old}))
@check
def plan(c):
    def f(m):
        for a in m.get_agents_list():
            if a.strategy is None: continue
            for t in range(1, min(5, m.reward_scheme.k) + 1):
                s0 = state(m)
                keep = a.determine_pools_to_keep(t)
                st = a.find_operator_move(t, keep, [0.25] * c['nm'])
                same_state(s0, state(m), 'planning', m=m)
                wellformed(a, st, t)
                for i, p in enumerate(st.owned_pools.values()):
                    if i < c['nm']: need(p.margin == .25, 'pool %d of the plan has margin %r' % (i, p.margin))
            if c['real']:
                s0 = state(m); u, st = a.choose_pool_strategy(); same_state(s0, state(m), 'planning', m=m)
                t = len(st.owned_pools); k = m.reward_scheme.k
                wellformed(a, st, t)
                us = {x: a.calculate_margins_and_utility(num_pools=x)[1] for x in (t - 1, t, t + 1) if 1 <= x <= k}
                need(all(v <= us[t] for v in us.values()), '%d pools chosen with utilities %r' % (t, us))
    in_world(c['w'], f)
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        w = gen_world(rng, profiles=(0, 1))
        if i % 2:
            w['k'] = rng.choice([1, 2, 3, 4, 5, 8, 13, 20]); k = w['k']
            w['agents'] = w['agents'][:2]; w['pools'], w['deleg'] = [p for p in w['pools'] if False], []
            pk = rng.random() < .5
            if pk:
                p = rng.randint(1, k); u = [0.0] * k; v = 10.0; u[p - 1] = v
                for j in range(p, k): v -= rng.choice([.1, 1, .5]); u[j] = v
                v = 10.0
                for j in range(p - 2, -1, -1): v -= rng.choice([.1, 1, .5]); u[j] = v
            else: u = [float(rng.choice([0, 1, 1, 2, 3, -1])) for _ in range(k)]
            ctx.run('search', dict(w=w, u=u, peak=pk))
        else: ctx.run('plan', dict(w=w, nm=rng.choice([0, 5, 5, 2]), real=rng.random() < .6))
