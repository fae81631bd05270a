from rac.base import *
from rac.simkit import *
RULE = 'worlds with private, saturated, over-saturated, own and tied pools and present delegations of the deciding agent, all amounts; the greedy allocation recomputed independently'
def oracle(a, amount):
    m = a.model; e = econ(m)
    el = [p for p in ranked(a) if p.owner != a.unique_id and not p.is_private]
    if type(a).__name__ == 'MyopicStakeholder':
        d = [e.myo(p) for p in el]
        if any(x != y and close(x, y, 1e-9, 1e-13) for x, y in zip(d, d[1:])): return None
    out, sat, fuzzy = {}, None, False
    left = amount
    if left < MSU: return {}, False
    for p in el:
        room = e.thr(p.pledge) - (p.stake - p.delegators.get(a.unique_id, 0) if a.unique_id in p.delegators else p.stake)
        if 0 < abs(room) < 1e-13: fuzzy = True
        if room < MSU:
            sat = sat or p
            continue
        x = min(left, room); out[p.id] = x; left -= x
        if 0 < abs(left) < 1e-13: fuzzy = True
        if left < MSU: break
    if left >= MSU and sat is not None: out[sat.id] = left
    return out, fuzzy
def compare(a, amount, got):
    r = oracle(a, amount)
    if r is None: return
    want, fuzzy = r
    tol = 1e-12
    for pid, v in got.items():
        need(v >= 0, 'agent %s allocates %r to pool %s' % (a.unique_id, v, pid))
        p = a.model.pools.get(pid)
        need(p is not None, 'allocation to pool %s, which is not open' % pid)
        need(not p.is_private and p.owner != a.unique_id, 'allocation to %s pool %s' % ('private' if p.is_private else 'its own', pid))
    need(sum(got.values()) <= amount * (1 + 1e-9), 'allocates %r of %r' % (sum(got.values()), amount))
    if fuzzy: return
    for pid in set(got) | set(want):
        need(close(got.get(pid, 0), want.get(pid, 0), 1e-9, tol), 'agent %s delegating %r: pool %s gets %r, should get %r (all: %r, should be %r)' %
             (a.unique_id, amount, pid, got.get(pid, 0), want.get(pid, 0), got, want))
    need(all(v > 0 for v in got.values()), 'an allocation of nothing: %r' % got)
@check
def decide(c):
    def f(m):
        for a in m.get_agents_list():
            if a.strategy is None: continue
            for frac in c['fr']:
                amount = a.stake if frac is None else a.stake * frac
                s0 = state(m)
                st = a.find_delegation_move() if frac is None else a.find_delegation_move(stake_to_delegate=amount)
                need(not st.owned_pools, 'a delegation move runs pools')
                same_state(s0, state(m), 'deciding a delegation', m=m)
                compare(a, amount, st.stake_allocations)
                al = a.find_delegation_for_operator(a.stake - amount)
                compare(a, a.stake - (a.stake - amount), al)
    in_world(c['w'], f)
class W(Watch):
    def planned(self, a):
        if a.new_strategy is not None and not a.new_strategy.owned_pools: compare(a, a.stake, a.new_strategy.stake_allocations)
@check
def in_sim(kw): run_watched(kw, W)
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more():
        i += 1
        if i % 6 == 0: ctx.run('in_sim', gen_sim(rng, nmax=14))
        else: ctx.run('decide', dict(w=gen_world(rng, n=rng.choice([None, 4, 6, 8])), fr=[None, rng.choice([0.5, 0.1, 0.9, 1e-3, 0.0, rng.random()])]))
