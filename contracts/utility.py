"""C11: current and expected utilities of both kinds of agents."""
import z3
from pyver.spec import Contract
from pyver.vals import *
from .scalar import v_uop, frac, _X
I, R = z3.IntSort(), z3.RealSort()
DP, DR = 'D[int,Pool]', 'D[int,real]'
PR = 'logic.stakeholder_profiles:'
NM, MY = 'NonMyopicStakeholder', 'MyopicStakeholder'
MSU = z3.RealVal('0.000000000000000022')
POS = z3.Function('POSITION_OF_POOL', I, I)        # the position of the open pool k in the ranking
class V:
    def __init__(self, S, a):
        self.S, self.ip, self.g = S, S.ip, a.self
        self.m = S.get(self.g, 'model'); self.rs = S.get(self.m, 'reward_scheme')
        self.pools = S.get(self.m, 'pools')
        self.has, self.val, _, _ = self.ip.dget(self.pools)
        self.sl = S.get(self.g, 'rankings')
        self.len = z3.Select(self.ip.harr('SL', 'len'), self.sl.term); self.at = z3.Select(self.ip.harr('SL', 'at'), self.sl.term)
        self.mine = S.get(S.get(self.g, 'strategy'), 'stake_allocations')
    def pool(self, t): return Obj('Pool', t, self.ip.world.exact_class('Pool'), True)
    def f(self, p, x): return self.S.get(p, x)
    def listed(self, i): return z3.And(i >= 0, i < self.len, z3.Select(self.at, i) != null_of('Pool'))
    def thr(self, p): return self.S.rss_threshold(self.rs, self.f(p, 'pledge'))
    def better(self, p, q):
        """p is before q: larger desirability, then larger potential profit, then older"""
        f = self.f
        d1, d2, p1, p2 = f(p, 'desirability'), f(q, 'desirability'), f(p, 'potential_profit'), f(q, 'potential_profit')
        return z3.Or(d1 > d2, z3.And(d1 == d2, z3.Or(p1 > p2, z3.And(p1 == p2, f(p, 'id') < f(q, 'id')))))
    def anticipated(self, p, absorbed):
        """what the pool is expected to hold, if the better pools absorb that much"""
        st, th, pl = self.f(p, 'stake'), self.thr(p), self.f(p, 'pledge')
        return z3.If(absorbed + MSU < self.f(self.m, 'total_stake'), z3.If(th >= st, th, st), pl)
    def at_saturation(self, guard, elem):
        k = self.ip.reg.fresh_bound(I)
        p = self.pool(elem(k))
        return self.ip.reg.make('SUM', k, z3.And(guard(k), self.in_front(p)), self.thr(p), ())
    def ranked_before(self, q):
        self.in_front = lambda p: self.better(p, q)
        return self.at_saturation(self.listed, lambda i: z3.Select(self.at, i))
    def ranked_before_planned(self, q, has, val):
        self.in_front = lambda p: self.better(p, q)
        mine = self.S.get(self.g, 'unique_id')
        others = self.at_saturation(lambda i: z3.And(self.listed(i), self.f(self.pool(z3.Select(self.at, i)), 'owner') != mine), lambda i: z3.Select(self.at, i))
        return others + self.at_saturation(lambda k: z3.Select(has, k), lambda k: z3.Select(val, k))
    def op(self, p, stake): return v_uop(self.S, _X(pool_stake=stake, pledge=self.f(p, 'pledge'), margin=self.f(p, '_margin'), cost=self.f(p, 'cost'), reward_scheme=self.rs))
    def de(self, p, x, stake):
        f = self.f
        return self.S.mx((1 - f(p, '_margin')) * frac(self.S, x, stake) * (self.S.rss_reward(self.rs, f(p, 'pledge'), stake) - f(p, 'cost')), self.S.real(0))
    def total(self, guard, e):
        k = self.ip.reg.fresh_bound(I)
        return self.ip.reg.make('SUM', k, guard(k), e(k), ())
def pool_ok(v, p): return z3.And(v.f(p, '_margin') >= 0, v.f(p, '_margin') <= 1, v.f(p, 'cost') >= 0, v.f(p, 'pledge') >= 0, v.f(p, 'stake') >= v.f(p, 'pledge'))
def req(S, a):
    v = V(S, a); ip = S.ip
    fa = lambda f, pats, t='int': S.forall([t], f, pats=pats)
    p = lambda k: v.pool(z3.Select(v.val, k))
    return [('model', v.m.term != null_of('Model')), ('scheme', v.rs.term != null_of('Rss')), ('pools', v.pools.term != null_of(DP)), ('ranking', v.sl.term != null_of('SL')),
            ('strategy', z3.And(S.get(a.self, 'strategy').term != null_of('Strategy'), v.mine.term != null_of(DR))),
            ('open pools are filed under their ids, with sensible values', fa(lambda k: z3.Implies(z3.Select(v.has, k), z3.And(z3.Select(v.val, k) != null_of('Pool'), v.f(p(k), 'id') == k)), lambda k: [z3.Select(v.val, k)])),
            ]
def req_rank(S, a):
    """C10: the ranking holds the open pools in its documented order"""
    v = V(S, a); ip = S.ip
    at = lambda i: z3.Select(v.at, i)
    q = lambda i: v.pool(at(i))
    placeholder_last = lambda i, j: z3.Or(v.f(q(i), 'desirability') > 0, z3.And(v.f(q(i), 'desirability') == 0, z3.Or(v.f(q(i), 'potential_profit') > 0, z3.And(v.f(q(i), 'potential_profit') == 0, v.f(q(i), 'id') <= 0))))
    placeholder_first = lambda i, j: z3.Or(v.f(q(j), 'desirability') < 0, z3.And(v.f(q(j), 'desirability') == 0, z3.Or(v.f(q(j), 'potential_profit') < 0, z3.And(v.f(q(j), 'potential_profit') == 0, v.f(q(j), 'id') >= 0))))
    return req(S, a) + [
        ('open pools are ranked', S.forall(['int'], lambda k: z3.Implies(z3.Select(v.has, k), z3.And(POS(k) >= 0, POS(k) < v.len, at(POS(k)) == z3.Select(v.val, k))), pats=lambda k: [z3.Select(v.val, k), POS(k)])),
        ('only open pools are ranked', S.forall(['int'], lambda i: z3.Implies(v.listed(i), z3.And(z3.Select(v.has, v.f(q(i), 'id')), z3.Select(v.val, v.f(q(i), 'id')) == at(i), POS(v.f(q(i), 'id')) == i)), pats=lambda i: [at(i)])),
        ('the ranking is in order', S.forall(['int', 'int'], lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < v.len), z3.And(z3.Implies(z3.And(at(i) != null_of('Pool'), at(j) != null_of('Pool')), v.better(q(i), q(j))),
            z3.Implies(z3.And(at(i) != null_of('Pool'), at(j) == null_of('Pool')), placeholder_last(i, j)), z3.Implies(z3.And(at(i) == null_of('Pool'), at(j) != null_of('Pool')), placeholder_first(i, j)))), pats=lambda i, j: [[at(i), at(j)]]))]
def req_strategy(rank):
    def r(S, a):
        v = V(S, a)
        owned = S.get(a.strategy, 'owned_pools'); al = S.get(a.strategy, 'stake_allocations')
        has, val, _, _ = S.ip.dget(owned)
        p = lambda k: v.pool(z3.Select(val, k))
        me = S.get(a.self, 'unique_id')
        out = (req_rank if rank else req)(S, a) + [('planned moves', z3.And(owned.term != null_of(DP), al.term != null_of(DR))),
            ('planned pools are filed under their ids', S.forall(['int'], lambda k: z3.Implies(z3.Select(has, k), z3.And(z3.Select(val, k) != null_of('Pool'), v.f(p(k), 'id') == k)), pats=lambda k: [z3.Select(val, k)])),
            ("planned pools have ids of their own or of the agent's pools", S.forall(['int'], lambda k: z3.Implies(z3.And(z3.Select(has, k), z3.Select(v.has, k)), v.f(v.pool(z3.Select(v.val, k)), 'owner') == me), pats=lambda k: [[z3.Select(has, k), z3.Select(v.has, k)], z3.Select(v.val, k)]))]
        return out
    return r
def ens_current(S, a, r):
    v = V(S, a)
    owned = S.get(S.get(a.self, 'strategy'), 'owned_pools')
    has, val, _, _ = S.ip.dget(owned)
    ah, av, _, _ = S.ip.dget(v.mine)
    op = v.total(lambda k: z3.Select(has, k), lambda k: v.op(v.pool(z3.Select(val, k)), v.f(v.pool(z3.Select(val, k)), 'stake')))
    def d(k):
        p = v.pool(z3.Select(v.val, k))
        return v.de(p, z3.Select(av, k), v.f(p, 'stake'))
    return [('operator rewards of the own pools plus delegator rewards, at actual stakes', zr(r) == op + v.total(lambda k: z3.Select(ah, k), d))]
def req_current(S, a):
    v = V(S, a)
    owned = S.get(S.get(a.self, 'strategy'), 'owned_pools')
    has, val, _, _ = S.ip.dget(owned); ah, av, _, _ = S.ip.dget(v.mine)
    return req(S, a) + [('own pools', z3.And(owned.term != null_of(DP), S.forall(['int'], lambda k: z3.Implies(z3.Select(has, k), z3.Select(val, k) != null_of('Pool')), pats=lambda k: [z3.Select(val, k)]))),
                        ('delegations go to open pools', S.forall(['int'], lambda k: z3.Implies(z3.Select(ah, k), z3.Select(v.has, k)), pats=lambda k: [z3.Select(ah, k)]))]
def ens_expected(rank):
    def e(S, a, r):
        v = V(S, a)
        owned = S.get(a.strategy, 'owned_pools'); al = S.get(a.strategy, 'stake_allocations')
        has, val, _, _ = S.ip.dget(owned); ah, av, _, _ = S.ip.dget(al); mh, mv, _, _ = S.ip.dget(v.mine)
        def o(k):
            p = v.pool(z3.Select(val, k))
            return v.op(p, v.anticipated(p, v.ranked_before_planned(p, has, val)) if rank else v.f(p, 'stake'))
        def d(k):
            p = v.pool(z3.Select(v.val, k)); x = z3.Select(av, k)
            own = v.f(p, 'stake') - z3.If(z3.Select(mh, k), z3.Select(mv, k), z3.RealVal(0)) + x
            if not rank: return v.de(p, x, own)
            n = v.anticipated(p, v.ranked_before(p))
            return v.de(p, x, z3.If(n >= own, n, own))
        return [('anticipated rewards of the planned pools plus those of the planned delegations, each counted once',
                 zr(r) == v.total(lambda k: z3.Select(has, k), o) + v.total(lambda k: z3.And(z3.Select(ah, k), z3.Select(v.has, k)), d))]
    return e
def cfg(w):
    w.sl_key = 'logic.helper:pool_comparison_key'
    def wit(ip, o, p):
        t = p.term
        return POS(t.arg(1)) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(1).sort() == I else None
    w.sl_witness = wit
C11 = []
for c in (NM, MY):
    C11 += [Contract('C11.current.' + c, PR + c + '.calculate_current_utility', {'self': 'agent:' + c}, requires=req_current, ensures=ens_current, callmode='never', title='current utility (%s)' % c),
            Contract('C11.expected.' + c, PR + c + '.calculate_expected_utility', {'self': 'agent:' + c, 'strategy': 'Strategy'}, requires=req_strategy(c == NM), ensures=ens_expected(c == NM), callmode='never', title='expected utility (%s)' % c)]
CONFIG = {'C11': cfg}
