"""C09: the delegation ledger.  The state is described by one invariant (INV); executing a move keeps it.
Ghost functions on dictionaries: KIND (0: a pool's ledger, 1: an agent's allocation), IDX (whose); a dictionary created
inside the function is labelled when it becomes a pool's ledger.  WHO(id): the agent that the pool id was given to (C12)."""
import z3
from pyver.spec import Contract
from pyver.loops import LoopInv
from pyver.scan import Scan
from pyver.vals import *
from .moves import SIM
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
ST, P = 'logic.stakeholder:Stakeholder.', 'logic.pool:Pool.'
PR = 'logic.stakeholder_profiles:'
DR, DP = 'D[int,real]', 'D[int,Pool]'
KIND = z3.Function('KIND', fam_sort(DR), I)
IDX = z3.Function('IDX', fam_sort(DR), I)
WHO = z3.Function('WHO_GOT', I, I)
NULL = {f: null_of(f) for f in ('Pool', 'Agent', 'Strategy', DR, DP)}
sel, And, Or, Not, Imp = z3.Select, z3.And, z3.Or, z3.Not, z3.Implies

def MSU(S):
    ip = S.ip
    return zr(ip.glob(ip.prog.module('logic.helper'), 'MIN_STAKE_UNIT'))

class Snap:
    """the heap at one moment"""
    def __init__(self, S, m):
        ip = self.ip = S.ip
        h = lambda fam, f: ip.harr(fam, f)
        self.a = {(fam, f): h(fam, f) for fam, f in [('Pool', 'id'), ('Pool', 'stake'), ('Pool', 'pledge'), ('Pool', 'is_private'), ('Pool', 'owner'), ('Pool', 'delegators'), ('Pool', '$alive'),
                  ('Agent', 'unique_id'), ('Agent', 'strategy'), ('Agent', 'new_strategy'), ('Strategy', 'stake_allocations'), ('Strategy', 'owned_pools'),
                  (DR, 'has'), (DR, 'val'), (DR, '$alive'), (DP, 'has'), (DP, 'val')]}
        self.pools = S.new(m, 'pools').term
        ag = S.new(S.new(m, 'schedule'), '_agents')
        self.aghas, self.agval = ip.dget(ag)[:2]
    def f(self, fam, f, t): return sel(self.a[(fam, f)], t)
    def P(self, k): return sel(sel(self.a[(DP, 'val')], self.pools), k)
    def filed(self, k): return sel(sel(self.a[(DP, 'has')], self.pools), k)
    def led(self, p): return self.f('Pool', 'delegators', p)
    def has(self, d, k): return sel(sel(self.a[(DR, 'has')], d), k)
    def val(self, d, k): return sel(sel(self.a[(DR, 'val')], d), k)
    def AG(self, i): return sel(self.agval, i)
    def there(self, i): return sel(self.aghas, i)
    def isag(self, i): return And(sel(self.aghas, i), self.strat(i) != NULL['Strategy'])    # abstainers have no strategy at all
    def strat(self, i): return self.f('Agent', 'strategy', self.AG(i))
    def nstr(self, i): return self.f('Agent', 'new_strategy', self.AG(i))
    def alloc(self, i): return self.f('Strategy', 'stake_allocations', self.strat(i))
    def nalloc(self, i): return self.f('Strategy', 'stake_allocations', self.nstr(i))
    def own(self, i): return self.f('Strategy', 'owned_pools', self.strat(i))
    def nown(self, i): return self.f('Strategy', 'owned_pools', self.nstr(i))
    def phas(self, d, k): return sel(sel(self.a[(DP, 'has')], d), k)
    def pval(self, d, k): return sel(sel(self.a[(DP, 'val')], d), k)
    def plan(self, i): return And(self.isag(i), self.nstr(i) != NULL['Strategy'])
    def cur_of(self, d): return And(KIND(d) == 1, self.isag(IDX(d)), d == self.alloc(IDX(d)))
    def planned_of(self, d): return And(KIND(d) == 1, self.plan(IDX(d)), d == self.nalloc(IDX(d)))
    def aliveD(self, d): return self.f(DR, '$alive', d)
    def aliveP(self, p): return self.f('Pool', '$alive', p)

def agents_ok(S, s):
    """every agent in the schedule is well formed and has allocations of its own"""
    i = ['int']
    return [('agents are filed under their ids', S.forall(i, lambda a: Imp(s.there(a), And(s.AG(a) != NULL['Agent'], s.f('Agent', 'unique_id', s.AG(a)) == a, Or(s.strat(a) != NULL['Strategy'], s.nstr(a) == NULL['Strategy']))), pats=lambda a: [s.AG(a)])),
            ('allocations are their own', S.forall(i, lambda a: Imp(s.isag(a), And(s.alloc(a) != NULL[DR], s.aliveD(s.alloc(a)), KIND(s.alloc(a)) == 1, IDX(s.alloc(a)) == a, s.own(a) != NULL[DP], s.own(a) != s.pools)), pats=lambda a: [s.AG(a)])),
            ('planned allocations are their own', S.forall(i, lambda a: Imp(s.plan(a), And(s.nalloc(a) != NULL[DR], s.aliveD(s.nalloc(a)), KIND(s.nalloc(a)) == 1, IDX(s.nalloc(a)) == a, s.nalloc(a) != s.alloc(a), s.nown(a) != NULL[DP], s.nown(a) != s.pools)), pats=lambda a: [s.AG(a)]))]
def ledgers_ok(S, s):
    i = ['int']
    p = s.P
    return [('pools are filed under their ids', S.forall(i, lambda k: Imp(s.filed(k), And(p(k) != NULL['Pool'], s.aliveP(p(k)), s.f('Pool', 'id', p(k)) == k)), pats=lambda k: [p(k)])),
            ('every pool has a ledger of its own', S.forall(i, lambda k: Imp(s.filed(k), And(s.led(p(k)) != NULL[DR], s.aliveD(s.led(p(k))), KIND(s.led(p(k))) == 0, IDX(s.led(p(k))) == k)), pats=lambda k: [p(k)])),
            ('operators are agents', S.forall(i, lambda k: Imp(s.filed(k), And(s.isag(s.f('Pool', 'owner', p(k))), WHO(k) == s.f('Pool', 'owner', p(k)))), pats=lambda k: [p(k)])),
            ('stake = pledge + delegations', S.forall(i, lambda k: Imp(s.filed(k), s.f('Pool', 'stake', p(k)) == s.f('Pool', 'pledge', p(k)) + S.ip.world.dsum(sel(s.a[(DR, 'val')], s.led(p(k))))), pats=lambda k: [p(k)])),
            ('absent keys hold 0', S.forall(['int', 'int'], lambda k, j: Imp(And(s.filed(k), Not(s.has(s.led(p(k)), j))), s.val(s.led(p(k)), j) == 0), pats=lambda k, j: [s.val(s.led(p(k)), j)]))]

class Mine:
    """what the executing agent has at this moment: X(k)/XV(k) its delegations as the ledgers see them; O(k)/OV(k) the pools it operates"""
    def __init__(self, X, XV, O, OV, xp, op): self.X, self.XV, self.O, self.OV, self.xp, self.op = X, XV, O, OV, xp, op

def inv(S, s, uid, me):
    msu = MSU(S)
    i, ii = ['int'], ['int', 'int']
    p = s.P
    pf = lambda f, k: s.f('Pool', f, p(k))
    other = lambda a: a != uid
    out = agents_ok(S, s) + ledgers_ok(S, s)
    out += [('what a pool records, the delegator records', S.forall(ii, lambda k, a: Imp(And(s.filed(k), s.has(s.led(p(k)), a), other(a)),
                And(s.isag(a), s.has(s.alloc(a), k), s.val(s.alloc(a), k) == s.val(s.led(p(k)), a), s.val(s.led(p(k)), a) >= msu, Not(pf('is_private', k)), a != pf('owner', k))), pats=lambda k, a: [s.has(s.led(p(k)), a)])),
            ('what a delegator records, the pool records', S.forall(ii, lambda a, k: Imp(And(s.isag(a), other(a), s.has(s.alloc(a), k)), And(s.filed(k), s.has(s.led(p(k)), a))), pats=lambda a, k: [s.has(s.alloc(a), k)])),
            ("the agent's own delegations, pool side", S.forall(i, lambda k: Imp(And(s.filed(k), s.has(s.led(p(k)), uid)), And(me.X(k), s.val(s.led(p(k)), uid) == me.XV(k), me.XV(k) >= msu, Not(pf('is_private', k)), pf('owner', k) != uid)), pats=lambda k: [s.has(s.led(p(k)), uid)])),
            ("the agent's own delegations, agent side", S.forall(i, lambda k: Imp(me.X(k), And(s.filed(k), s.has(s.led(p(k)), uid))), pats=lambda k: me.xp(k) + [p(k)])),
            ('operators list their pools', S.forall(i, lambda k: Imp(And(s.filed(k), other(pf('owner', k))), And(s.phas(s.own(pf('owner', k)), k), s.pval(s.own(pf('owner', k)), k) == p(k))), pats=lambda k: [p(k)])),
            ('listed pools are open', S.forall(ii, lambda a, k: Imp(And(s.isag(a), other(a), s.phas(s.own(a), k)), And(s.filed(k), s.pval(s.own(a), k) == p(k), pf('owner', k) == a)), pats=lambda a, k: [s.phas(s.own(a), k)])),
            ('the agent lists its pools', S.forall(i, lambda k: Imp(And(s.filed(k), pf('owner', k) == uid), And(me.O(k), me.OV(k) == p(k))), pats=lambda k: [p(k)])),
            ("the agent's pools are open", S.forall(i, lambda k: Imp(me.O(k), And(s.filed(k), me.OV(k) == p(k), pf('owner', k) == uid)), pats=lambda k: me.op(k) + [p(k), s.filed(k)]))]
    return out
def plans_ok(S, s, sim, who):
    """planned moves: who(a) selects the agents"""
    msu = MSU(S)
    ii = ['int', 'int']
    p = s.P
    pf = lambda f, k: s.f('Pool', f, p(k))
    np = lambda a, k: s.pval(s.nown(a), k)
    return [('planned delegations go to open public pools of others', S.forall(ii, lambda a, k: Imp(And(s.plan(a), who(a), s.has(s.nalloc(a), k)), And(s.filed(k), Not(pf('is_private', k)), pf('owner', k) != a, s.val(s.nalloc(a), k) >= msu)), pats=lambda a, k: [s.has(s.nalloc(a), k)]))]
def planned_pools(S, s, who):
    ii = ['int', 'int']
    np = lambda a, k: s.pval(s.nown(a), k)
    return [('planned pools', S.forall(ii, lambda a, k: Imp(And(s.plan(a), who(a), s.phas(s.nown(a), k)), And(np(a, k) != NULL['Pool'], s.aliveP(np(a, k)), s.f('Pool', 'id', np(a, k)) == k, s.f('Pool', 'owner', np(a, k)) == a, WHO(k) == a,
                        Imp(s.filed(k), np(a, k) != s.P(k)), Imp(Not(s.filed(k)), new_ok(S, s, np(a, k), k)))), pats=lambda a, k: [np(a, k)]))]
def new_ok(S, s, p, k):
    """a pool about to be opened"""
    d = s.led(p)
    return And(d != NULL[DR], s.aliveD(d), KIND(d) == 0, IDX(d) == k, sel(s.a[(DR, 'has')], d) == z3.K(I, z3.BoolVal(False)), sel(s.a[(DR, 'val')], d) == z3.K(I, z3.RealVal(0)), s.f('Pool', 'stake', p) == s.f('Pool', 'pledge', p))

# ------------------------------------------------------------------ one entry of a ledger
def ens_ud(S, a, r):
    ip = S.ip
    msu = MSU(S)
    p, d, x = a.self.term, S.get(a.self, 'delegators').term, zr(a.new_delegation)
    has0, val0, st0 = S.old(lambda: (ip.harr(DR, 'has'), ip.harr(DR, 'val'), ip.harr('Pool', 'stake')))
    has, val, st = ip.harr(DR, 'has'), ip.harr(DR, 'val'), ip.harr('Pool', 'stake')
    keep = x >= msu
    v1 = z3.Store(sel(val0, d), a.delegator_id, z3.If(keep, x, 0))
    sums = ip.world.dsum
    return [('the entry is set, or removed if it is below the smallest unit', has == z3.Store(has0, d, z3.Store(sel(has0, d), a.delegator_id, keep))),
            ('the amount', val == z3.Store(val0, d, v1)),
            ('the stake follows', st == z3.Store(st0, p, sel(st0, p) - sel(sel(val0, d), a.delegator_id) + x)),
            ('the total follows', sums(v1) == sums(sel(val0, d)) - sel(sel(val0, d), a.delegator_id) + x)]
def req_ud(S, a):
    d = S.get(a.self, 'delegators')
    has, val, K, V = S.old(lambda: S.ip.dget(d)) if S.oldheap is not None else S.ip.dget(d)
    x = zr(a.new_delegation)
    return [('ledger', d.term != NULL[DR]), ('amount is nothing or at least the smallest unit', Or(x == 0, x >= MSU(S))),
            ('absent keys hold 0', Imp(Not(sel(has, a.delegator_id)), sel(val, a.delegator_id) == 0))]
UD = Contract('C09.update_delegation', P + 'update_delegation', {'self': 'Pool', 'new_delegation': 'real', 'delegator_id': 'int'}, requires=req_ud, ensures=ens_ud,
              modifies=[('Pool', 'stake'), (DR, 'has'), (DR, 'val')], title='one entry of the ledger and the stake change together')

# ------------------------------------------------------------------ closing a ledger
def model(S, a): return S.get(a.self, 'model')
def arr0(S, *ks): return S.old(lambda: [S.ip.harr(*k) for k in ks])
def zero_ok(S, s):
    return S.forall(['D[int,real]', 'int'], lambda d, k: Imp(Not(s.has(d.term, k)), s.val(d.term, k) == 0), pats=lambda d, k: [s.val(d.term, k)])
def req_rd(S, a):
    m = model(S, a)
    s = S.old(lambda: Snap(S, m)) if S.oldheap is not None else Snap(S, m)
    p = a.pool.term
    d, k = s.led(p), s.f('Pool', 'id', p)
    return [('model', m.term != null_of('Model')), ('schedule', S.get(m, 'schedule').term != null_of('Sched'))] + agents_ok(S, s) + \
           [('ledger', And(d != NULL[DR], s.aliveD(d), KIND(d) == 0)),
            ('delegators record it', S.forall(['int'], lambda i: Imp(s.has(d, i), And(s.isag(i), s.has(s.alloc(i), k), s.val(s.alloc(i), k) >= 0)), pats=lambda i: [s.has(d, i)])),
            ('planned amounts are not negative', S.forall(['int'], lambda i: Imp(And(s.plan(i), s.has(s.nalloc(i), k)), s.val(s.nalloc(i), k) >= 0), pats=lambda i: [s.AG(i)])),
            ('it records delegators', S.forall(['int'], lambda i: Imp(And(s.isag(i), s.has(s.alloc(i), k)), s.has(d, i)), pats=lambda i: [s.AG(i)])),
            ('stake = pledge + delegations', s.f('Pool', 'stake', p) == s.f('Pool', 'pledge', p) + S.ip.world.dsum(sel(s.a[(DR, 'val')], d))),
            ('absent keys hold 0', S.forall(['int'], lambda i: Imp(Not(s.has(d, i)), s.val(d, i) == 0), pats=lambda i: [s.val(d, i)]))]
def shrink(S, s0, s):
    W = S.ip.world.dsum
    V0, V1 = s0.a[(DR, 'val')], s.a[(DR, 'val')]
    return [("nobody's delegations grow in total", S.forall([DR], lambda e: Imp(KIND(e.term) == 1, W(sel(V1, e.term)) <= W(sel(V0, e.term))), pats=lambda e: [sel(V1, e.term)]))]
def rd_frame(S, s0, s, d, k, hit):
    """allocation dictionaries in `hit` lose k, the ledger d is described separately, nothing else changes"""
    D = fam_sort(DR)
    H0, V0, H1, V1 = s0.a[(DR, 'has')], s0.a[(DR, 'val')], s.a[(DR, 'has')], s.a[(DR, 'val')]
    no = z3.BoolVal(False)
    return [('the pool leaves exactly the delegators\' records', S.forall([DR], lambda e: Imp(e.term != d, sel(H1, e.term) == z3.If(hit(e.term), z3.Store(sel(H0, e.term), k, no), sel(H0, e.term))), pats=lambda e: [sel(H1, e.term)])),
            ('other ledgers stay', S.forall([DR], lambda e: Imp(And(e.term != d, KIND(e.term) == 0), sel(V1, e.term) == sel(V0, e.term)), pats=lambda e: [sel(V1, e.term)])),
            ('other amounts stay', S.forall([DR, 'int'], lambda e, j: Imp(And(e.term != d, sel(sel(H1, e.term), j)), sel(sel(V1, e.term), j) == sel(sel(V0, e.term), j)), pats=lambda e, j: [sel(sel(V1, e.term), j)]))] + shrink(S, s0, s)
def ens_rd(S, a, r):
    ip = S.ip
    m = model(S, a)
    s0, s = S.old(lambda: Snap(S, m)), Snap(S, m)
    p = a.pool.term
    d, k = s0.led(p), s0.f('Pool', 'id', p)
    sim = S.old(lambda: SIM(S, m))
    hit = lambda e: Or(s0.cur_of(e), And(sim, s0.planned_of(e)))
    return [('no delegators are left', sel(s.a[(DR, 'has')], d) == z3.K(I, z3.BoolVal(False))), ('and no delegated stake', sel(s.a[(DR, 'val')], d) == z3.K(I, z3.RealVal(0))),
            ('only the pledge is left', (lambda c: Imp(sel(s.a[(DR, 'val')], d) == z3.K(I, z3.RealVal(0)), c))(s.a[('Pool', 'stake')] == z3.Store(s0.a[('Pool', 'stake')], p, s0.f('Pool', 'pledge', p))))] + rd_frame(S, s0, s, d, k, hit)
def sum_of_nothing(ip, S, a): ip.assume(ip.world.dsum(z3.K(I, z3.RealVal(0))) == 0)
def rd_loop1(S, a, L):
    m = model(S, a)
    s0, s = L.pre(lambda: Snap(S, m)), Snap(S, m)
    p = a.pool.term
    d, k = s0.led(p), s0.f('Pool', 'id', p)
    seen = lambda i: sel(L.seen, i)
    W = S.ip.world.dsum
    return [('ledger', S.forall(['int'], lambda i: And(s.has(d, i) == And(s0.has(d, i), Not(seen(i))), s.val(d, i) == z3.If(seen(i), 0, s0.val(d, i))), pats=lambda i: [s.has(d, i), s.val(d, i)])),
            ('stake', And(s.f('Pool', 'stake', p) == s.f('Pool', 'pledge', p) + W(sel(s.a[(DR, 'val')], d)), s.a[('Pool', 'stake')] == z3.Store(s0.a[('Pool', 'stake')], p, s.f('Pool', 'stake', p))))] + \
        rd_frame(S, s0, s, d, k, lambda e: And(s0.cur_of(e), seen(IDX(e))))
def rd_loop2(S, a, L):
    m = model(S, a)
    s0, s = L.pre(lambda: Snap(S, m)), Snap(S, m)
    p = a.pool.term
    d, k = s0.led(p), s0.f('Pool', 'id', p)
    return [('the ledger stays', And(sel(s.a[(DR, 'has')], d) == sel(s0.a[(DR, 'has')], d), sel(s.a[(DR, 'val')], d) == sel(s0.a[(DR, 'val')], d)))] + \
        rd_frame(S, s0, s, d, k, lambda e: And(s0.planned_of(e), sel(L.seen, IDX(e))))
RD = Contract('C09.remove_delegations', ST + 'remove_delegations', {'self': 'Agent', 'pool': 'Pool'}, requires=req_rd, ensures=ens_rd, setup=sum_of_nothing,
              modifies=[('Pool', 'stake'), (DR, 'has'), (DR, 'val')],
              loops={'delegators': LoopInv(ST + 'remove_delegations', 0, rd_loop1), 'plans': LoopInv(ST + 'remove_delegations', 1, rd_loop2)},
              title='a pool loses all its delegations on both sides, and its place in planned moves')
# ------------------------------------------------------------------ executing a move
class Ctx:
    """names for the parts of the executing agent's old and new strategy (entry state)"""
    def __init__(self, S, a):
        self.S, self.m = S, model(S, a)
        self.uid = S.get(a.self, 'unique_id')
        old, new = S.get(a.self, 'strategy'), S.get(a.self, 'new_strategy')
        self.old, self.new = old.term, new.term
        g = lambda st, f: S.get(st, f).term
        self.OA, self.NA, self.OO, self.NO = g(old, 'stake_allocations'), g(new, 'stake_allocations'), g(old, 'owned_pools'), g(new, 'owned_pools')
        self.sim = S.old(lambda: SIM(S, self.m)) if S.oldheap is not None else SIM(S, self.m)
        self.msu = MSU(S)
        self.me = a.self.term
    def snap(self): return Snap(self.S, self.m)
T = lambda k: z3.BoolVal(True)
F = lambda k: z3.BoolVal(False)
def whole(S, c, s, me, pending, before=True):
    """the invariant while agent c.uid executes its move; pending(k): which of its planned pools are still to be put in place"""
    uid = c.uid
    oth = lambda a: a != uid
    out = inv(S, s, uid, me) + plans_ok(S, s, c.sim, oth) + planned_pools(S, s, oth)
    np = lambda k: s.pval(c.NO, k)
    out += [('the agent is in the schedule', And(s.isag(uid), s.AG(uid) == c.me)),
            ('planned moves exist only if agents move simultaneously', Imp(Not(c.sim), S.forall(['int'], lambda a: Imp(And(s.there(a), oth(a)), s.nstr(a) == NULL['Strategy']), pats=lambda a: [s.AG(a)]))),
            ("the agent's planned delegations", S.forall(['int'], lambda k: Imp(s.has(c.NA, k), And(s.filed(k), Not(s.f('Pool', 'is_private', s.P(k))), s.f('Pool', 'owner', s.P(k)) != uid, s.val(c.NA, k) >= c.msu)), pats=lambda k: [s.has(c.NA, k)])),
            ("the agent's planned pools", S.forall(['int'], lambda k: Imp(And(s.phas(c.NO, k), pending(k)), And(np(k) != NULL['Pool'], s.aliveP(np(k)), s.f('Pool', 'id', np(k)) == k, s.f('Pool', 'owner', np(k)) == uid, WHO(k) == uid,
                Imp(s.filed(k), np(k) != s.P(k)), Imp(Not(s.filed(k)), new_ok(S, s, np(k), k)))), pats=lambda k: [np(k)])),
            ('old and new delegations', And(KIND(c.OA) == 1, IDX(c.OA) == uid, KIND(c.NA) == 1, IDX(c.NA) == uid, c.OA != c.NA))]
    if before: out += [('the agent does not delegate to its own pools', S.forall(['int'], lambda k: Imp(And(s.filed(k), s.f('Pool', 'owner', s.P(k)) == uid), Not(s.has(c.OA, k))), pats=lambda k: [s.P(k)]))]
    return out
def at(s, d): return lambda k: s.has(d, k)
def mine0(c, s): return Mine(lambda k: s.has(c.OA, k), lambda k: s.val(c.OA, k), lambda k: s.phas(c.OO, k), lambda k: s.pval(c.OO, k), lambda k: [s.has(c.OA, k), s.has(c.NA, k)], lambda k: [s.phas(c.OO, k), s.phas(c.NO, k)])
def req_ex(S, a):
    c = Ctx(S, a)
    s = S.old(c.snap) if S.oldheap is not None else c.snap()
    return [('model', c.m.term != null_of('Model')), ('schedule', S.get(c.m, 'schedule').term != null_of('Sched')), ('a move is planned', c.new != NULL['Strategy']), ('pools', s.pools != NULL[DP])] + whole(S, c, s, mine0(c, s), T)
def pools_frame(S, c, s0, s):
    return [('other dictionaries of pools stay', And(*[S.forall([DP], lambda e: Imp(e.term != s.pools, sel(s.a[(DP, f)], e.term) == sel(s0.a[(DP, f)], e.term)), pats=lambda e: [sel(s.a[(DP, f)], e.term)]) for f in ('has', 'val')]))]
def na_stays(S, c, s0, s):
    return [('the planned delegations stay', S.forall(['int'], lambda k: And(s.has(c.NA, k) == s0.has(c.NA, k), Imp(s.has(c.NA, k), s.val(c.NA, k) == s0.val(c.NA, k))), pats=lambda k: [s.has(c.NA, k), s.val(c.NA, k)]))] + shrink(S, s0, s)
def phase(n):
    def f(S, a, L):
        c = Ctx(S, a)
        s, s0 = c.snap(), L.pre(c.snap)
        seen = lambda k: sel(L.seen, k)
        oh, nh = (lambda k: s.phas(c.OO, k)), (lambda k: s.phas(c.NO, k))
        me = mine0(c, s)
        pend = T
        if n == 0: me.X = lambda k: And(s.has(c.OA, k), Not(seen(k)))
        else:
            me.X, me.XV = (lambda k: s.has(c.NA, k)), (lambda k: s.val(c.NA, k))
            if n == 1:
                me.X = lambda k: And(s.has(c.NA, k), Or(seen(k), s.has(c.OA, k)))
                me.XV = lambda k: z3.If(seen(k), s.val(c.NA, k), s.val(c.OA, k))
            if n == 2: me.O = lambda k: And(oh(k), Not(seen(k)))
            if n == 3:
                me.O = lambda k: And(oh(k), nh(k))
                me.OV = lambda k: z3.If(seen(k), s.pval(c.NO, k), s.pval(c.OO, k))
                pend = lambda k: Not(seen(k))
            if n == 4:
                me.O = lambda k: And(nh(k), Or(oh(k), seen(k)))
                me.OV = lambda k: s.pval(c.NO, k)
                pend = lambda k: And(Not(oh(k)), Not(seen(k)))
        out = whole(S, c, s, me, pend, n < 4)
        if n >= 2: out += pools_frame(S, c, s0, s) + na_stays(S, c, s0, s)
        else: out += [('only ledgers change', And(*[S.forall([DR], lambda e: Imp(KIND(e.term) == 1, sel(s.a[(DR, f)], e.term) == sel(s0.a[(DR, f)], e.term)), pats=lambda e: [sel(s.a[(DR, f)], e.term)]) for f in ('has', 'val')]))]
        return out
    return f
def ens_ex(S, a, r):
    c = Ctx(S, a)
    s, s0 = c.snap(), S.old(c.snap)
    me = Mine(lambda k: s.has(s.alloc(c.uid), k), lambda k: s.val(s.alloc(c.uid), k), lambda k: s.phas(s.own(c.uid), k), lambda k: s.pval(s.own(c.uid), k), lambda k: [s.has(s.alloc(c.uid), k)], lambda k: [s.phas(s.own(c.uid), k)])
    return [('the planned strategy is the current one', And(s.strat(c.uid) == c.new, s.nstr(c.uid) == NULL['Strategy']))] + \
        inv(S, s, c.uid, me) + plans_ok(S, s, c.sim, lambda a: a != c.uid) + planned_pools(S, s, lambda a: a != c.uid) + pools_frame(S, c, s0, s) + na_stays(S, c, s0, s)
def label(ip, o, field, v):
    """ghost: a dictionary created here becomes the ledger of a pool"""
    if (o.fam, field) == ('Pool', 'delegators') and isinstance(v, Obj):
        done = ip.ghost.setdefault('labelled', [])
        if any(v.term.eq(t) for t in ip.ghost.get('created', [])) and not any(v.term.eq(t) for t in done) and not ip.bounds:
            done.append(v.term)
            ip.assume(And(KIND(v.term) == 0, IDX(v.term) == ip.getfield(o, 'id')))
EX = [Contract('C09.execute_strategy.' + n, PR + n + '.execute_strategy', {'self': 'agent:' + n}, requires=req_ex, ensures=ens_ex, setup=sum_of_nothing,
               modifies=[('Pool', 'stake'), ('Pool', 'delegators'), (DR, '*'), (DP, '*'), ('Agent', 'strategy'), ('Agent', 'new_strategy')],
               loops={'phase%d' % i: LoopInv(ST + 'execute_strategy', i, phase(i)) for i in range(5)}, callmode='never',
               title='executing a move keeps the ledger balanced (%s)' % n) for n in ('NonMyopicStakeholder', 'MyopicStakeholder')]
def cfg(w):
    nop = lambda ip, o, a, kw, where: None
    for n in ('add', 'remove', 'update'): w.obj_methods[('SL', n)] = nop
    w.nonnull_dicts = True
    w.closure = True
    w.on_setfield = label
SG = ['logic.strategy:Strategy.__init__', 'logic.strategy:Strategy.<body>']
SI = 'logic.sim:Simulation.'
FR = [Scan('C09.frame', writes={'delegators': [P + '__init__', ST + 'update_pool'], 'strategy': [ST + '__init__', PR + 'Abstainer.__init__', ST + 'execute_strategy'], 'new_strategy': [ST + '__init__', ST + 'execute_strategy', ST + 'update_strategy'],
                                'stake_allocations': SG, 'owned_pools': SG, 'owner': [P + '__init__'], 'pools': [SI + '__init__']},
           calls={'update_delegation': [ST + 'execute_strategy', ST + 'determine_stake_allocations', ST + 'remove_delegations'], 'remove_delegations': [ST + 'close_pool', ST + 'update_pool'], 'close_pool': [ST + 'execute_strategy'], 'open_pool': [ST + 'execute_strategy'],
                  'update_pool': [ST + 'execute_strategy'], 'execute_strategy': [ST + 'advance']}, dynamic=[SI + '__init__', SI + 'change_phase'],
           title='ledgers, strategies and the registry are written nowhere else')]
LEDGER = [UD, RD] + EX + FR
CONFIG = {'LEDGER': cfg}
