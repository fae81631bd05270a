"""C08: where an agent delegates its stake.  The eligible pools are taken along the agent's ranking; RANK(pool) is its position."""
import z3
from pyver.spec import Contract
from pyver.loops import LoopInv
from pyver.vals import *
from .ledger import *
from .ledger import UD
RANK = z3.Function('RANK_OF', fam_sort('Pool'), I)
class Dx:
    """the situation on entry"""
    def __init__(self, S, a):
        self.S, self.m = S, model(S, a)
        self.uid = S.get(a.self, 'unique_id')
        self.OA = S.get(S.get(a.self, 'strategy'), 'stake_allocations').term
        self.rs = S.get(self.m, 'reward_scheme')
        rk = S.get(a.self, 'rankings')
        self.rk = rk.term
        old = S.old if S.oldheap is not None else (lambda t: t())
        self.s = old(lambda: Snap(S, self.m))
        self.n, self.at = old(lambda: (S.ip.harr('SL', 'len'), S.ip.harr('SL', 'at')))
        self.n, self.at = sel(self.n, self.rk), sel(self.at, self.rk)
        self.msu = MSU(S)
    def el(self, i): return sel(self.at, i)
    def pid(self, i): return self.s.f('Pool', 'id', self.el(i))
    def elig(self, i):
        e = self.el(i)
        return And(i >= 0, i < self.n, e != NULL['Pool'], self.s.f('Pool', 'owner', e) != self.uid, Not(self.s.f('Pool', 'is_private', e)))
    def free(self, p):
        """stake of the pool without the agent's present delegation"""
        k = self.s.f('Pool', 'id', p)
        return self.s.f('Pool', 'stake', p) - z3.If(self.s.has(self.OA, k), self.s.val(self.OA, k), 0)
    def room(self, p): return self.S.rss_threshold(self.rs, self.s.f('Pool', 'pledge', p)) - self.free(p)
def req_d(S, a):
    c = Dx(S, a); s = c.s
    i = ['int']
    return [('model', c.m.term != null_of('Model')), ('scheme', c.rs.term != null_of('Rss')), ('pools', s.pools != NULL[DP]), ('strategy', S.get(a.self, 'strategy').term != NULL['Strategy']), ('ranking', And(c.rk != null_of('SL'), c.n >= 0)),
            ('which ranking', c.rk == S.get(c.m, {'NonMyopicStakeholder': 'pool_rankings', 'MyopicStakeholder': 'pool_rankings_myopic'}[a.self.cls.name]).term),
            ('there is something to delegate', zr(a.stake_to_delegate) >= c.msu),
            ('the ranking holds open pools, each once', S.forall(i, lambda j: Imp(And(j >= 0, j < c.n, c.el(j) != NULL['Pool']), And(s.aliveP(c.el(j)), s.filed(c.pid(j)), s.P(c.pid(j)) == c.el(j), RANK(c.el(j)) == j)), pats=lambda j: [c.el(j)])),
            ('own delegations are recorded', S.forall(i, lambda k: Imp(s.has(c.OA, k), And(s.filed(k), s.has(s.led(s.P(k)), c.uid), s.val(s.led(s.P(k)), c.uid) == s.val(c.OA, k), s.val(c.OA, k) >= c.msu)), pats=lambda k: [s.has(c.OA, k), s.val(c.OA, k)])),
            ('own allocations', And(c.OA != NULL[DR], s.aliveD(c.OA), KIND(c.OA) == 1))] + [x for x in ledgers_ok(S, s) if x[0] in ('pools are filed under their ids', 'every pool has a ledger of its own', 'absent keys hold 0')]
def own_moves(S, a, L, back):
    """the agent's present delegations are taken out of (put back into) the pools, one by one"""
    c = Dx(S, a)
    s, s0 = Snap(S, c.m), L.pre(lambda: Snap(S, c.m))
    hit = lambda d: And(c.s.has(c.OA, IDX(d)), d == c.s.led(c.s.P(IDX(d))), sel(L.seen, IDX(d)))
    pid = lambda p: c.s.f('Pool', 'id', p)
    hitp = lambda p: And(c.s.has(c.OA, pid(p)), c.s.P(pid(p)) == p, sel(L.seen, pid(p)))
    h, v, H0, V0 = s.a[(DR, 'has')], s.a[(DR, 'val')], s0.a[(DR, 'has')], s0.a[(DR, 'val')]
    x = lambda k: c.s.val(c.OA, k)
    return [('ledgers', S.forall([DR], lambda d: sel(h, d.term) == z3.If(hit(d.term), z3.Store(sel(H0, d.term), c.uid, z3.BoolVal(back)), sel(H0, d.term)), pats=lambda d: [sel(h, d.term)])),
            ('amounts', S.forall([DR], lambda d: sel(v, d.term) == z3.If(hit(d.term), z3.Store(sel(V0, d.term), c.uid, x(IDX(d.term)) if back else z3.RealVal(0)), sel(V0, d.term)), pats=lambda d: [sel(v, d.term)])),
            ('stakes', S.forall(['Pool'], lambda p: s.f('Pool', 'stake', p.term) == s0.f('Pool', 'stake', p.term) + z3.If(hitp(p.term), x(pid(p.term)) if back else -x(pid(p.term)), 0), pats=lambda p: [s.f('Pool', 'stake', p.term)]))]
def one(xs, what):
    if len(xs) != 1: raise OutOfSubset('%d candidates for %s' % (len(xs), what))
    return xs[0]
def fill(S, a, L):
    ip = S.ip; c = Dx(S, a)
    s, s0 = Snap(S, c.m), L.pre(lambda: Snap(S, c.m))
    W = ip.world.dsum
    lst = one([x['list'] for x in ip.ghost.get('seqs', []) if any(isinstance(v, Obj) and v.term.eq(x['list'].term) for v in L.pre_env.values())], 'the list of eligible pools')
    A = one([v.ref for v in L.pre_env.values() if isinstance(v, PDict) and v.ref is not None and v.ref.fam == DR], 'the new allocations').term
    bn = one([n for n in L.names if n in L.pre_env and L.pre_env[n] is None], 'the best saturated pool')
    bsp = L.env[bn]
    bsp = NULL['Pool'] if bsp is None else bsp.term
    sn = one([n for n in L.names if n in L.pre_env and is_num(L.pre_env[n])], 'the remaining stake')
    rest, S0 = zr(L.env[sn]), zr(L.pre_env[sn])
    g = lambda f: sel(ip.harr('L[Pool]', f), lst.term)
    off, n, at = g('off'), g('len'), g('at')
    n0 = L.pre(lambda: g('len'))
    el = lambda j: sel(at, j)
    pid = lambda p: c.s.f('Pool', 'id', p)
    room = lambda j: c.room(el(j))
    has, val = (lambda k: s.has(A, k)), (lambda k: s.val(A, k))
    i = ['int']
    src = one([x for x in ip.ghost['seqs'] if x['list'] is lst], 'list')
    F = z3.Int('FIRST_SATURATED')
    return [('position', And(off >= 0, n == n0 - off, n >= 0, at == L.pre(lambda: g('at')))),
            ('taken pools', S.forall(i, lambda j: Imp(And(j >= 0, j < off), z3.If(room(j) >= c.msu, And(has(pid(el(j))), val(pid(el(j))) == room(j)), Not(has(pid(el(j)))))), pats=lambda j: [el(j)])),
            ('pools to come', S.forall(i, lambda j: Imp(And(j >= off, j < n0), Not(has(pid(el(j))))), pats=lambda j: [el(j)])),
            ('only taken pools', S.forall(i, lambda k: Imp(has(k), And(c.elig(RANK(c.s.P(k))), c.pid(RANK(c.s.P(k))) == k, src['idx'](RANK(c.s.P(k))) < off)), pats=lambda k: [has(k)])),
            ('absent keys hold 0', S.forall(i, lambda k: Imp(Not(has(k)), val(k) == 0), pats=lambda k: [val(k)])),
            ('no saturated pool so far', Imp(bsp == NULL['Pool'], S.forall(i, lambda j: Imp(And(j >= 0, j < off), room(j) >= c.msu), pats=lambda j: [el(j)]))),
            ('the first saturated pool', Imp(bsp != NULL['Pool'], And(c.elig(RANK(bsp)), c.el(RANK(bsp)) == bsp, c.room(bsp) < c.msu, src['idx'](RANK(bsp)) < off,
                S.forall(i, lambda j: Imp(And(j >= 0, j < src['idx'](RANK(bsp))), room(j) >= c.msu), pats=lambda j: [el(j)])))),
            ('what is left', And(W(sel(s.a[(DR, 'val')], A)) >= 0, rest == S0 - W(sel(s.a[(DR, 'val')], A)), rest >= c.msu)),
            ('nothing else changes', And(*[S.forall([DR], lambda e: Imp(e.term != A, sel(s.a[(DR, f)], e.term) == sel(s0.a[(DR, f)], e.term)), pats=lambda e: [sel(s.a[(DR, f)], e.term)]) for f in ('has', 'val')]))]
def ens_d(S, a, r):
    ip = S.ip; c = Dx(S, a)
    i, ii = ['int'], ['int', 'int']
    S0 = zr(a.stake_to_delegate)
    if r is None: return [('no decision only if there is no eligible pool', S.forall(i, lambda j: Not(c.elig(j)), pats=lambda j: [c.el(j)]) if ip.ghost.get('caller') else Not(c.elig(ip.fresh('any_position', I))))]
    if isinstance(r, PDict): r = r.ref
    if not (isinstance(r, Obj) and r.fam == DR): raise OutOfSubset('the decision is %r' % (r,))
    s = Snap(S, c.m)
    tot = ip.world.dsum(sel(s.a[(DR, 'val')], r.term))
    has, val = (lambda k: s.has(r.term, k)), (lambda k: s.val(r.term, k))
    room = lambda j: c.room(c.el(j))
    H, V = (lambda j: has(c.pid(j))), (lambda j: val(c.pid(j)))
    return [('a new dictionary', Not(ip.alloc0(DR)(r.term))),
            ('only open public pools of others, at least the smallest unit', S.forall(i, lambda k: Imp(has(k), And(c.s.filed(k), c.elig(RANK(c.s.P(k))), c.pid(RANK(c.s.P(k))) == k, c.s.f('Pool', 'owner', c.s.P(k)) != c.uid, Not(c.s.f('Pool', 'is_private', c.s.P(k))), val(k) >= c.msu)), pats=lambda k: [has(k)])),
            ('a pool is filled before the next is used', S.forall(ii, lambda j, k: Imp(And(c.elig(j), c.elig(k), j < k, room(j) >= c.msu, H(k)), And(H(j), V(j) == room(j))), pats=lambda j, k: [[c.el(j), c.el(k)]])),
            ('no pool is filled beyond its saturation threshold', S.forall(i, lambda j: Imp(And(c.elig(j), room(j) >= c.msu, H(j)), V(j) <= room(j)), pats=lambda j: [c.el(j)])),
            ('a saturated pool gets something only when all others are full', S.forall(ii, lambda j, k: Imp(And(c.elig(j), c.elig(k), room(k) < c.msu, H(k), room(j) >= c.msu), And(H(j), V(j) == room(j))), pats=lambda j, k: [[c.el(j), c.el(k)]])),
            ('then only the best-ranked one', S.forall(ii, lambda j, k: Imp(And(c.elig(j), c.elig(k), room(k) < c.msu, H(k), j < k), room(j) >= c.msu), pats=lambda j, k: [[c.el(j), c.el(k)]])),
            ('never more than there is', And(tot >= 0, tot <= S0)),
            ('all of it, unless no eligible pool can take more', Or(tot > S0 - c.msu, S.forall(i, lambda j: Imp(c.elig(j), And(room(j) >= c.msu, H(j), V(j) == room(j))), pats=lambda j: [c.el(j)])))]
DSA = ST + 'determine_stake_allocations'
D = [Contract('C08.determine_stake_allocations.' + n, PR + n + '.determine_stake_allocations', {'self': 'agent:' + n, 'stake_to_delegate': 'real'}, requires=req_d, ensures=ens_d, modifies=[('L[Pool]', '*')], callmode='never', setup=sum_of_nothing,
              loops={'out': LoopInv(DSA, 0, lambda S, a, L: own_moves(S, a, L, False)), 'fill': LoopInv(DSA, 1, fill, kind='while', dicts={'*': DR}, lists={'*': 'L[Pool]'}, decreases=lambda S, a, L: left(S, L)),
                     'back': LoopInv(DSA, 2, lambda S, a, L: own_moves(S, a, L, True))},
              title='a decision to delegate fills the best eligible pools in order, and changes nothing (%s)' % n) for n in ('NonMyopicStakeholder', 'MyopicStakeholder')]
def left(S, L):
    l = one([x['list'] for x in S.ip.ghost.get('seqs', []) if any(isinstance(v, Obj) and v.term.eq(x['list'].term) for v in L.pre_env.values())], 'the list of eligible pools')
    return sel(S.ip.harr('L[Pool]', 'len'), l.term)
def decided(ip, a, where):
    """a decision as its contract describes it"""
    from pyver.symspec import Sym
    for n, c in req_d(Sym(ip), a): ip.oblige('precondition of C08.determine_stake_allocations: %s, at the call %s' % (n, where), c)
    S = Sym(ip, dict(ip.heap))
    ip.ghost['caller'] = True
    if ip.branch(z3.Const(ip.fresh_name('no_decision'), B)):
        for n, c in ens_d(S, a, None): ip.assume(c)
        return None
    d = ip.alloc(DR)
    ip.dset(d, ip.fresh('has', z3.ArraySort(I, B)), ip.fresh('val', z3.ArraySort(I, R)))
    for n, c in ens_d(S, a, d): ip.assume(c)
    ip.ghost['decision'] = d
    return d
def s_decided(ip, env, where):
    from pyver.spec import A
    v = list(env.values())
    return decided(ip, A(dict(self=v[0], stake_to_delegate=v[1])), where)
def req_m(S, a):
    a.stake_to_delegate = z3.RealVal(1) if getattr(a, 'stake_to_delegate', None) is None else a.stake_to_delegate
    return [x for x in req_d(S, a) if x[0] != 'there is something to delegate']
def ens_m(stake):
    def f(S, a, r):
        ip = S.ip; c = Dx(S, a); s = Snap(S, c.m)
        S0 = stake(S, a)
        d = S.new(r, 'stake_allocations').term
        W = ip.world.dsum(sel(s.a[(DR, 'val')], d))
        a.stake_to_delegate = S0
        dec = ip.ghost.get('decision')
        al = ip.alloc0('Strategy')(r.term)
        return [('a new strategy that operates no pools', And(Not(al), S.forall(['int'], lambda k: Not(s.phas(S.new(r, 'owned_pools').term, k)), pats=lambda k: [s.phas(S.new(r, 'owned_pools').term, k)]))),
                ('a new dictionary', Not(ip.alloc0(DR)(d))),
                ('delegations only to open public pools of others, at least the smallest unit', S.forall(['int'], lambda k: Imp(s.has(d, k), And(c.s.filed(k), Not(c.s.f('Pool', 'is_private', c.s.P(k))), c.s.f('Pool', 'owner', c.s.P(k)) != c.uid, s.val(d, k) >= c.msu)), pats=lambda k: [s.has(d, k)])),
                ('never more than there is', And(W >= 0, W <= S.mx(S0, S.real(0)))),
                ('exactly the decision that was taken, or nothing if there is no stake or no eligible pool', d == dec.term if dec is not None else And(sel(s.a[(DR, 'has')], d) == z3.K(I, z3.BoolVal(False)), Or(S0 < c.msu, Not(c.elig(ip.fresh('any_position', I))))))]
    return f
own_stake = lambda S, a: S.get(a.self, 'stake')
the_stake = lambda S, a: zr(a.stake_to_delegate)
MV = [Contract('C08.find_delegation_move.%s.%s' % (n, w), PR + n + '.find_delegation_move', {'self': 'agent:' + n, 'stake_to_delegate': t}, requires=req_m, ensures=ens_m(st), modifies=[('L[Pool]', '*')], callmode='never', setup=sum_of_nothing, stubs={('Agent', 'determine_stake_allocations'): s_decided},
               title='a delegation move delegates %s as decided (%s)' % (w, n)) for n in ('NonMyopicStakeholder', 'MyopicStakeholder') for w, t, st in (('a part of the stake', 'real', the_stake), ('the whole stake', ('const', None), own_stake))]
DELEGATE = [UD] + D
MOVES = MV
CONFIG = {'DELEGATE': cfg, 'MOVES': cfg}
