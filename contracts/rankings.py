"""C10: the rankings.  A ranking is a sorted container: mem(L) is what it holds, k1(L), k2(L) the keys its members were filed
under.  It finds and keeps its members in order as long as these are their current keys: removing a pool obliges it to be a
member whose current key is the filed one, adding a pool obliges it not to be a member; both keys are part of the invariant.
The key of the myopic ranking is written MK(scheme and its parameters, stake, pledge, cost, margin); KEYS says what the code's keys are."""
import z3
from pyver.spec import Contract
from pyver.loops import LoopInv
from pyver.scan import Scan
from pyver.vals import *
from .ledger import *
from .ledger import UD, RD, cfg as ledger_cfg, label, pools_frame, na_stays
from .delegate import req_d, own_moves, fill, left, Dx, DSA
from .scalar import v_pp
PO = fam_sort('Pool')
MK = z3.Function('MYOPIC_KEY', fam_sort('Rss'), I, R, R, R, R, R, R, R)
RS = 'logic.reward_schemes:'
class Rk:
    """both rankings at this moment"""
    def __init__(self, S, m):
        ip = self.ip = S.ip
        self.a = {f: ip.harr('SL', f) for f in ('mem', 'k1', 'k2')}
        self.p = {f: ip.harr('Pool', f) for f in ('id', 'stake', 'pledge', 'cost', '_margin', 'desirability', 'potential_profit')}
        self.main, self.myo = S.new(m, 'pool_rankings').term, S.new(m, 'pool_rankings_myopic').term
        rs = S.new(m, 'reward_scheme')
        self.rs = [rs.term] + [S.new(rs, f) for f in ('_k', 'a0', 'global_saturation_threshold')]
    def mem(self, l, p): return sel(sel(self.a['mem'], l), p)
    def k(self, f, l, p): return sel(sel(self.a[f], l), p)
    def key(self, l, p):
        g = lambda f: sel(self.p[f], p)
        if l.eq(self.main): return -g('desirability'), -g('potential_profit')
        return MK(*self.rs, g('stake'), g('pledge'), g('cost'), g('_margin')), z3.RealVal(0)
    def filed_as(self, l, p):
        k1, k2 = self.key(l, p)
        return And(self.k('k1', l, p) == k1, self.k('k2', l, p) == k2)
def ranks_ok(S, m, s, out=None):
    """every open pool is in both rankings, filed under its current keys, and nothing else is"""
    r = Rk(S, m)
    res = [('rankings', And(r.main != null_of('SL'), r.myo != null_of('SL'), r.main != r.myo))]
    for n, l in (('main', r.main), ('myopic', r.myo)):
        res += [('%s ranking: every open pool is in it' % n, S.forall(['int'], lambda k: Imp(s.filed(k), r.mem(l, s.P(k))), pats=lambda k: [s.P(k)])),
                ('%s ranking: only open pools are in it' % n, S.forall(['Pool'], lambda p: Imp(r.mem(l, p.term), And(s.filed(s.f('Pool', 'id', p.term)), s.P(s.f('Pool', 'id', p.term)) == p.term)), pats=lambda p: [r.mem(l, p.term)])),
                ('%s ranking: pools are filed under their current keys' % n, S.forall(['Pool'], lambda p: Imp(r.mem(l, p.term), r.filed_as(l, p.term)), pats=lambda p: [r.mem(l, p.term)]))]
    return res
# ---- what the rankings do
def rank_op(name):
    def op(ip, o, a, kw, where):
        from pyver.symspec import Sym
        if kw or len(a) != 1: raise OutOfSubset('%s of a ranking at %s' % (name, where))
        p = a[0]
        if p is None:
            if name == 'add': return None
            raise OutOfSubset('a placeholder is removed at ' + where)
        if not (isinstance(p, Obj) and p.fam == 'Pool'): raise OutOfSubset('%s of %r at %s' % (name, p, where))
        m = ip.ghost['model']
        r = Rk(Sym(ip), m)
        l = next((x for x in (r.main, r.myo) if ip.sel(ip.harr('SL', 'mem'), x) is not None and o.term.eq(x)), None)
        if l is None:
            l = next((x for x in (r.main, r.myo) if ip.valid(o.term == x)), None)
        if l is None: raise OutOfSubset('an unknown ranking at ' + where)
        which = 'main' if l.eq(r.main) else 'myopic'
        ip.nonnull(p, where)
        if name == 'add':
            ip.oblige('a pool enters the %s ranking only once, %s' % (which, where), Not(r.mem(l, p.term)))
            k1, k2 = r.key(l, p.term)
            upd = {'mem': z3.Store(sel(r.a['mem'], l), p.term, z3.BoolVal(True)), 'k1': z3.Store(sel(r.a['k1'], l), p.term, k1), 'k2': z3.Store(sel(r.a['k2'], l), p.term, k2)}
        else:
            ip.oblige('a pool that leaves the %s ranking is in it, %s' % (which, where), r.mem(l, p.term))
            ip.oblige('a pool that leaves the %s ranking is still filed under its key, %s' % (which, where), r.filed_as(l, p.term))
            upd = {'mem': z3.Store(sel(r.a['mem'], l), p.term, z3.BoolVal(False))}
        for f, v in upd.items(): ip.heap[('SL', f)] = z3.Store(ip.harr('SL', f), l, v)
        return None
    return op
def cfg(w):
    ledger_cfg(w)
    for n in ('add', 'remove'): w.obj_methods[('SL', n)] = rank_op(n)
    w.obj_methods.pop(('SL', 'update'), None)
    w.schema['SL'].update(k1='A[Pool,real]', k2='A[Pool,real]')
def begin(ip, S, a):
    sum_of_nothing(ip, S, a)
    ip.ghost['model'] = a.self if a.self.fam == 'Model' else S.get(a.self, 'model')
# ---- executing a move
def req_ex10(S, a):
    c = Ctx(S, a)
    s, rk = (S.old(c.snap), S.old(lambda: ranks_ok(S, c.m, c.snap()))) if S.oldheap is not None else (c.snap(), ranks_ok(S, c.m, c.snap()))
    return req_ex(S, a) + rk
def phase10(n):
    f = phase(n)
    def g(S, a, L): return f(S, a, L) + ranks_ok(S, Ctx(S, a).m, Ctx(S, a).snap())
    return g
def ens_ex10(S, a, r):
    c = Ctx(S, a)
    own = [x for x in ens_ex(S, a, r) if x[0] in ('pools are filed under their ids', 'operators list their pools', 'listed pools are open', 'the agent lists its pools', "the agent's pools are open")]
    return own + ranks_ok(S, c.m, c.snap())
EX10 = [Contract('C10.execute_strategy.' + n, PR + n + '.execute_strategy', {'self': 'agent:' + n}, requires=req_ex10, ensures=ens_ex10, setup=begin,
                 modifies=[('Pool', 'stake'), ('Pool', 'delegators'), (DR, '*'), (DP, '*'), ('Agent', 'strategy'), ('Agent', 'new_strategy'), ('SL', '*')],
                 loops={'phase%d' % i: LoopInv(ST + 'execute_strategy', i, phase10(i)) for i in range(5)}, callmode='never',
                 title='executing a move keeps registry, operators and rankings in agreement (%s)' % n) for n in ('NonMyopicStakeholder', 'MyopicStakeholder')]
MOVE = [UD, RD] + EX10
# ---- deciding where to delegate takes the agent's stake out of the pools and puts it back
def here(S, a): return ranks_ok(S, model(S, a), Snap(S, model(S, a)))
def req_d10(S, a): return req_d(S, a) + (S.old(lambda: here(S, a)) if S.oldheap is not None else here(S, a))
def own10(back): return lambda S, a, L: own_moves(S, a, L, back) + here(S, a)
def fill10(S, a, L): return [x for x in fill(S, a, L) if x[0] in ('position', 'nothing else changes')]
D10 = [Contract('C10.determine_stake_allocations.' + n, PR + n + '.determine_stake_allocations', {'self': 'agent:' + n, 'stake_to_delegate': 'real'}, requires=req_d10, ensures=lambda S, a, r: here(S, a),
                modifies=[('L[Pool]', '*'), ('SL', '*')], callmode='never', setup=begin,
                loops={'out': LoopInv(DSA, 0, own10(False)), 'fill': LoopInv(DSA, 1, fill10, kind='while', dicts={'*': DR}, lists={'*': 'L[Pool]'}, decreases=lambda S, a, L: left(S, L)), 'back': LoopInv(DSA, 2, own10(True))},
                title='deciding where to delegate leaves the rankings in agreement (%s)' % n) for n in ('NonMyopicStakeholder', 'MyopicStakeholder')]
DECIDE = [UD] + D10
# ---- the keys
def ens_key(S, a, r):
    p = a.pool
    if p is None: return [('a placeholder has a key', z3.BoolVal(isinstance(r, tuple) and len(r) > 0 and all(x == 0 for x in r)))]
    if not isinstance(r, tuple) or len(r) != 3: raise OutOfSubset('a key %r' % (r,))
    return [('by decreasing desirability', zr(r[0]) == -S.get(p, 'desirability')), ('then by decreasing potential profit', zr(r[1]) == -S.get(p, 'potential_profit')), ('then by id', zr(r[2]) == z3.ToReal(S.get(p, 'id')))]
def ens_mykey(S, a, r):
    p = a.pool
    if p is None: return ens_key(S, a, r)
    if not isinstance(r, tuple) or len(r) != 2: raise OutOfSubset('a key %r' % (r,))
    g = lambda f: S.get(p, f)
    rs = S.get(a.self, 'reward_scheme')
    profit = S.rss_reward(rs, g('pledge'), g('stake')) - g('cost')
    return [('by decreasing current desirability, from stake, pledge, cost, margin and scheme only', zr(r[0]) == -S.mx((1 - g('_margin')) * profit, S.real(0))), ('then by id', zr(r[1]) == z3.ToReal(g('id')))]
SI = 'logic.sim:Simulation.'
KEYS = [Contract('C10.key' + t, 'logic.helper:pool_comparison_key', {'pool': v}, ensures=ens_key, callmode='never', title='the main ranking is by desirability, potential profit, age' + w) for t, v, w in (('', 'Pool', ''), ('.placeholder', ('const', None), ' (placeholders)'))] + \
       [Contract('C10.myopic_key' + t, SI + 'pool_comparison_key_myopic', {'self': 'Model', 'pool': v}, requires=lambda S, a: [('scheme', S.get(a.self, 'reward_scheme').term != null_of('Rss'))] + ([('numbers', And(S.get(a.pool, 'pledge') >= 0, S.get(a.pool, 'stake') >= 0))] if a.pool is not None else []),
                 ensures=ens_mykey, callmode='never', title='the myopic ranking is by current desirability, age' + w) for t, v, w in (('', 'Pool', ''), ('.placeholder', ('const', None), ' (placeholders)'))]
FR10 = [Scan('C10.frame', writes={'pool_rankings': [SI + '__init__'], 'pool_rankings_myopic': [SI + '__init__'], 'pools': [SI + '__init__'], 'id': [P + '__init__'], 'cost': [P + '__init__', ST + '__init__', ST + 'find_operator_move'],
                                  'stake': [P + '__init__', P + 'update_delegation', ST + '__init__', ST + 'find_operator_move', ST + 'update_pool', SI + 'normalize_agent_stake'], 'pledge': [P + '__init__', ST + 'find_operator_move'],
                                  'margin': [P + '__init__', ST + 'find_operator_move'], '_margin': [P + 'margin.setter'], 'potential_profit': [P + 'set_profit'], 'desirability': [P + 'set_desirability'], 'reward_scheme': [SI + '__init__'],
                                  'owned_pools': ['logic.strategy:Strategy.__init__', 'logic.strategy:Strategy.<body>'], 'rankings': [PR + n + '.__init__' for n in ('NonMyopicStakeholder', 'MyopicStakeholder')]},
              calls={'update_delegation': [ST + 'execute_strategy', ST + 'determine_stake_allocations', ST + 'remove_delegations'], 'close_pool': [ST + 'execute_strategy'], 'open_pool': [ST + 'execute_strategy'], 'update_pool': [ST + 'execute_strategy'],
                     'set_profit': [P + '__init__', ST + 'find_operator_move', SI + 'change_phase'], 'revise_beliefs': [], 'find_operator_move': [ST + 'choose_pool_strategy']}, dynamic=[SI + '__init__', SI + 'change_phase'],
              title='rankings, registry and everything the keys depend on are written nowhere else')]
CONFIG = {'MOVE': cfg, 'DECIDE': cfg}
