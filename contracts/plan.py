"""C12, C26, C27 (and the plan's part of C05, C06): how a pool-operation move is put together."""
import z3
from pyver.spec import Contract
from pyver.loops import LoopInv
from pyver.vals import *
from .scalar import v_pledge, _X
R = z3.RealSort()
ST = 'logic.stakeholder:Stakeholder.'
CLS = ('NonMyopicStakeholder', 'MyopicStakeholder')
PR = 'logic.stakeholder_profiles:'
DP, DR = 'D[int,Pool]', 'D[int,real]'
FIELDS = ['id', 'cost', 'pledge', 'stake', 'owner', 'is_private', 'delegators', 'potential_profit', '_margin', 'desirability']
PLANNED = z3.Const('DELEGATION_OF_THE_REST', fam_sort('Strategy'))

def H(S, d):
    """content of a dictionary object: has, val"""
    ip = S.ip
    has, val, K, V = ip.dget(d)
    return (lambda k: z3.Select(has, k)), (lambda k: z3.Select(val, k))
def pool(ip, t): return Obj('Pool', t, ip.world.exact_class('Pool'), True)
def PV(S, a):
    """prescribed pledge per pool"""
    m = S.get(a.self, 'model')
    return v_pledge(S, _X(agent_stake=S.get(a.self, 'stake'), global_saturation_threshold=S.get(S.get(m, 'reward_scheme'), 'global_saturation_threshold'), num_pools=a.num_pools))
def CV(S, a):
    """prescribed average cost (C06.cost states it through the total)"""
    c, ph = S.get(a.self, 'cost'), S.get(S.get(a.self, 'model'), 'extra_pool_cost_fraction')
    return c, ph
def cost_ok(S, a, x):
    c, ph = CV(S, a)
    return zr(x) * zr(a.num_pools) == c + (zr(a.num_pools) - 1) * ph * c
def well_formed(S, a, p, f):
    """what every planned pool looks like; f(pool, field): state"""
    rs = S.get(S.get(a.self, 'model'), 'reward_scheme')
    P = PV(S, a)
    thr = S.rss_threshold(rs, P)
    pp = f(p, 'potential_profit')
    return z3.And(f(p, 'owner') == S.get(a.self, 'unique_id'), f(p, 'pledge') == P, f(p, 'is_private') == (P >= thr),
                  pp == S.rss_reward(rs, P, thr) - f(p, 'cost'),
                  f(p, 'desirability') == z3.If((1 - f(p, '_margin')) * pp >= 0, (1 - f(p, '_margin')) * pp, 0))
def req_common(S, a):
    m = S.get(a.self, 'model'); rs = S.get(m, 'reward_scheme')
    return [('model', m.term != null_of('Model')), ('scheme', rs.term != null_of('Rss')), ('threshold>0', S.get(rs, 'global_saturation_threshold') > 0),
            ('stake>=0', S.get(a.self, 'stake') >= 0), ('cost>=0', S.get(a.self, 'cost') >= 0), ('fraction>=0', S.get(m, 'extra_pool_cost_fraction') >= 0)]
def owned_ok(S, a, d, alive=True):
    ip = S.ip
    m = S.get(a.self, 'model')
    has, val = H(S, d)
    hi = S.get(m, 'id_seq')
    return [('owned pools exist, are filed under their ids, and their ids were given out',
             S.forall(['int'], lambda k: z3.Implies(has(k), z3.And(val(k) != null_of('Pool'), ip.alloc0('Pool')(val(k)), S.get(pool(ip, val(k)), 'id') == k, k <= hi,
                                                                  S.get(pool(ip, val(k)), 'owner') == S.get(a.self, 'unique_id'))), pats=lambda k: [val(k)]))]
def n_of(S, d): return S.ip.world.ext.length(S.ip, d)
def req_move(S, a):
    return req_common(S, a) + owned_ok(S, a, a.owned_pools) + [('num_pools>=1', a.num_pools >= 1), ('not more pools than wanted', n_of(S, a.owned_pools) <= a.num_pools),
        ('margins', S.get(a.margins, 'len') >= 0)]
def s_rest(ip, env, w):
    """C08: a delegation of the given stake: positive amounts, in total not more than the stake; nothing else changes"""
    v = list(env.values())
    if len(v) < 2 or v[1] is None: raise OutOfSubset('delegation of the whole stake while planning pools')
    ip.oblige('a delegation decision is asked for a positive stake', zr(v[1]) > 0)
    s = Obj('Strategy', PLANNED, ip.world.exact_class('Strategy'), True)
    ip.assume(z3.And(PLANNED != null_of('Strategy'), ip.alloc0('Strategy')(PLANNED)))
    d = ip.getfield(s, 'stake_allocations')
    has, val, K, V = ip.dget(d)
    ip.assume(z3.And(d.term != null_of(DR), ip.world.dsum(val) >= 0, ip.world.dsum(val) <= zr(v[1])))
    return s
def s_margin(ip, env, w):
    """the margin of a pool that was given none: any number (what it must be is C05.margin)"""
    return ip.fresh('some_margin', R)
def dict_of(L, fam):
    c = [v for v in L.env.values() if isinstance(v, Obj) and v.fam == fam]
    c = [v for i, v in enumerate(c) if all(not v.term.eq(x.term) for x in c[:i])]
    if len(c) != 1: raise OutOfSubset('%d dictionaries of type %s in scope' % (len(c), fam))
    return c[0]
def inv_open(S, a, L):
    ip = S.ip; m = S.get(a.self, 'model')
    d = dict_of(L, DP)
    has, val = H(S, d)
    has0, val0 = L.pre(lambda: H(S, d))
    id0, id1 = L.pre(lambda: S.new(m, 'id_seq')), S.new(m, 'id_seq')
    n0 = L.pre(lambda: n_of(S, d))
    lo = zi(L.comp.lo)
    al, al0 = ip.harr('Pool', '$alive'), L.pre(lambda: ip.harr('Pool', '$alive'))
    out = [('ids are taken one after the other', id1 == id0 + (L.i - lo)),
           ('pools: the kept ones and the new ones', S.forall(['int'], lambda k: has(k) == z3.Or(has0(k), z3.And(k > id0, k <= id1)), pats=lambda k: [has(k)])),
           ('kept pools stay', S.forall(['int'], lambda k: z3.Implies(has0(k), val(k) == val0(k)), pats=lambda k: [val(k)])),
           ('new pools are as prescribed', S.forall(['int'], lambda k: z3.Implies(z3.And(k > id0, k <= id1), new_pool(S, a, L, val(k), k, al, al0)), pats=lambda k: [val(k)])),
           ('number of pools', n_of(S, d) == n0 + (L.i - lo)),
           ('existing pools untouched', S.forall(['Pool'], lambda p: z3.Implies(z3.Select(al0, p.term), z3.And(z3.Select(al, p.term), *[fld(S, p, f) == L.pre(lambda: fld(S, p, f)) for f in FIELDS])), pats=lambda p: [z3.Select(al, p.term)] + [z3.Select(ip.harr('Pool', f), p.term) for f in FIELDS]))]
    return out
def fld(S, p, f):
    x = S.new(p, f)
    return x.term if isinstance(x, Obj) else x
def new_pool(S, a, L, v, k, al, al0):
    ip = S.ip
    p = pool(ip, v)
    dh, dv = H(S, S.new(p, 'delegators'))
    return z3.And(v != null_of('Pool'), z3.Select(al, v), z3.Not(z3.Select(al0, v)), S.new(p, 'id') == k, well_formed(S, a, p, S.new), S.new(p, 'stake') == PV(S, a),
                  S.new(p, 'cost') == costs(S, a, L))
def costs(S, a, L):
    return z3.Const('COST_PER_POOL', R)
def s_cost(ip, env, w):
    """C06.cost: the average cost of a pool (its value is stated there)"""
    return z3.Const('COST_PER_POOL', R)
def ens_move(S, a, r):
    ip = S.ip; m = S.get(a.self, 'model')
    id0, id1 = S.get(m, 'id_seq'), S.new(m, 'id_seq')
    d = S.new(r, 'owned_pools'); has, val = H(S, d)
    has0, val0 = S.old(lambda: H(S, a.owned_pools))
    n0 = S.old(lambda: n_of(S, a.owned_pools))
    P = PV(S, a)
    al0 = ip.alloc0('Pool')
    alloc = S.new(r, 'stake_allocations')
    tot = ip.world.dsum(z3.Select(ip.harr(DR, 'val'), alloc.term))
    def every(k):
        p = pool(ip, val(k))
        old = has0(k)
        return z3.Implies(has(k), z3.And(val(k) != null_of('Pool'), S.new(p, 'id') == k, well_formed(S, a, p, S.new), S.new(p, 'cost') == z3.Const('COST_PER_POOL', R),
                          z3.Implies(old, z3.And(val(k) == val0(k), S.new(p, 'stake') == S.get(p, 'stake') - S.get(p, 'pledge') + P, S.new(p, 'delegators').term == S.get(p, 'delegators').term)),
                          z3.Implies(z3.Not(old), z3.And(z3.Not(al0(val(k))), S.new(p, 'stake') == P, id0 < k, k <= id1))))
    return [('exactly the wanted number of pools', n_of(S, d) == a.num_pools),
            ('kept pools keep their ids', S.forall(['int'], lambda k: z3.Implies(has0(k), has(k)), pats=lambda k: [has(k)])),
            ('ids never seen before for new pools', id1 == id0 + a.num_pools - n0),
            ('every planned pool is as prescribed', S.forall(['int'], every, pats=lambda k: [val(k)])),
            ('pledges and delegations stay within the stake', z3.And(P * zr(a.num_pools) + tot <= S.get(a.self, 'stake'), tot >= 0)),
            ('no other pool changes', S.forall(['Pool'], lambda p: z3.Implies(z3.And(al0(p.term), z3.Not(z3.And(has0(S.get(p, 'id')), val0(S.get(p, 'id')) == p.term))),
                z3.And(*[fld(S, p, f) == (S.get(p, f).term if isinstance(S.get(p, f), Obj) else S.get(p, f)) for f in FIELDS])), pats=lambda p: [z3.Select(ip.harr('Pool', 'stake'), p.term)]))]
MOVE_MODS = [('Model', 'id_seq'), ('Pool', '*'), (DP, '*'), (DR, '*'), ('Strategy', '*')]
def move(key, cls, **kw):
    return Contract(key + cls, PR + cls + '.find_operator_move', {'self': 'agent:' + cls, 'num_pools': 'int', 'owned_pools': DP, 'margins': 'L[real]'}, requires=req_move, ensures=ens_move,
             modifies=MOVE_MODS, loops={'open': LoopInv(ST + 'find_operator_move', 1, inv_open)},
             stubs={('Agent', 'find_delegation_move'): s_rest, ('Agent', 'calculate_margin'): s_margin, ('Agent', 'calculate_cost_per_pool'): s_cost}, callmode='never', **kw)
MOVE = [move('plan.find_operator_move.', c, title='a planned move has exactly the wanted pools, each as prescribed, with fresh ids for new ones, within the stake (%s)' % c) for c in CLS]

# ------------------------------------------------------------------ which pools are kept
def content(S, d):
    """has, val of a dictionary of pools, however it is represented"""
    ip = S.ip
    if isinstance(d, PDict):
        if d.ref is not None: d = d.ref
        elif d.fd is not None: d = d.fd
        elif not d.items: return (lambda k: z3.BoolVal(False)), (lambda k: null_of('Pool'))
        else: raise OutOfSubset('dictionary with fixed entries')
    if isinstance(d, FDict):
        return (lambda k: z3.substitute(d.has, (d.var, k))), (lambda k: subst(d.val, d.var, k).term)
    return H(S, d)
def count_of(S, has):
    ip = S.ip
    v = ip.reg.fresh_bound(z3.IntSort())
    return ip.reg.make('CNT', v, has(v), None)
def best_first(S, p, q):
    """p ranks before q: desirability, potential profit, stake, age"""
    g = lambda o, f: S.get(o, f)
    c = g(p, 'id') <= g(q, 'id')
    for f in ('stake', 'potential_profit', 'desirability'): c = z3.Or(g(p, f) > g(q, f), z3.And(g(p, f) == g(q, f), c))
    return c
def owned(S, a): return S.get(S.get(a.self, 'strategy'), 'owned_pools')
def req_keep(S, a):
    st = S.get(a.self, 'strategy')
    return (req_common(S, a) + [('strategy', st.term != null_of('Strategy')), ('owned pools', owned(S, a).term != null_of(DP))] + owned_ok(S, a, owned(S, a)) + ledgers_ok(S, a, owned(S, a)) + [('num>=1', a.num >= 1)])
def ledgers_ok(S, a, d):
    ip = S.ip
    has, val = H(S, d)
    L = lambda k: S.get(pool(ip, val(k)), 'delegators').term
    return [('the pools have ledgers', S.forall(['int'], lambda k: z3.Implies(has(k), z3.And(L(k) != null_of(DR), ip.alloc0(DR)(L(k)))), pats=lambda k: [val(k)]))]
def ens_keep(S, a, r):
    ip = S.ip
    o = owned(S, a)
    has, val = content(S, r)
    has0, val0 = S.old(lambda: H(S, o))
    n0 = S.old(lambda: n_of(S, o))
    al0 = ip.alloc0('Pool')
    P = lambda t: pool(ip, t)
    def copy(k):
        p, q = P(val(k)), P(val0(k))
        d1, d0 = S.new(p, 'delegators'), S.get(q, 'delegators')
        h1, v1 = H(S, d1); h0, v0 = S.old(lambda: H(S, d0))
        return z3.Implies(has(k), z3.And(has0(k), p.term != null_of('Pool'), z3.Not(al0(p.term)), *[fld(S, p, f) == fld0(S, q, f) for f in FIELDS if f != 'delegators'],
                          d1.term != d0.term, z3.Not(ip.alloc0(DR)(d1.term))))
    return [('every kept pool is a copy of an own pool', S.forall(['int'], copy, pats=lambda k: [val(k), has(k)])),
            ('number of kept pools', count_of(S, has) == z3.If(a.num < n0, a.num, n0)),
            ('the best pools are kept', S.forall(['int', 'int'], lambda j, k: z3.Implies(z3.And(has(k), has0(j), z3.Not(has(j))), best_first(S, P(val0(k)), P(val0(j)))), pats=lambda j, k: [[val0(j), val0(k)]])),
            ('the actual pools stay as they are', S.forall(['Pool'], lambda p: z3.Implies(al0(p.term), z3.And(*[fld(S, p, f) == fld0(S, p, f) for f in FIELDS])), pats=lambda p: [z3.Select(ip.harr('Pool', 'stake'), p.term)]))]
def fld0(S, p, f):
    x = S.get(p, f)
    return x.term if isinstance(x, Obj) else x
KEEP = [Contract('C27.determine_pools_to_keep.' + c, PR + c + '.determine_pools_to_keep', {'self': 'agent:' + c, 'num': 'int'}, requires=req_keep, ensures=ens_keep, modifies=[('Pool', '*'), (DP, '*'), (DR, '*')],
                callmode='never', title='planning starts from copies of the best pools the operator already runs (%s)' % c) for c in CLS]
C27 = list(MOVE) + KEEP
def cfg(w): pass
CONFIG = {'C27': cfg}

# ------------------------------------------------------------------ the search for the number of pools
from pyver.spec import Lemma
I = z3.IntSort()
LR = 'L[real]'
UTIL = z3.Function('UTILITY_OF_RUNNING', I, R)
MARG = z3.Function('MARGINS_FOR', I, fam_sort(LR))
KEPT = z3.Function('POOLS_KEPT_FOR', I, fam_sort(DP))
STRAT = z3.Function('STRATEGY_WITH', I, fam_sort('Strategy'))
NUM = z3.Function('NUMBER_OF_POOLS_OF', fam_sort('Strategy'), I)
EXPU = z3.Function('EXPECTED_UTILITY', fam_sort('Strategy'), R)
def vals_(env): return list(env.values())
def kk(ip, s): return ip.getfield(ip.getfield(ip.getfield(s, 'model'), 'reward_scheme'), '_k')
def s_margins(ip, env, w):
    """a function of the number of pools while the system stands still (no effect: C21/frame)"""
    s, t = vals_(env)[:2]; t = zi(t)
    ip.oblige('estimates are made for at least one and at most k pools', z3.And(t >= 1, t <= kk(ip, s)))
    return (Obj(LR, MARG(t), None, True), UTIL(t))
def s_keep(ip, env, w):
    t = zi(vals_(env)[1])
    return Obj(DP, KEPT(t), None, True)
def s_build(ip, env, w):
    s, t, d, mg = vals_(env)[:4]; t = zi(t)
    ip.oblige('the strategy is built from the pools kept for that number', d.term == KEPT(t) if isinstance(d, Obj) else z3.BoolVal(False))
    ip.oblige('the strategy is built with the margins calculated for that number', mg.term == MARG(t) if isinstance(mg, Obj) else z3.BoolVal(False))
    ip.assume(z3.And(STRAT(t) != null_of('Strategy'), NUM(STRAT(t)) == t, ip.alloc0('Strategy')(STRAT(t))))
    return Obj('Strategy', STRAT(t), ip.world.exact_class('Strategy'), True)
def s_expu(ip, env, w): return EXPU(vals_(env)[1].term)
def k_(S, a): return S.get(S.get(S.get(a.self, 'model'), 'reward_scheme'), '_k')
def peak(t, k): return z3.And(t >= 1, t <= k, z3.Implies(t > 1, UTIL(t - 1) <= UTIL(t)), z3.Implies(t < k, UTIL(t + 1) <= UTIL(t)))
def inv_search(S, a, L):
    lo, hi, done = zi(L.var('t_min')), zi(L.var('t_max')), zb(L.var('solution_found'))
    k = k_(S, a)
    bt, t = L.maybe('t', 'int'); bm, mg = L.maybe('margins_t', LR)
    return [('bounds', z3.And(1 <= lo, lo <= hi, hi <= k)),
            ('fewer pools than the lower bound are worse', z3.Implies(lo > 1, UTIL(lo - 1) <= UTIL(lo))), ('more pools than the upper bound are worse', z3.Implies(hi < k, UTIL(hi + 1) <= UTIL(hi))),
            ('what was found is a local best', z3.Implies(done, z3.And(bt, bm, peak(zi(t), k), mg.term == MARG(zi(t)))))]
def dec_search(S, a, L): return (zi(L.var('t_max')) - zi(L.var('t_min')), z3.If(zb(L.var('solution_found')), 0, 1))
def req_search(S, a):
    m = S.get(a.self, 'model')
    return [('model', m.term != null_of('Model')), ('scheme', S.get(m, 'reward_scheme').term != null_of('Rss')), ('k>=1', k_(S, a) >= 1)]
def ens_search(S, a, r):
    u, s = r
    if not isinstance(s, Obj): return [('a strategy is found', z3.BoolVal(False))]
    t = NUM(s.term)
    return [('a strategy with a number of pools that is a local best', z3.And(s.term == STRAT(t), peak(t, k_(S, a)))),
            ('with its expected utility', zr(u) == EXPU(s.term))]
def single_peak(S, k, p):
    rng = lambda i: z3.And(i >= 1, i <= k)
    return z3.And(rng(p), S.forall(['int', 'int'], lambda i, j: z3.Implies(z3.And(rng(i), rng(j), i < j), z3.And(z3.Implies(j <= p, UTIL(i) < UTIL(j)), z3.Implies(p <= i, UTIL(i) > UTIL(j)))), pats=lambda i, j: [[UTIL(i), UTIL(j)]]))
SEARCH = [Contract('C27.search.' + c, PR + c + '.choose_pool_strategy', {'self': 'agent:' + c}, requires=req_search, ensures=ens_search, callmode='never',
                   stubs={('Agent', 'calculate_margins_and_utility'): s_margins, ('Agent', 'determine_pools_to_keep'): s_keep, ('Agent', 'find_operator_move'): s_build, ('Agent', 'calculate_expected_utility'): s_expu},
                   loops={'search': LoopInv(ST + 'choose_pool_strategy', 0, inv_search, kind='while', decreases=dec_search, types={'t': 'int', 'margins_t': LR})},
                   title='the search ends with a locally best number of pools between 1 and k (%s)' % c) for c in CLS] + \
         [Lemma('C27.single_peak', {'k': 'int', 't': 'int', 'p': 'int', 'j': 'int'}, requires=lambda S, a: [('local best', peak(a.t, a.k)), ('single peak', single_peak(S, a.k, a.p)), ('j', z3.And(a.j >= 1, a.j <= a.k))],
                ensures=lambda S, a: [('global best', UTIL(a.t) >= UTIL(a.j))], title='with a single peak the local best is the best of all numbers')]
