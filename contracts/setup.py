"""C13: the initial stakes."""
import z3
from pyver.spec import Contract
from pyver.vals import *
from pyver.aggs import linear
SIM = 'logic.sim:Simulation.'
DA = 'D[int,Agent]'
def agents(S, m): return S.new(S.new(m, 'schedule'), '_agents')
def agents_ok(S, m):
    ip = S.ip
    d = agents(S, m)
    has, val, K, V = ip.dget(d)
    return [('schedule', S.new(m, 'schedule').term != null_of('Sched')), ('agents', d.term != null_of(DA)),
            ('agents are filed under their ids', S.forall(['int'], lambda k: z3.Implies(z3.Select(has, k), z3.And(z3.Select(val, k) != null_of('Agent'), ip.alloc0('Agent')(z3.Select(val, k)),
                S.new(Obj('Agent', z3.Select(val, k), None, True), 'unique_id') == k)), pats=lambda k: [z3.Select(val, k)]))]
def stake_sum(S, m):
    ip = S.ip
    has, val, K, V = ip.dget(agents(S, m))
    k = ip.reg.fresh_bound(z3.IntSort())
    return ip.reg.make('SUM', k, z3.Select(has, k), S.new(Obj('Agent', z3.Select(val, k), None, True), 'stake'))
def req_norm(S, a):
    return agents_ok(S, a.self) + [('total>0', a.total_stake > 0), ('0<=f<1', z3.And(a.inactive_stake_fraction >= 0, a.inactive_stake_fraction < 1)),
                                   ('total is the stake of all agents and the inactive stake', stake_sum(S, a.self) == a.total_stake * (1 - a.inactive_stake_fraction))]
def ens_norm(S, a, r):
    ip = S.ip
    has, val, K, V = ip.dget(agents(S, a.self))
    def prop(k):
        g = Obj('Agent', z3.Select(val, k), None, True)
        return z3.Implies(z3.Select(has, k), S.new(g, 'stake') * a.total_stake == S.get(g, 'stake'))
    linear(ip, stake_sum(S, a.self), [(1 / a.total_stake, S.old(lambda: stake_sum(S, a.self)))])
    return [('the total stake is reported as 1', zr(r) == 1), ('agents and inactive stake sum up to 1', stake_sum(S, a.self) + a.inactive_stake_fraction == 1),
            ('stakes stay proportional', S.forall(['int'], prop, pats=lambda k: [z3.Select(val, k)]))]
C13 = [Contract('C13.normalize', SIM + 'normalize_agent_stake', {'self': 'Model', 'total_stake': 'real', 'inactive_stake_fraction': 'real'}, requires=req_norm, ensures=ens_norm, modifies=[('Agent', 'stake')],
                callmode='never', title='normalised stakes are proportional and sum up to 1 with the inactive stake')]
# ------------------------------------------------------------------ distributions
H = 'logic.helper:'
LR = 'L[real]'
def c_rng(ip, a, kw, w):
    """numpy.random.default_rng: a generator determined by the seed"""
    return Opq('rng', [kw.get('seed', a[0] if a else None)])
def o_uniform(ip, o, a, kw, w):
    """Generator.uniform: `size` numbers between low and high"""
    names = ('low', 'high', 'size')
    d = dict(zip(names, a)); d.update(kw)
    lo, hi, n = zr(d['low']), zr(d['high']), zi(d['size'])
    ip.oblige('uniform is asked for a proper range', lo <= hi)
    ip.require(n >= 0, 'ValueError', w)
    l = ip.alloc(LR)
    arr = ip.fresh('sample', z3.ArraySort(z3.IntSort(), z3.RealSort()))
    i = z3.Int(ip.fresh_name('i'))
    ip.assume(z3.ForAll([i], z3.And(z3.Select(arr, i) >= lo, z3.Select(arr, i) <= hi), patterns=[z3.Select(arr, i)]))
    for f, x in (('at', arr), ('len', n), ('off', z3.IntVal(0))): ip.heap[(LR, f)] = z3.Store(ip.harr(LR, f), l.term, x)
    return l
def as_list(S, r):
    """length, element i (None: cannot tell)"""
    ip = S.ip
    if isinstance(r, Obj) and r.fam == LR:
        at, off = z3.Select(ip.harr(LR, 'at'), r.term), z3.Select(ip.harr(LR, 'off'), r.term)
        return ip.getfield(r, 'len'), (lambda i: z3.Select(at, off + i)), [(None, lambda i: z3.Select(at, off + i))]
    raise OutOfSubset('list expected, got %r' % (r,))
def ens_cost(S, a, r):
    n, at, _ = as_list(S, r)
    return [('one cost per agent', n == a.num_agents), ('every cost is between the minimum and the maximum', S.forall(['int'], lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(at(i) >= a.low, at(i) <= a.high)), pats=lambda i: [at(i)]))]
def total(S, r): return zr(S.ip.world.ext.call(S.ip, 'builtins.sum', [r], {}, 'specification'))
def count(S, r): return zi(S.ip.world.ext.length(S.ip, r))
def each(S, r, prop):
    """prop(e) for every element of a list value"""
    ip = S.ip
    k, s = ip.iterate(r)
    if k == 'concrete': return z3.And(*[prop(zr(x)) for x in s]) if s else z3.BoolVal(True)
    out = []
    for c in s: out.append(z3.ForAll([c.var], z3.Implies(c.guard, prop(zr(c.elem)))) if True else None)
    return z3.And(*out)
C13 += [Contract('C13.costs', H + 'generate_cost_distr_unfrm', {'num_agents': 'int', 'low': 'real', 'high': 'real', 'seed': 'int'}, requires=lambda S, a: [('n>=0', a.num_agents >= 0)],
                 raises={'ValueError': lambda S, a: a.high < a.low}, ensures=ens_cost, callmode='never', title="every agent's cost lies between the minimum and the maximum"),
        Contract('C13.flat', H + 'generate_stake_distr_flat', {'num_agents': 'int'}, requires=lambda S, a: [('n>=1', a.num_agents >= 1)],
                 ensures=lambda S, a, r: [('one stake per agent', count(S, r) == a.num_agents), ('all equal', each(S, r, lambda x: x * zr(a.num_agents) == 1)), ('in total 1', total(S, r) == 1)], callmode='never', title='the flat distribution gives every agent the same stake'),
        Contract('C13.disparity', H + 'generate_stake_distr_disparity', {'n': 'int'}, requires=lambda S, a: [('n>3', a.n > 3)],
                 ensures=lambda S, a, r: [('one stake per agent', count(S, r) == a.n), ('positive', each(S, r, lambda x: x > 0)), (('in total 1', total(S, r) == 1))], callmode='never', title='the disparity distribution gives every agent a positive stake')]
def cfg(w):
    w.ext_calls['numpy.random.default_rng'] = c_rng
    w.opq_methods['uniform'] = o_uniform
CONFIG = {'C13': cfg}
# ------------------------------------------------------------------ the population
from pyver.loops import LoopInv
DISTR, COSTS = (z3.Const(n, z3.ArraySort(z3.IntSort(), z3.RealSort())) for n in ('STAKES_DRAWN', 'COSTS_DRAWN'))
def seq(ip, arr, n, T='real'):
    t = 'L[%s]' % T
    l = ip.alloc(t)
    for f, x in (('at', arr), ('len', n), ('off', z3.IntVal(0))): ip.heap[(t, f)] = z3.Store(ip.harr(t, f), l.term, x)
    return l
def s_stakes(kind):
    def st(ip, env, w):
        """the sampled distribution: one stake per agent (library / file; C13.flat, C13.disparity)"""
        n = zi(list(env.values())[0])
        ip.oblige('the stake distribution is asked for all agents', n == ip.getfield(ip.ghost['model'], 'n'))
        if kind == 'pareto': ip.oblige('the distribution gets the parameter and the seed of the run', z3.And(zr(env['pareto_param']) == ip.ghost['args'].pareto_param, zi(env['seed']) == ip.ghost['args'].seed))
        return seq(ip, DISTR, n)
    return st
def s_costs(ip, env, w):
    """C13.costs"""
    n = zi(env['num_agents'])
    a = ip.ghost['args']
    ip.oblige('costs are asked for all agents, within the given limits', z3.And(n == ip.getfield(ip.ghost['model'], 'n'), zr(env['low']) == a.cost_min, zr(env['high']) == a.cost_max))
    i = z3.Int(ip.fresh_name('i'))
    ip.assume(z3.ForAll([i], z3.And(z3.Select(COSTS, i) >= a.cost_min, z3.Select(COSTS, i) <= a.cost_max), patterns=[z3.Select(COSTS, i)]))
    return seq(ip, COSTS, n)
def o_choices(ip, o, a, kw, w):
    """random.choices: k elements of the population"""
    k, pop = ip.iterate(a[0])
    if k != 'concrete' or not all(isinstance(x, int) for x in pop): raise OutOfSubset('population of random.choices')
    n = zi(kw.get('k', 1))
    arr = ip.fresh('chosen', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    i = z3.Int(ip.fresh_name('i'))
    ip.assume(z3.ForAll([i], z3.Or(*[z3.Select(arr, i) == x for x in pop]), patterns=[z3.Select(arr, i)]))
    return seq(ip, arr, n, 'int')
def inv_pop(S, a, L):
    ip = S.ip; m = a.self
    d = agents(S, m)
    has, val, K, V = ip.dget(d)
    g = lambda k: Obj('Agent', z3.Select(val, k), None, True)
    al = ip.harr('Agent', '$alive')
    return [('the first agents are there', S.forall(['int'], lambda k: z3.Select(has, k) == z3.And(k >= 0, k < L.i), pats=lambda k: [z3.Select(has, k)])),
            ('each with its id, stake and cost', S.forall(['int'], lambda k: z3.Implies(z3.Select(has, k), z3.And(z3.Select(val, k) != null_of('Agent'), z3.Select(al, z3.Select(val, k)), S.new(g(k), 'unique_id') == k,
                S.new(g(k), 'stake') == z3.Select(DISTR, k), S.new(g(k), 'cost') == z3.Select(COSTS, k), S.new(g(k), 'model').term == m.term)), pats=lambda k: [z3.Select(val, k)])),
            ('same schedule', z3.And(S.new(m, 'schedule').term == S.get(m, 'schedule').term, d.term == S.get(S.get(m, 'schedule'), '_agents').term))]
def req_pop(S, a):
    m = a.self; ip = S.ip
    d = agents(S, m)
    has, val, K, V = ip.dget(d)
    return [('schedule', S.new(m, 'schedule').term != null_of('Sched')), ('agents', d.term != null_of(DA)), ('no agents yet', S.forall(['int'], lambda k: z3.Not(z3.Select(has, k)), pats=lambda k: [z3.Select(has, k)])),
            ('n>=1', S.new(m, 'n') >= 1), ('cost_min<=cost_max', a.cost_min <= a.cost_max)]
def ens_pop(S, a, r):
    ip = S.ip; m = a.self
    has, val, K, V = ip.dget(agents(S, m))
    n = S.get(m, 'n')
    g = lambda k: Obj('Agent', z3.Select(val, k), None, True)
    k = ip.reg.fresh_bound(z3.IntSort())
    return [('exactly the agents 0 to n-1', S.forall(['int'], lambda k: z3.Select(has, k) == z3.And(k >= 0, k < n), pats=lambda k: [z3.Select(has, k)])),
            ('each with its id, the stake drawn for it and a cost within the limits', S.forall(['int'], lambda k: z3.Implies(z3.Select(has, k), z3.And(S.new(g(k), 'unique_id') == k, S.new(g(k), 'stake') == z3.Select(DISTR, k),
                S.new(g(k), 'cost') >= a.cost_min, S.new(g(k), 'cost') <= a.cost_max)), pats=lambda k: [z3.Select(val, k)])),
            ('the total stake is that of all agents', zr(r) == ip.reg.make('SUM', k, z3.And(k >= 0, k < n), z3.Select(DISTR, k)))]
SOURCES = {'pareto': 'generate_stake_distr_pareto', 'flat': 'generate_stake_distr_flat', 'file': 'read_stake_distr_from_file', 'disparity': 'generate_stake_distr_disparity'}
def setup_pop(ip, S, a): ip.ghost['model'] = a.self; ip.ghost['args'] = a
C13 += [Contract('C13.population.' + src, SIM + 'initialize_agents', {'self': 'Model', 'agent_profile_distr': 'opaque', 'cost_min': 'real', 'cost_max': 'real', 'pareto_param': 'real', 'stake_distr_source': ('const', src), 'seed': 'int'},
                 requires=req_pop, ensures=ens_pop, setup=setup_pop, callmode='never', modifies=[(DA, '*'), ('Agent', '*'), ('Strategy', '*'), (LR, '*'), ('L[int]', '*'), ('D[int,Pool]', '*'), ('D[int,real]', '*')],
                 loops={'fill': LoopInv(SIM + 'initialize_agents', 0, inv_pop)},
                 stubs={H + SOURCES[src]: s_stakes(src), H + 'generate_cost_distr_unfrm': s_costs}, title='n agents with ids 0 to n-1, the stakes drawn (%s) and costs within the limits' % src) for src in SOURCES]
def cfg(w):
    w.ext_calls['numpy.random.default_rng'] = c_rng
    w.opq_methods['uniform'] = o_uniform
    w.opq_methods['choices'] = o_choices
CONFIG = {'C13': cfg}
SEEDED = [c for c in C13 if 'population' in c.key]
CONFIG['SEEDED'] = cfg
