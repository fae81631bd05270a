"""C15: what a phase change does.  The schedule holds a list of values (possibly none) for each of the parameters that can
vary; the loop over them is decided for an arbitrary position, parameter by parameter."""
import z3
from pyver.spec import Contract
from pyver.loops import LoopInv
from pyver.vals import *
from . import rankings
from .rankings import *
from .scalar import v_pp, _X
SI = 'logic.sim:Simulation.'
KINDS = {'n': 'int', 'k': 'int', 'a0': 'real', 'relative_utility_threshold': 'real', 'absolute_utility_threshold': 'real', 'max_iterations': 'int', 'extra_pool_cost_fraction': 'real',
         'agent_activation_order': 'opaque', 'generate_graphs': 'bool'}
CARD = z3.Function('MEMBERS', z3.ArraySort(PO, B), I)
def fields(name): return ('Rss', {'k': '_k'}.get(name, name)) if name in ('k', 'a0') else ('Model', name)
class Ph:
    def __init__(self, S, a):
        self.S, self.a, ip = S, a, S.ip
        self.m = a.self
        old = S.old if S.oldheap is not None else (lambda t: t())
        self.rs = S.get(a.self, 'reward_scheme')
        self.phase = S.get(a.self, 'current_phase') + 1
        self.inactive = S.get(a.self, 'known_inactive_stake_fraction')
        self.lists = {n: getattr(a, n) for n in KINDS}
        self.s0 = old(lambda: Snap(S, a.self))
    def scheduled(self, n): return self.S.ip.world.ext.len(self.S.ip, self.lists[n]) > self.phase if False else z3.Select(self.S.ip.harr0('L[%s]' % KINDS[n], 'len'), self.lists[n].term) > self.phase
    def value(self, n):
        h = lambda f: z3.Select(self.S.ip.harr0('L[%s]' % KINDS[n], f), self.lists[n].term)
        return z3.Select(h('at'), h('off') + self.phase)
    def obj(self, n): return self.rs.term if fields(n)[0] == 'Rss' else self.m.term
    def k_real(self): return z3.ToReal(self.value('k')) / (1 - self.inactive)
def trunc(x): return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
def after(c, n):
    """the value that the parameter has in the new phase"""
    return trunc(c.k_real()) if n == 'k' else c.value(n)
def arr(c, k): return c.S.ip.harr(*k)
def params_at(c, pre, upto):
    """parameters before position `upto` of the schedule have their new value if they have one, all others their old value"""
    out = []
    for i, n in enumerate(KINDS):
        k = fields(n)
        new = z3.Select(arr(c, k), c.obj(n)); old = z3.Select(pre[k], c.obj(n))
        done = And(i < upto, c.scheduled(n))
        out.append(('%s is set if the phase has a value for it, and left alone otherwise' % n, And(new == z3.If(done, after(c, n), old), arr(c, k) == z3.Store(pre[k], c.obj(n), new))))
        if n == 'k':
            g = ('Rss', 'global_saturation_threshold')
            new = z3.Select(arr(c, g), c.rs.term); old = z3.Select(pre[g], c.rs.term)
            out.append(('the saturation threshold follows k', And(new == z3.If(done, 1 / c.k_real(), old), arr(c, g) == z3.Store(pre[g], c.rs.term, new))))
    return out
PKEYS = [fields(n) for n in KINDS] + [('Rss', 'global_saturation_threshold')]
def snap_params(S): return {k: S.ip.harr(*k) for k in PKEYS}
def none_of(S, l): return z3.Select(S.ip.harr('SL', 'none'), l)
def lists_of(S, m): return S.new(m, 'pool_rankings').term, S.new(m, 'pool_rankings_myopic').term
def ids_ok(S, s): return [('pools are filed under their ids', S.forall(['int'], lambda k: Imp(s.filed(k), And(s.P(k) != NULL['Pool'], s.aliveP(s.P(k)), s.f('Pool', 'id', s.P(k)) == k)), pats=lambda k: [s.P(k)]))]
def req(S, a):
    c = Ph(S, a)
    rk = S.old(lambda: ranks_ok(S, a.self, c.s0)) if S.oldheap is not None else ranks_ok(S, a.self, c.s0)
    nn = S.old(lambda: [none_of(S, l) for l in lists_of(S, a.self)]) if S.oldheap is not None else [none_of(S, l) for l in lists_of(S, a.self)]
    s = c.s0
    return [('scheme', c.rs.term != null_of('Rss')), ('schedule', S.get(a.self, 'schedule').term != null_of('Sched')), ('registry', s.pools != NULL[DP]), ('phase', S.get(a.self, 'current_phase') >= 0), ('inactive fraction', And(c.inactive >= 0, c.inactive < 1)),
            ('parameters in their domains (C13)', And(z3.Select(S.ip.harr0('Rss', '_k'), c.rs.term) >= 1, z3.Select(S.ip.harr0('Rss', 'global_saturation_threshold'), c.rs.term) > 0, z3.Select(S.ip.harr0('Rss', 'a0'), c.rs.term) >= 0)),
            ('scheduled values in their domains (C13)', And(Imp(c.scheduled('k'), c.value('k') >= 1), Imp(c.scheduled('a0'), c.value('a0') >= 0))),
            ('pledges and costs', S.forall(['int'], lambda k: Imp(s.filed(k), And(s.f('Pool', 'pledge', s.P(k)) >= 0, z3.Select(S.ip.harr0('Pool', 'cost'), s.P(k)) >= 0)), pats=lambda k: [s.P(k)])),
            ('both rankings have the same number of placeholders', And(nn[0] == nn[1], nn[0] >= 0))] + ids_ok(S, s) + rk
def loop_out(S, a, L):
    c = Ph(S, a); s = c.s0
    r, r0 = Rk(S, a.self), L.pre(lambda: Rk(S, a.self))
    pid = lambda p: s.f('Pool', 'id', p)
    return [('pools leave both rankings one by one', S.forall(['Pool'], lambda p: And(*[r.mem(l, p.term) == And(r0.mem(l, p.term), Not(sel(L.seen, pid(p.term)))) for l in (r.main, r.myo)]), pats=lambda p: [r.mem(r.main, p.term), r.mem(r.myo, p.term)]))]
def loop_set(S, a, L):
    c = Ph(S, a)
    pre = L.pre(lambda: snap_params(S))
    flag = [n for n in L.names if n in L.pre_env and L.pre_env[n] is False]
    if len(flag) != 1: raise OutOfSubset('which variable says that a parameter was set')
    now = zb(L.env[flag[0]])
    return params_at(c, pre, L.i) + [('whether a parameter was set', now == Or(*[And(i < L.i, c.scheduled(n)) for i, n in enumerate(KINDS)]))]
def priced(S, c, p, f=None):
    g = f or (lambda x: S.new(Obj('Pool', p, S.ip.world.exact_class('Pool'), True), x))
    pp = v_pp(S, _X(reward_scheme=c.rs, pledge=g('pledge'), cost=g('cost')))
    return And(g('potential_profit') == pp, g('desirability') == S.mx((1 - g('_margin')) * g('potential_profit'), S.real(0)))
def loop_in(S, a, L):
    c = Ph(S, a); s = c.s0
    r, r0 = Rk(S, a.self), L.pre(lambda: Rk(S, a.self))
    pid = lambda p: s.f('Pool', 'id', p)
    seen = lambda p: And(s.filed(pid(p)), s.P(pid(p)) == p, sel(L.seen, pid(p)))
    return [('pools enter both rankings one by one', S.forall(['Pool'], lambda p: And(*[And(r.mem(l, p.term) == seen(p.term), Imp(seen(p.term), r.filed_as(l, p.term))) for l in (r.main, r.myo)]), pats=lambda p: [r.mem(r.main, p.term), r.mem(r.myo, p.term)])),
            ('pools are re-priced one by one', S.forall(['int'], lambda k: Imp(And(s.filed(k), sel(L.seen, k)), priced(S, c, s.P(k))), pats=lambda k: [s.P(k)]))]
def ens(S, a, r):
    c = Ph(S, a); s = c.s0
    pre = S.old(lambda: snap_params(S))
    any_ = Or(*[c.scheduled(n) for n in KINDS])
    pv = S.get(a.self, 'pivot_steps').term
    g = lambda f: z3.Select(S.ip.harr('L[int]', f), pv)
    g0 = lambda f: z3.Select(S.ip.harr0('L[int]', f), pv)
    lm, ly = lists_of(S, a.self)
    none0 = S.old(lambda: none_of(S, lm))
    k = z3.Select(S.ip.harr('Rss', '_k'), c.rs.term)
    out = [('the next phase', S.new(a.self, 'current_phase') == c.phase)] + params_at(c, pre, len(KINDS))
    out += [('the round is recorded if a parameter was set, and only then', z3.If(any_, And(g('len') == g0('len') + 1, g('off') == g0('off'), g('at') == z3.Store(g0('at'), g0('off') + g0('len'), S.get(S.get(a.self, 'schedule'), 'steps'))), And(g('len') == g0('len'), g('off') == g0('off'), g('at') == g0('at')))),
            ('the registry stays', And(S.new(a.self, 'pools').term == s.pools, *[S.ip.harr(DP, f) == s.a[(DP, f)] for f in ('has', 'val')])),
            ('every pool is re-priced', S.forall(['int'], lambda i: Imp(s.filed(i), priced(S, c, s.P(i))), pats=lambda i: [s.P(i)])),
            ('enough placeholders for the new k, none lost', And(*[And(none_of(S, l) >= k + 1, none_of(S, l) >= none0, none_of(S, l) == none_of(S, lm)) for l in (lm, ly)]))]
    return out + ranks_ok(S, a.self, Snap(S, a.self))
CP = SI + 'change_phase'
def driver(ip, f, a):
    from pyver.spec import A
    return ip.call_func(f, [a.self], {})
def begin15(ip, S, a):
    sum_of_nothing(ip, S, a)
    ip.ghost['model'] = a.self
    d = PDict(); d.items = {n: getattr(a, n) for n in KINDS}
    ip.ghost['the phase schedule'] = d
    for n in KINDS: ip.assume(z3.Select(ip.harr0('L[%s]' % KINDS[n], 'len'), getattr(a, n).term) >= 0)
    pv = S.get(a.self, 'pivot_steps')
    ip.assume(And(*[getattr(a, n).term != pv.term for n in KINDS if KINDS[n] == 'int'], pv.term != null_of('L[int]')))
C15 = [Contract('C15.change_phase', CP, dict([('self', 'Model')] + [(n, 'L[%s]' % t) for n, t in KINDS.items()]), requires=req, ensures=ens, setup=begin15, driver=driver, callmode='never',
                modifies=[('Model', '*'), ('Rss', '*'), ('Pool', 'potential_profit'), ('Pool', 'desirability'), ('SL', '*'), ('L[int]', '*')],
                loops={'out': LoopInv(CP, 0, loop_out), 'set': LoopInv(CP, 1, loop_set, unrolled=True), 'in': LoopInv(CP, 2, loop_in)},
                title='a phase change applies exactly the scheduled parameters and re-prices all pools')]
def sl_len(ip, o):
    m = sel(ip.harr('SL', 'mem'), o.term)
    p = z3.Const(ip.fresh_name('pool'), PO)
    ip.assume(CARD(m) >= 0)
    w = ip.fresh('a_member', PO)
    ip.assume(Or(CARD(m) == 0, sel(m, w)))      # a container without members has no length of its own
    return sel(ip.harr('SL', 'none'), o.term) + CARD(m)
def sl_update(ip, o, a, kw, where):
    if kw or len(a) != 1: raise OutOfSubset('update of a ranking at ' + where)
    kind, seq = ip.iterate(a[0])
    n = 0
    if kind == 'concrete':
        if any(x is not None for x in seq): raise OutOfSubset('update of a ranking with pools at ' + where)
        n = len(seq)
    else:
        for c in seq:
            if c.elem is not None or c.hi is None or not ip.valid(Imp(And(c.var >= zi(c.lo), c.var < zi(c.hi)), c.guard)): raise OutOfSubset('update of a ranking with %r, %s..%s if %s at %s' % (c.elem, c.lo, c.hi, c.guard, where))
            n = n + z3.If(zi(c.hi) > zi(c.lo), zi(c.hi) - zi(c.lo), 0)
    ip.heap[('SL', 'none')] = z3.Store(ip.harr('SL', 'none'), o.term, sel(ip.harr('SL', 'none'), o.term) + n)
def cfg(w):
    rankings.cfg(w)
    w.schema['SL']['none'] = 'int'
    w.obj_methods[('SL', 'len')] = sl_len
    w.obj_methods[('SL', 'update')] = sl_update
    w.base_attrs[('Model', 'multi_phase_params')] = lambda ip, o: ip.ghost['the phase schedule']
CONFIG = {'C15': cfg}
