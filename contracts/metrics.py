"""C17, C19: every reported metric equals its documented definition, on every state of the system."""
import ast
import z3
from pyver.spec import Contract
from pyver.vals import *
from .setup import agents_ok
from .scalar import v_pp, _X
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
DP = 'D[int,Pool]'
MR = 'logic.model_reporters:'
NAMES = {1: "Pool count", 2: "Total pledge", 3: "Mean pledge", 4: "Median pledge", 5: "Average pools per operator", 6: "Max pools per operator", 7: "Median pools per operator",
         8: "Average saturation rate", 9: "Nakamoto coefficient", 10: "Statistical distance", 12: "Pledge rate", 13: "Pool homogeneity factor", 14: "Iterations",
         15: "Mean stake rank", 16: "Mean cost rank", 17: "Median stake rank", 18: "Median cost rank", 19: "Number of pool splitters", 20: "Cost efficient stakeholders", 21: "StakePairs",
         22: "Gini-id", 23: "Gini-id stake", 24: "Mean margin", 25: "Median margin", 26: "Stake per agent", 27: "Stake per agent id", 28: "Total delegated stake", 29: "Total agent stake", 30: "Operator count",
         'k22': "Gini-id (k)", 'k23': "Gini-id stake (k)"}
class St:
    """the state of the system, seen by the documented definitions"""
    def __init__(self, S, m):
        self.S, self.ip, self.m = S, S.ip, m
        self.d = S.new(m, 'pools')
        self.has, self.val, _, _ = self.ip.dget(self.d)
        self.ad = S.new(S.new(m, 'schedule'), '_agents')
        self.ahas, self.aval, _, _ = self.ip.dget(self.ad)
    def pool(self, k): return Obj('Pool', z3.Select(self.val, k), self.ip.world.exact_class('Pool'), True)
    def agent(self, k): return Obj('Agent', z3.Select(self.aval, k), None, True)
    def over_pools(self, kind, f=None, extra=None):
        k = self.ip.reg.fresh_bound(I)
        g = z3.Select(self.has, k)
        p = self.pool(k)
        if extra is not None: g = z3.And(g, extra(p))
        e = f(p) if f is not None else None
        return self.ip.reg.make(kind, k, g, e, ())
    def over_agents(self, kind, f=None, extra=None):
        k = self.ip.reg.fresh_bound(I)
        g = z3.Select(self.ahas, k)
        a = self.agent(k)
        if extra is not None: g = z3.And(g, extra(k, a))
        return self.ip.reg.make(kind, k, g, f(k, a) if f is not None else None, ())
    def get(self, f): return lambda p: self.S.new(p, f)
    def n(self): return self.over_pools('CNT')
    def sum(self, f): return self.over_pools('SUM', self.get(f))
    def owned(self, a): return self.over_pools('CNT', None, lambda p: self.S.new(p, 'owner') == a)
    def controlled(self, a): return self.over_pools('SUM', self.get('stake'), lambda p: self.S.new(p, 'owner') == a)
    def operators(self): return self.over_pools('CARD', self.get('owner'))
    def per_operator(self, kind, f, res=None):
        a = self.ip.reg.fresh_bound(I)
        return self.ip.reg.make(kind, a, self.owned(a) > 0, f(a), (), res)
    def orzero(self, x): return z3.If(self.n() > 0, zr(x()), z3.RealVal(0))
def d3(s, f): return s.orzero(lambda: s.sum(f) / zr(s.n()))
def d4(s, f): return s.orzero(lambda: s.over_pools('MEDIAN', s.get(f)))
def thr(s, p): return s.S.rss_threshold(s.S.new(s.m, 'reward_scheme'), s.S.new(p, 'pledge'))
def num(S, r):
    if not is_num(r): raise OutOfSubset('a number is expected, got %r' % (r,))
    return zr(r)
DEF = {1: lambda s: s.n(), 2: lambda s: s.sum('pledge'), 3: lambda s: d3(s, 'pledge'), 4: lambda s: d4(s, 'pledge'),
       5: lambda s: s.orzero(lambda: zr(s.n()) / zr(s.operators())),
       6: lambda s: s.orzero(lambda: s.per_operator('MAX', s.owned, I)),
       7: lambda s: s.orzero(lambda: s.per_operator('MEDIAN', lambda a: zr(s.owned(a)))),
       8: lambda s: s.orzero(lambda: s.over_pools('SUM', lambda p: s.S.new(p, 'stake') / thr(s, p)) / zr(s.n())),
       10: lambda s: s.orzero(lambda: s.over_agents('SUM', lambda k, a: s.S.abs_(s.controlled(k) - s.S.new(a, 'stake'))) / 2),
       12: lambda s: s.orzero(lambda: s.sum('pledge') / s.sum('stake')),
       13: lambda s: s.orzero(lambda: s.sum('stake') / (zr(s.n()) * s.over_pools('MAX', s.get('stake')))),
       14: lambda s: s.S.new(s.S.new(s.m, 'schedule'), 'steps'),
       19: lambda s: splitters(s),
       20: lambda s: s.over_agents('CNT', None, lambda k, a: v_pp(s.S, _X(reward_scheme=s.S.new(s.m, 'reward_scheme'), pledge=s.S.new(a, 'stake'), cost=s.S.new(a, 'cost'))) > 0),
       24: lambda s: d3(s, '_margin'), 25: lambda s: d4(s, '_margin'),
       28: lambda s: s.sum('stake'), 29: lambda s: s.over_agents('SUM', lambda k, a: s.S.new(a, 'stake')), 30: lambda s: s.operators()}
def splitters(s):
    a = s.ip.reg.fresh_bound(I)
    return s.ip.reg.make('CNT', a, s.owned(a) > 1, None, ())
def req(S, a, pools=True):
    ip = S.ip; m = a.model
    out = agents_ok(S, m) + [('scheme', S.new(m, 'reward_scheme').term != null_of('Rss')), ('n', S.new(m, 'n') >= 0)]
    s = St(S, m)
    out += [('pools', s.d.term != null_of(DP)),
            ('agents have the ids 0 to n-1', S.forall(['int'], lambda k: z3.Select(s.ahas, k) == z3.And(k >= 0, k < S.new(m, 'n')), pats=lambda k: [z3.Select(s.ahas, k)])),
            ('pools are filed under their ids and owned by agents', S.forall(['int'], lambda k: z3.Implies(z3.Select(s.has, k), z3.And(z3.Select(s.val, k) != null_of('Pool'), S.new(s.pool(k), 'id') == k,
                S.new(s.pool(k), 'owner') >= 0, S.new(s.pool(k), 'owner') < S.new(m, 'n'))), pats=lambda k: [z3.Select(s.val, k)]))]
    return out
def req_for(i):
    def rq(S, a):
        s = St(S, a.model)
        out = req(S, a)
        if i == 8: out.append(('thresholds are positive', S.forall(['int'], lambda k: thr(s, s.pool(k)) > 0, pats=lambda k: [thr(s, s.pool(k))])))
        if i == 12: out.append(('the pools hold some stake', z3.Or(s.n() == 0, s.sum('stake') > 0)))
        if i == 13: out.append(('pools hold some stake', S.forall(['int'], lambda k: z3.Implies(z3.Select(s.has, k), S.new(s.pool(k), 'stake') > 0), pats=lambda k: [z3.Select(s.val, k)])))
        return out
    return rq
def call_metric(i):
    def drv(ip, f, a):
        """the function that the tables of the program assign to the metric"""
        from pyver.interp import Frame
        ip.frames.append(Frame(None, {'model': a.model}, ip.prog.module('logic.model_reporters')))
        try:
            if isinstance(i, int):
                nm = ip.ev(ast.parse('REPORTER_IDS[%d]' % i, mode='eval').body)
                ip.oblige('metric %d is called %r' % (i, NAMES[i]), z3.BoolVal(nm == NAMES[i]))
            return ip.ev(ast.parse('ALL_MODEL_REPORTEERS[%r](model)' % NAMES[i], mode='eval').body)
        finally: ip.frames.pop()
    return drv
def metric(i, ens=None):
    e = ens or (lambda S, a, r: [('is what the documentation says', num(S, r) == zr(S.old(lambda: DEF[i](St(S, a.model)))))])
    return Contract('%s.metric.%s' % ('C19' if i in (10, 22, 23, 'k22', 'k23') else 'C18' if i == 9 else 'C20' if i in (15, 16, 17, 18) else 'C17', i), MR + 'get_number_of_pools', {'model': 'Model'}, requires=req_for(i), ensures=e,
                    driver=call_metric(i), callmode='never', config=cfg, title='metric %s, "%s", equals its definition' % (i, NAMES[i]))
def cfg(w): w.nonnull_dicts = True
def const(S, n, sort=I): return z3.Const(S.ip.fresh_name(n), sort)
def seq_of(S, v):
    if not isinstance(v, PList) or v.items or len(v.segs or []) != 1: raise OutOfSubset('a list is expected, got %r' % (v,))
    return v.segs[0]
def at(S, v, i): return zr(S.ip.world.ext.getitem(S.ip, v, i, 'specification'))
def ens26(S, a, r):
    """one entry per agent, in the order of their ids"""
    s = St(S, a.model); n = S.get(a.model, 'n'); c = seq_of(S, r)
    i = const(S, 'i')
    if not c.base or c.base[0] != 'range': raise OutOfSubset('the list is not indexed by agents')
    S.ip.assume(z3.And(i >= 0, i < n))
    ln = z(S.ip.world.ext.length(S.ip, r))
    if not S.ip.valid(ln == n): return [('there is one entry per agent', ln == n)]
    return [('there is one entry per agent', ln == n), ('each is the stake of the pools of that agent', at(S, r, i) == s.controlled(i))]
def ens27(S, a, r):
    s = St(S, a.model); n = S.get(a.model, 'n')
    if not isinstance(r, PDict) or r.fd is None or r.fd.var.sort() != I: raise OutOfSubset('a dictionary is expected, got %r' % (r,))
    i = const(S, 'i')
    return [('there is one entry per agent', z3.substitute(r.fd.has, (r.fd.var, i)) == z3.And(i >= 0, i < n)),
            ('each is the stake of the pools of that agent', z3.Implies(z3.And(i >= 0, i < n), zr(subst(r.fd.val, r.fd.var, i)) == s.controlled(i)))]
def ens21(S, a, r):
    s = St(S, a.model)
    want = {'x': lambda p: S.new(s.agent(S.new(p, 'owner')), 'stake'), 'y': s.get('stake'), 'r': s.get('_margin'), 'pool_id': s.get('id'), 'owner_id': s.get('owner')}
    if not isinstance(r, PDict) or r.fd is not None or r.ref is not None: raise OutOfSubset('a dictionary of lists is expected')
    out = [('the entries are those documented', z3.BoolVal(set(r.items) == set(want)))]
    from pyver.interp import Frame
    k0, order = S.ip.iterate(Obj(DP, s.d.term))
    for n, f in want.items():
        if n not in r.items: continue
        c = seq_of(S, r.items[n])
        if c.var.sort() != I: raise OutOfSubset('a list over pools is expected')
        k = const(S, 'k')
        g, e = z3.substitute(c.guard, (c.var, k)), subst(c.elem, c.var, k)
        fs = [z3.Implies(g, z3.substitute(x, (c.var, k))) for x in c.facts]
        for x in fs: S.ip.assume(x)
        out += [('%s lists every pool, in the same order as the other lists' % n, z3.And(g == z3.Select(s.has, k), z3.BoolVal(c.base is not None and c.base == order[0].base))),
                ('%s is what it should be for every pool' % n, z3.Implies(z3.Select(s.has, k), zr(e) == zr(f(s.pool(k)))))]
    return out
NAMES[11] = "Min-aggregate pledge"
def table(ip, f, a):
    from pyver.interp import Frame
    ip.frames.append(Frame(None, {}, ip.prog.module('logic.model_reporters')))
    try:
        for i in range(1, 31):
            nm = ip.ev(ast.parse('REPORTER_IDS[%d]' % i, mode='eval').body)
            ip.oblige('metric %d is called %r' % (i, NAMES[i]), z3.BoolVal(nm == NAMES[i]))
            ip.ev(ast.parse('ALL_MODEL_REPORTEERS[%r]' % nm, mode='eval').body)
    finally: ip.frames.pop()
TABLE = Contract('C17.table', MR + 'get_number_of_pools', {}, ensures=lambda S, a, r: [], driver=table, callmode='never', title='every documented metric number has the documented name, and a function')
C17 = [TABLE] + [metric(i) for i in (1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 14, 19, 20, 24, 25, 28, 29, 30)] + [metric(21, ens21), metric(26, ens26), metric(27, ens27)]
C19 = [metric(10)]
