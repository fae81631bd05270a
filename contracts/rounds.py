"""C16: semi-simultaneous rounds.  Ghost state: per agent how often it decided ($dec) and acted ($act), and how many acts had
happened when it decided ($at); per scheduler the number of acts ($acts).  Members of a group are the agents with the same $at."""
import z3
from pyver.spec import Contract
from pyver.loops import LoopInv
from pyver.vals import *
from pyver import lemmas
I, B = z3.IntSort(), z3.BoolSort()
ACT = 'logic.activations:SemiSimultaneousActivation.'
A0 = z3.Int('SOME_AGENT')          # an arbitrary agent id
def me(env): return list(env.values())[0]
def s_decide(ip, env, w):
    a = me(env); sch = ip.ghost['sched']
    ip.setfield(a, '$at', ip.getfield(sch, '$acts'))
    ip.setfield(a, '$dec', ip.getfield(a, '$dec') + 1)
def s_act(ip, env, w):
    a = me(env); sch = ip.ghost['sched']
    ip.oblige('an agent acts only after it has decided', ip.getfield(a, '$dec') == ip.getfield(a, '$act') + 1)
    ip.setfield(a, '$act', ip.getfield(a, '$act') + 1)
    ip.setfield(sch, '$acts', ip.getfield(sch, '$acts') + 1)
def sample(ip, o, a, kw, w):
    """random.sample(c, k): k different positions of c"""
    src, k = a[0], kw.get('k', a[1] if len(a) > 1 else None)
    kind, s = ip.iterate(src)
    if kind == 'concrete' and not s: raise OutOfSubset('sample of nothing at ' + w)
    if kind == 'concrete' or len(s) != 1 or set(kw) - {'k'}: raise OutOfSubset('sample at ' + w)
    c = s[0]
    n = z(ip.world.ext.complen(ip, c))
    ip.require(z3.And(zi(k) >= 0, zi(k) <= n), 'ValueError', w)
    ch = z3.Function(ip.fresh_name('drawn'), c.var.sort(), B)
    g = z3.And(c.guard, ch(c.var))
    d = ip.reg.make('CNT', c.var, g, None, c.facts)
    ip.assume(d == zi(k))
    ip.ghost['drawn'] = (d, lambda x: z3.substitute(g, (c.var, x)))
    ip.ext_used.add('random.Random.sample')
    p = PList([]); p.segs = [Comp(c.var, g, c.elem, c.facts)]
    return p
class V:
    """the view of the state"""
    def __init__(self, S, a):
        self.S, self.ip, self.s = S, S.ip, a.self
        self.ad = S.get(a.self, '_agents')
        self.has, self.val, _, _ = self.ip.dget(self.ad)
    def ag(self, k): return Obj('Agent', z3.Select(self.val, k), None, True)
    def isin(self, k): return z3.Select(self.has, k)
    def count(self, f):
        k = self.ip.reg.fresh_bound(I)
        return self.ip.reg.make('CNT', k, z3.And(self.isin(k), f(k)), None, ())
    def n(self): return self.count(lambda k: z3.BoolVal(True))
    def now(self, k, f): return self.S.new(self.ag(k), f)
    def was(self, k, f): return self.S.get(self.ag(k), f)
    def same(self, k): return z3.And(*[self.now(k, f) == self.was(k, f) for f in ('$dec', '$act', '$at')])
    def done(self, k): return z3.And(self.now(k, '$dec') == self.was(k, '$dec') + 1, self.now(k, '$act') == self.was(k, '$act') + 1)
    def acts0(self): return self.S.get(self.s, '$acts')
    def acts(self): return self.S.new(self.s, '$acts')
    def group(self, g): return self.count(lambda k: z3.And(self.done(k), self.now(k, '$at') == g))
    def size(self): return self.S.get(self.s, 'simultaneous_moves')
    def all(self): return self.S.get(self.s, 'all_agents_move')
    def group_ok(self):
        """the group of an arbitrary agent has the configured size, or is the last one"""
        g = self.now(A0, '$at'); left = self.n() - (g - self.acts0())
        return z3.Implies(z3.And(self.isin(A0), self.done(A0)), z3.And(g >= self.acts0(), g < self.acts(), self.group(g) == mn(self.size(), left)))
def mn(x, y): return z3.If(x <= y, x, y)
def setup(ip, S, a): ip.ghost['sched'] = a.self; ip.ghost['model'] = S.new(a.self, 'model')
def req(S, a):
    v = V(S, a); ip = S.ip
    return [('agents', v.ad.term != null_of('D[int,Agent]')), ('group size', v.size() >= 1), ('model', S.get(a.self, 'model').term != null_of('Model')),
            ('agents are filed under their ids', S.forall(['int'], lambda k: z3.Implies(v.isin(k), z3.And(z3.Select(v.val, k) != null_of('Agent'), ip.alloc0('Agent')(z3.Select(v.val, k)), S.get(v.ag(k), 'unique_id') == k)), pats=lambda k: [z3.Select(v.val, k)])),
            ('nobody is half way', S.forall(['int'], lambda k: z3.Implies(v.isin(k), v.was(k, '$dec') == v.was(k, '$act')), pats=lambda k: [z3.Select(v.val, k)]))]
def keys_type(ip):
    k = ip.reg.fresh_bound(I)
    rem = z3.Const(ip.fresh_name('remaining'), z3.ArraySort(I, B))
    p = PList([]); p.segs = [Comp(k, z3.Select(rem, k), k)]
    return p
def remaining(S, L):
    """the collection the loop condition looks at: (member, size)"""
    ip = S.ip
    ls = [L.env[n] for n in L.names if isinstance(L.env.get(n), PList)]
    return ls
def members(ip, v):
    if v.items: raise OutOfSubset('remaining agents')
    if not v.segs: return lambda k: z3.BoolVal(False)
    if len(v.segs) != 1 or not is_z3(v.segs[0].elem) or not v.segs[0].elem.eq(v.segs[0].var): raise OutOfSubset('remaining agents')
    c = v.segs[0]
    return lambda k: z3.substitute(c.guard, (c.var, k))
def counting(ip, v, nrem, D, G, rem):
    """how the counts change in one iteration: those drawn move from the remaining ones to the ones that have moved"""
    if 'before' not in ip.ghost or 'drawn' not in ip.ghost: return
    nrem0, D0, G0, rem0, heap0 = ip.ghost['before']
    drawn, isdrawn = ip.ghost['drawn']
    def then(f):
        save = ip.heap; ip.heap = dict(heap0)
        try: return f()
        finally: ip.heap = save
    def steps(w):
        fs = [z3.Implies(isdrawn(w), z3.And(v.isin(w), rem0(w), z3.Not(then(lambda: v.done(w))))),
              z3.Implies(isdrawn(w), z3.And(v.done(w), v.now(w, '$at') == then(v.acts))),
              z3.Implies(z3.And(v.isin(w), z3.Not(isdrawn(w))), z3.And(v.done(w) == then(lambda: v.done(w)), v.now(w, '$at') == then(lambda: v.now(w, '$at')))),
              z3.Implies(z3.And(v.isin(w), then(lambda: v.done(w))), then(lambda: v.now(w, '$at')) < then(v.acts)),
              z3.Implies(v.all(), rem(w) == z3.And(rem0(w), z3.Not(isdrawn(w))))]
        return [f for f in fs if lemmas.step(ip, f)]
    one = z3.RealVal(1)
    lemmas.for_all(ip, I, steps, lambda k: z3.Select(v.val, k))
    at_a0 = steps(A0)
    more = lambda w: at_a0 + steps(w)
    lemmas.combine(ip, D, [(one, D0), (one, drawn)], None, steps)
    if nrem.decl().name() in ip.reg.by_decl: lemmas.combine(ip, nrem, [(one, nrem0), (-one, drawn)], v.all(), steps)
    lemmas.combine(ip, G, [(one, drawn)], isdrawn(A0), more)
    lemmas.combine(ip, G, [(one, G0)], z3.And(v.isin(A0), then(lambda: v.done(A0)), z3.Not(isdrawn(A0))), more)
def inv(S, a, L):
    v = V(S, a); ip = S.ip
    rem = members(ip, L.var(REMAINING))
    k = lambda f, pats: S.forall(['int'], f, pats=pats)
    nrem = zi(ip.world.ext.complen(ip, L.var(REMAINING).segs[0])) if L.var(REMAINING).segs else z3.IntVal(0); D = v.count(v.done); G = v.group(v.now(A0, '$at'))
    if L.end and not ip.silent: counting(ip, v, nrem, D, G, rem)
    if L.entry: lemmas.same(ip, nrem, v.n(), None, True); lemmas.zero(ip, D)
    ip.ghost['before'] = (nrem, D, G, rem, dict(ip.heap))
    return [('remaining agents are agents', k(lambda x: z3.Implies(rem(x), z3.And(v.isin(x), v.same(x))), lambda x: [z3.Select(v.val, x)])),
            ('every agent has moved or not', k(lambda x: z3.Implies(v.isin(x), z3.Or(v.same(x), v.done(x))), lambda x: [z3.Select(v.val, x)])),
            ('acts are counted', z3.And(v.acts() >= v.acts0(), v.acts() == v.acts0() + D)),
            ('agents that moved decided in this round', k(lambda x: z3.Implies(z3.And(v.isin(x), v.done(x)), v.now(x, '$at') >= v.acts0()), lambda x: [z3.Select(v.val, x)])),
            ('agents that moved decided earlier', k(lambda x: z3.Implies(z3.And(v.isin(x), v.done(x)), v.now(x, '$at') < v.acts()), lambda x: [z3.Select(v.val, x)])),
            ('a single group decided at once', z3.Implies(z3.Not(v.all()), k(lambda x: z3.Implies(z3.And(v.isin(x), v.done(x)), z3.And(nrem == 0, v.now(x, '$at') == v.acts0())), lambda x: [z3.Select(v.val, x)]))),
            ('all others have moved', z3.Implies(v.all(), k(lambda x: z3.Implies(z3.And(v.isin(x), z3.Not(rem(x))), v.done(x)), lambda x: [z3.Select(v.val, x)]))),
            ('counts', z3.Implies(v.all(), nrem + D == v.n())),
            ('one group only', z3.Implies(z3.Not(v.all()), z3.If(nrem > 0, z3.And(D == 0, nrem == v.n()), D == mn(v.size(), v.n())))),
            ('groups', v.group_ok())]
REMAINING = 'agent_keys'
def ens(S, a, r):
    v = V(S, a)
    x = A0
    return [('every agent decides and acts exactly once', z3.Implies(z3.And(v.all(), v.isin(x)), v.done(x))),
            ('an agent that is not activated stays as it was', z3.Implies(v.isin(x), z3.Or(v.done(x), v.same(x)))),
            ('groups have the configured size, the last may be smaller; a group decides before it acts, and after the earlier groups have acted', v.group_ok()),
            ('if only one group moves, one does', z3.Implies(z3.Not(v.all()), z3.And(v.count(v.done) == mn(v.size(), v.n()), z3.Implies(z3.And(v.isin(x), v.done(x)), v.now(x, '$at') == v.acts0())))),
            ('the round is counted', z3.And(S.new(a.self, 'steps') == S.get(a.self, 'steps') + 1, S.new(a.self, 'time') == S.get(a.self, 'time') + 1))]
def cfg(w):
    w.schema['Agent'].update({'$dec': 'int', '$act': 'int', '$at': 'int'}); w.schema['Sched']['$acts'] = 'int'
    w.stubs[('Agent', 'step')] = s_decide
    w.stubs[('Agent', 'advance')] = s_act
    w.opq_methods['sample'] = sample
    w.nonnull_dicts = True
C16 = [Contract('C16.step', ACT + 'step', {'self': 'Sched'}, requires=req, ensures=ens, setup=setup, modifies=[('Agent', f) for f in ('$dec', '$act', '$at')] + [('Sched', f) for f in ('$acts', 'steps', 'time')],
                loops={'main': LoopInv(ACT + 'step', 0, inv, kind='while', types={REMAINING: keys_type})}, title='a semi-simultaneous round')]
CONFIG = {'C16': cfg}
