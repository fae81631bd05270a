"""C19: Gini coefficients (and, in metrics.py, the statistical distance)."""
import z3
from pyver.spec import Contract
from pyver.vals import *
from pyver import lemmas
from pyver.aggs import Instantiator
from . import metrics as M
I, R = z3.IntSort(), z3.RealSort()
X, N = z3.Function('X', I, R), z3.Int('N')
def array(ip):
    """a numpy array of any length with any non-negative entries"""
    k = ip.reg.fresh_bound(I, 'i')
    p = PList([]); p.np = True
    p.segs = [Comp(k, z3.And(k >= 0, k < N), X(k), [X(k) >= 0], ('range', 0, 'N'), lo=0, hi=N)]
    return p
def absd(i, j): return z3.If(X(i) - X(j) >= 0, X(i) - X(j), X(j) - X(i))
def total(ip):
    k = ip.reg.fresh_bound(I)
    return ip.reg.make('SUM', k, z3.And(k >= 0, k < N), X(k), [X(k) >= 0])
def req(S, a): return [('entries', N >= 0), ('not negative', S.forall(['int'], lambda k: z3.Implies(z3.And(k >= 0, k < N), X(k) >= 0), pats=lambda k: [X(k)]))]
def align(ip, r, half, full):
    """relates the nested sums of the code to the sum over the pairs i < j, or over all pairs"""
    reg = ip.reg
    for app in reg.apps([r]):
        a = reg.by_decl[app.decl().name()]
        if a.kind != 'SUM' or a.var.sort() != I or not reg.apps([a.elem]): continue
        for goal in (half, full):
            def steps(w):
                ins, out = Instantiator(reg), []
                inside = z3.And(w >= 0, w < N)
                for x in reg.apps([ins._b(app, w, out)]):
                    if not any(lemmas.occurs(w, c) for c in x.children()): continue
                    for y in [y for y in reg.apps([ins._b(goal, w, out)]) if y.num_args()]:
                        if goal is half: lemmas.zero(ip, y, w >= N - 1)
                        if lemmas.agree(ip, x, y, inside): continue
                        for c in (w + 1, w):
                            o = lemmas.shifted(ip, x, c)
                            if o.decl().name() in reg.by_decl and lemmas.agree(ip, o, y, inside): break
            if lemmas.agree(ip, app, goal, None, steps): break
def ens(S, a, r):
    ip = S.ip
    g = M.num(S, r)
    t = total(ip)
    fh = lemmas.symmetric(ip, N, absd)
    full, half = fh
    align(ip, g, half, full)
    # bounds: |x - y| <= x + y for every pair, and the sum of x + y over all pairs is 2 n times the total
    reg = ip.reg
    inr = lambda k: z3.And(k >= 0, k < N)
    row = lambda w: [y for y in reg.apps([Instantiator(reg)._b(full, w, [])]) if y.num_args()][0]
    nn = lambda w: [z3.Implies(inr(w), X(w) >= 0)]
    fact = lambda f: [f] if lemmas.step(ip, f) else []
    def rowmax(w):
        y = row(w); h = inr(w)
        ok = lemmas.bounded(ip, y, [(X(w), lemmas.size(N), inr), (z3.RealVal(1), t)], h, lambda j: fact(nn(w)[0]) + fact(nn(j)[0]))
        return [z3.Implies(h, y <= X(w) * zr(lemmas.size(N)) + t)] if ok else []
    def rowmin(w): return fact(row(w) >= 0)
    n_ = zr(lemmas.size(N))
    lemmas.bounded(ip, full, [(n_, t), (t, lemmas.size(N), inr)], None, rowmax)
    lemmas.atleast0(ip, full, lambda w: [row(w) >= 0] if lemmas.atleast0(ip, row(w)) else [])
    lemmas.atleast0(ip, t, lambda w: fact(nn(w)[0]))
    c = M.const(S, 'c', R)
    same = S.forall(['int'], lambda x: z3.Implies(inr(x), X(x) == c), pats=lambda x: [X(x)])
    def rowzero(w): lemmas.zero(ip, row(w), z3.And(same, inr(w)))
    lemmas.zero(ip, full, same, rowzero)
    den = 2 * zr(N) * t
    for f in (z3.Implies(t != 0, z3.And(N >= 1, t > 0)), z3.Implies(t != 0, den > 0), full >= 0, z3.Implies(t != 0, full <= den)): lemmas.step(ip, f)
    q = z3.Implies(t != 0, g == full / den)
    return [('is half the relative mean absolute difference', q), ('is not negative', z3.Implies(t != 0, g >= 0)), ('is at most 1', z3.Implies(t != 0, g <= 1)), ('is 0 when all entries are equal', z3.Implies(z3.And(t != 0, same), g == 0))]
CONTRACT = Contract('C19.gini', 'logic.model_reporters:gini_coefficient', {'np_array': array}, requires=req, ensures=ens, callmode='never', title='the Gini coefficient of any array')
C19 = [CONTRACT]
# ---- the metrics that use it: the Gini coefficient of the right numbers
def describe(ip, v):
    """[(index, is in, value)] of the parts of a collection of numbers"""
    if not isinstance(v, PList): raise OutOfSubset('Gini coefficient of %r' % (v,))
    if v.items and not all(is_num(x) for x in v.items): raise OutOfSubset('Gini coefficient of %r' % (v,))
    return v.items, v.segs or []
def stub_gini(value, padded):
    """one number per operator (what it controls), and enough zeros for k numbers when asked for"""
    def st(ip, env, where):
        from pyver.symspec import Sym
        S = Sym(ip, ip.ghost.get('entry')); s = M.St(S, ip.ghost['args'].model)
        items, segs = describe(ip, list(env.values())[0])
        if items: raise OutOfSubset('fixed numbers at ' + where)
        owners = [c for c in segs if not (is_num(c.elem) and z3.is_true(z3.simplify(zr(c.elem) == 0)))]
        zeros = [c for c in segs if all(c is not o for o in owners)]
        if len(owners) != 1 or owners[0].var.sort() != I or not is_num(owners[0].elem): raise OutOfSubset('numbers at ' + where)
        c = owners[0]
        a = ip.fresh('operator', I)
        g, e = z3.substitute(c.guard, (c.var, a)), zr(subst(c.elem, c.var, a))
        for f in c.facts: ip.assume(z3.Implies(g, z3.substitute(f, (c.var, a))))
        ip.oblige('one number for every agent with pools', g == (s.owned(a) > 0))
        ip.oblige('it is what the agent controls', z3.Implies(g, e == value(s, a)))
        cnt = z3.IntVal(0)
        for x in zeros: cnt = cnt + z(ip.world.ext.complen(ip, x))
        k, ops = z(S.new(S.new(s.m, 'reward_scheme'), '_k')), s.operators()
        want = z3.If(zr(ops) < zr(k), zr(k) - zr(ops), z3.RealVal(0)) if padded else z3.RealVal(0)
        ip.oblige('padded with zeros up to k numbers' if padded else 'nothing else', zr(cnt) == want)
        ip.ghost['gini'] = r = ip.fresh('gini', R)
        return r
    return st
def gini_metric(i, value, padded):
    def e(S, a, r):
        g = S.ip.ghost.get('gini')
        if g is None: raise OutOfSubset('the Gini coefficient is not computed by gini_coefficient')
        return [('is the Gini coefficient of them', M.num(S, r) == g)]
    c = M.metric(i, e)
    c.stubs = {'logic.model_reporters:gini_coefficient': stub_gini(value, padded)}
    return c
count, stake = (lambda s, a: zr(s.owned(a))), (lambda s, a: zr(s.controlled(a)))
C19 += [gini_metric(22, count, False), gini_metric(23, stake, False), gini_metric('k22', count, True), gini_metric('k23', stake, True)]
