"""C18: the Nakamoto coefficient is the size of the smallest coalition that controls a majority."""
import z3
from pyver.spec import Contract
from pyver.vals import *
from pyver.loops import LoopInv
from pyver import lemmas
from . import metrics as M
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
COAL = z3.Function('COALITION', I, B)       # an arbitrary set of agents
def the_sort(ip):
    si = list(getattr(ip, 'sortinfo', {}).values())
    return si[0] if len(si) == 1 and si[0].reverse and si[0].c.var.sort() == I else None
class Def:
    """stake controlled by each agent (through pools, or its own before there are any), and sums of it"""
    def __init__(self, s, own):
        self.s, self.own = s, own
        self.k = s.ip.reg.fresh_bound(I)
        self.t = zr(s.S.new(s.agent(self.k), 'stake') if own else s.controlled(self.k))
    def c(self, k): return z3.substitute(self.t, (self.k, k))
    def sum(self, extra=None):
        s = self.s; k = s.ip.reg.fresh_bound(I); g = z3.Select(s.ahas, k)
        return s.ip.reg.make('SUM', k, g if extra is None else z3.And(g, extra(k)), self.c(k), ())
    def count(self, extra):
        s = self.s; k = s.ip.reg.fresh_bound(I)
        return s.ip.reg.make('CNT', k, z3.And(z3.Select(s.ahas, k), extra(k)), None, ())
    def top(self, info, m): return self.sum(lambda k: info.idx(k) < m)
    def total(self):
        """all stake that counts: the stake of the pools, or that of the agents"""
        return self.sum() if self.own else self.s.sum('stake')
def exchange(ip, d, info, m):
    """no coalition of m agents has more than the first m of the enumeration:
       (1_T(k) - 1_top(k)) (c(k) - c(src(m-1))) <= 0 for every k, summed up"""
    s = d.s
    piv = d.c(info.src(m - 1))
    hyp = z3.And(m >= 1, m <= info.n)
    def mk(e):
        k = ip.reg.fresh_bound(I)
        return ip.reg.make('SUM', k, z3.Select(s.ahas, k), e(k), ())
    inT, inP = (lambda k: COAL(k)), (lambda k: info.idx(k) < m)
    lhs = mk(lambda k: z3.If(inT(k), z3.If(inP(k), z3.RealVal(0), d.c(k) - piv), z3.If(inP(k), piv - d.c(k), z3.RealVal(0))))
    T, P, cT, cP = d.sum(inT), d.top(info, m), d.count(inT), d.count(inP)
    if lhs.decl().name() not in ip.reg.by_decl: raise OutOfSubset('exchange argument')
    ok = lemmas.combine(ip, lhs, [(z3.RealVal(1), T), (z3.RealVal(-1), P), (-piv, cT), (piv, cP)])
    if not ok: raise OutOfSubset('exchange argument')
    ok = lemmas.nonpos(ip, lhs, hyp, lambda w: steps(ip, d, info, m, w))
    lemmas.prefix_count(ip, info, m)
    lemmas.empty(ip, cT, T)
    return T, P, cT, ok
def steps(ip, d, info, m, w):
    """instances for element w: where it is in the enumeration decides whether it has more or less than the m-th"""
    s = d.s; g = z3.Select(s.ahas, w); p, q, n = info.idx(w), m - 1, info.n
    piv, cw = d.c(info.src(m - 1)), d.c(w)
    ke = lambda t: zr(subst(info.key, info.c.var, t))
    out = []
    for x, y in ((p, q), (q, p)):
        out.append(z3.Implies(z3.And(x >= 0, x <= y, y < n), ke(info.src(x)) >= ke(info.src(y))))
    out.append(z3.Implies(g, z3.And(p >= 0, p < n, info.src(p) == w)))
    out.append(z3.Implies(z3.And(q >= 0, q < n), z3.Select(s.ahas, info.src(q))))
    for t in (w, info.src(q)): out.append(z3.Implies(z3.Select(s.ahas, t), ke(t) == d.c(t)))
    out.append(z3.Implies(g, ke(info.src(p)) == ke(w)))      # src(p) is w
    for f in out:
        if not lemmas.step(ip, f):
            return []
    return out
def smallest(S, a, r, own, prefix):
    """the conditions on the result"""
    ip = S.ip; s = M.St(S, a.model); d = Def(s, own)
    nc = M.num(S, r); nci = z(r)
    info = the_sort(ip)
    if info is None: raise OutOfSubset('no single descending enumeration of the agents to relate the result to')
    if not z3.is_int(nci): raise OutOfSubset('the result is not an integer')
    tot, n = d.total(), info.n
    k = M.const(S, 'k')
    g = z3.Select(s.ahas, k)
    # the enumeration in the code is one of all agents, by what they control
    ke, ce = zr(subst(info.key, info.c.var, k)), d.c(k)
    if not ip.valid(info.guard(k) == g): raise OutOfSubset('the enumeration in the code is not one of all agents')
    ranked = z3.And(info.guard(k) == g, z3.Implies(g, ke == ce))
    if not ip.valid(ranked): return [('the agents are ranked by what they control', ranked)]
    ip.assume(S.forall(['int'], lambda q: info.guard(q) == z3.Select(s.ahas, q), pats=lambda q: [info.idx(q)]))
    ip.assume(S.forall(['int'], lambda q: z3.Implies(z3.Select(s.ahas, q), zr(subst(info.key, info.c.var, q)) == d.c(q)), pats=lambda q: [info.idx(q)]))
    if not own:
        a_, k_ = ip.reg.fresh_bound(I), ip.reg.fresh_bound(I)
        outer, inner = lemmas.fubini(ip, z3.Select(s.ahas, a_), a_, d.c, k_, z3.Select(s.has, k_), S.new(s.pool(k_), 'owner'), S.new(s.pool(k_), 'stake'))
        lemmas.same(ip, inner, tot); lemmas.same(ip, outer, d.sum())
    lemmas.same(ip, d.top(info, n), d.sum())
    top = d.top(info, nci)
    lemmas.prefix_count(ip, info, nci)
    m = d.count(COAL)
    ip.assume(m >= 0)
    T, P, cT, ok = exchange(ip, d, info, m)
    prefix(s, d, info, nci, m)
    for f in (z3.Implies(z3.And(m < nci, m >= 1), T <= P), z3.Implies(z3.And(m < nci, m >= 1), P <= tot / 2), z3.Implies(m == 0, T == 0), tot >= 0):
        lemmas.step(ip, f)
    return [('it is at least 1 and at most the number of agents', z3.And(nci >= 1, nci <= n)),
            ('that many agents', d.count(lambda k: info.idx(k) < nci) == nci), ('control more than half', top > tot / 2),
            ('no smaller coalition has a larger share than the first agents of the ranking', z3.Implies(z3.And(m < nci, m >= 1), T <= P)),
            ('no smaller coalition controls more than half', z3.Implies(m < nci, T <= tot / 2))]
def code_prefix(ip):
    """relates the prefix sums in the code to sums over agents"""
    def px(s, d, info, nci, m):
        am = ip.ghost.get('argmax')
        if am is None: raise OutOfSubset('no argmax in the code')
        r, at, n = am
        for j, hyp, goal in ((n - 1, None, d.sum()), (nci - 1, None, d.top(info, nci)), (m - 1, z3.And(m >= 1, m <= info.n), d.top(info, m))):
            for app in ip.reg.apps([at(j)]):
                if ip.reg.by_decl[app.decl().name()].var.sort() != I: continue
                o = lemmas.reindex(ip, app, info)
                if o is not None and o.decl().name() in ip.reg.by_decl: lemmas.same(ip, o, goal, hyp)
            ip.assume(z3.Implies(z3.And(j >= 0, j < n, at(j)), z3.And(at(r), r <= j)))       # instance of what argmax guarantees
            ip.assume(z3.Implies(z3.And(j >= 0, j < r), z3.Not(at(j))))
    return px
def ens9(S, a, r):
    s = M.St(S, a.model); ip = S.ip
    if lemmas.quick(ip, s.n() == 0): return [('it is 0 without pools', M.num(S, r) == 0)]
    return smallest(S, a, r, False, code_prefix(ip))
def req9(S, a):
    s = M.St(S, a.model)
    return M.req(S, a) + [('the pools hold some stake', z3.Or(s.n() == 0, s.sum('stake') > 0))]
c9 = M.metric(9, ens9); c9.requires = req9

# before there are pools: the loop that adds up the stakes in descending order
def no_pools(ip, env, w):
    from pyver.interp import SymRaise
    raise SymRaise('AttributeError', "no attribute 'pools'")
def ip_silent(S): return S.ip.silent > 0
def parts(S, a, L):
    """whatever they are called: the loop's counters (all equal) and its sums"""
    num = [L.env[n] for n in L.names if n in L.env and is_num(L.env[n])]
    ints, reals = [v for v in num if is_int_kind(v)], [v for v in num if not is_int_kind(v)]
    if not ip_silent(S) and (not ints or not reals): raise OutOfSubset('the loop has no counter or no sum')
    return ints, reals
def before(S, a):
    ip = S.ip; s = M.St(S, a.model); info = the_sort(ip)
    if info is None: raise OutOfSubset('no single descending enumeration')
    d = Def(s, True)
    k = M.const(S, 'k')
    if not ip.valid(z3.And(info.guard(k) == z3.Select(s.ahas, k), z3.Implies(z3.Select(s.ahas, k), zr(subst(info.key, info.c.var, k)) == d.c(k)))): raise OutOfSubset('another enumeration')
    return ip, s, info, d
def inv_prior(S, a, L):
    ip, s, info, d = before(S, a)
    ints, reals = parts(S, a, L)
    i = zi(ints[0])
    top = lambda j: d.top(info, j)
    for j in (i, i - 1): lemmas.differ_at(ip, top(j + 1), top(j), info.src(j))
    lemmas.same(ip, top(info.n), d.sum())
    lemmas.prefix_count(ip, info, i)
    return [('the counters agree', z3.And(*[zi(x) == i for x in ints])), ('they count the agents taken so far', z3.And(i >= 0, i <= info.n)),
            ('the sums are theirs', z3.And(*[zr(x) == top(i) for x in reals])),
            ('fewer were not enough', z3.Implies(i >= 1, top(i - 1) <= d.sum() / 2))]
def dec_prior(S, a, L):
    ip, s, info, d = before(S, a)
    return info.n - zi(parts(S, a, L)[0][0])
def mono(s, d, info, nci, m):
    """the prefix sums increase: fewer agents than the last but one were not enough either"""
    ip = s.ip
    top = lambda j: d.top(info, j)
    lemmas.le(ip, top(m), top(nci - 1), z3.And(m <= nci - 1))
    lemmas.le(ip, top(nci - 1), top(nci))
def ens_prior(S, a, r): return smallest(S, a, r, True, mono)
def req_prior(S, a):
    s = M.St(S, a.model)
    return M.req(S, a) + [('the agents hold some stake', Def(s, True).sum() > 0)]
prior = M.metric(9, ens_prior); prior.key = 'C18.prior'; prior.requires = req_prior; prior.title = 'the Nakamoto coefficient of the agents, before there are pools'
prior.stubs = dict(prior.stubs or {}); prior.stubs[('Model', 'get_pools_list')] = no_pools
prior.loops = {'main': LoopInv('logic.model_reporters:get_nakamoto_coefficient', 0, inv_prior, kind='while', decreases=dec_prior)}
C18 = [c9, prior]
