"""C20: ranks are a permutation that respects values, tie-breakers and ids; the rank metrics."""
import z3
from pyver.spec import Contract
from pyver.vals import *
from . import metrics as M
I, R = z3.IntSort(), z3.RealSort()
H = 'logic.helper:'
DR = 'D[int,real]'
def fd_of(r):
    if not isinstance(r, PDict) or r.fd is None or r.fd.var.sort() != I: raise OutOfSubset('a dictionary is expected, got %r' % (r,))
    return r.fd
def lookups(ip, d):
    has, val, _, _ = ip.dget(d)
    return (lambda k: z3.Select(has, k)), (lambda k: z3.Select(val, k))
def before(vals, x, y, ids):
    """x goes before y: larger value, then larger tie-breakers, then (if wanted) smaller id"""
    c = x < y if ids else z3.BoolVal(False)
    for v in reversed(vals): c = z3.Or(v(x) > v(y), z3.And(v(x) == v(y), c))
    return c
def ens(ids):
    def e(S, a, r):
        ip = S.ip
        fd = fd_of(r)
        ds = [a.__dict__[n] for n in ('values', 'tie1', 'tie2') if n in a.__dict__]
        looks = [lookups(ip, d) for d in ds]
        has, vals = looks[0][0], [l[1] for l in looks]
        x, y = M.const(S, 'x'), M.const(S, 'y')
        n = ip.world.ext.length(ip, ds[0])
        def rank(k):
            for f in getattr(fd, 'facts', []): ip.assume(z3.Implies(z3.substitute(fd.has, (fd.var, k)), z3.substitute(f, (fd.var, k))))
            v = subst(fd.val, fd.var, k)
            if not is_num(v): raise OutOfSubset('ranks are numbers')
            return z(v)
        rx, ry = rank(x), rank(y)
        return [('exactly the items are ranked', z3.substitute(fd.has, (fd.var, x)) == has(x)),
                ('ranks are from 1 to the number of items', z3.Implies(has(x), z3.And(rx >= 1, rx <= z(n)))),
                ('ranks are distinct', z3.Implies(z3.And(has(x), has(y), x != y), rx != ry)),
                ('larger values, then larger tie-breakers%s get the better rank' % (', then smaller ids,' if ids else ''), z3.Implies(z3.And(has(x), has(y), before(vals, x, y, ids)), rx < ry))]
    return e
def req(S, a):
    ip = S.ip
    ds = [a.__dict__[n] for n in ('values', 'tie1', 'tie2') if n in a.__dict__]
    out = []
    for i, d in enumerate(ds[1:]):
        h0, hi = lookups(ip, ds[0])[0], lookups(ip, d)[0]
        out.append(('tie-breaker %d covers all items' % (i + 1), S.forall(['int'], lambda k: z3.Implies(h0(k), hi(k)), pats=lambda k: [hi(k)])))
    return out
def drv(kw):
    def d(ip, f, a):
        return ip.call_func(f, [a.__dict__[n] for n in ('values', 'tie1', 'tie2') if n in a.__dict__], dict(kw))
    return d
def con(m, ids, kw):
    ps = {'values': DR}
    for i in range(m): ps['tie%d' % (i + 1)] = DR
    return Contract('C20.ranks.%d%s' % (m, '' if ids else '.noids'), H + 'calculate_ranks', ps, requires=req, ensures=ens(ids), driver=drv(kw), callmode='never',
                    title='%d tie-breaking values%s: the ranks are a permutation that respects values, ties%s' % (m, '' if kw else ' (default)', ' and ids' if ids else ''))
C20 = [con(m, True, {}) for m in (0, 1, 2)] + [con(1, True, {'rank_ids': True}), con(0, False, {'rank_ids': False}), con(1, False, {'rank_ids': False})]
C20[3].key += '.asked'
# ---- the metrics that use it
RANK = z3.Function('RANK_OF', I, I)
def stub_ranks(want):
    def st(ip, env, where):
        d, ties, ids = env['ranking_dict'], env.get('tie_breaking_dicts', ()), env.get('rank_ids', True)
        if ties not in ((), None) and not (isinstance(ties, PList) and not ties.items and not ties.segs): raise OutOfSubset('tie-breakers at ' + where)
        if ids is not True: raise OutOfSubset('rank_ids at ' + where)
        fd = fd_of(d) if isinstance(d, PDict) and d.ref is None else None
        if fd is None: raise OutOfSubset('ranking of %r' % (d,))
        from pyver.symspec import Sym
        S = Sym(ip, ip.ghost.get('entry')); s = M.St(S, ip.ghost['args'].model)
        k = ip.fresh('k', I)
        has, val = z3.substitute(fd.has, (fd.var, k)), subst(fd.val, fd.var, k)
        ip.oblige('all agents are ranked, by the right value', z3.And(has == z3.Select(s.ahas, k), z3.Implies(has, zr(val) == want(S, s.agent(k)))))
        q = ip.reg.fresh_bound(I, 'key')
        ip.ghost['ranked'] = True
        p = PDict(); p.fd = FDict('int', q, z3.Select(s.ahas, q), RANK(q)); p.fd.facts = []
        return p
    return st
def rank_metric(i, want, kind):
    def e(S, a, r):
        from pyver.ext import ROUND0
        s = M.St(S, a.model)
        k = S.ip.reg.fresh_bound(I); g = z3.Select(s.has, k); rk = RANK(S.new(s.pool(k), 'owner'))
        m = S.ip.reg.make('ISUM', k, g, rk) / 1 if False else (zr(S.ip.reg.make('ISUM', k, g, rk)) / zr(s.n()) if kind == 'mean' else S.ip.reg.make('MEDIAN', k, g, zr(rk)))
        return [('is the rounded %s, over all pools, of the rank of the owner' % kind, M.num(S, r) == z3.If(s.n() > 0, zr(ROUND0(m)), z3.RealVal(0)))]
    c = M.metric(i, e)
    c.stubs = {'logic.helper:calculate_ranks': stub_ranks(want)}
    return c
stake, cost = (lambda S, g: S.new(g, 'stake')), (lambda S, g: -S.new(g, 'cost'))
C20 += [rank_metric(15, stake, 'mean'), rank_metric(16, cost, 'mean'), rank_metric(17, stake, 'median'), rank_metric(18, cost, 'median')]
