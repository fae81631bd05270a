"""sorted() and numpy.argmax on symbolic sequences.

sorted(c) is described by its specification: an enumeration src of the elements of c (each exactly once; idx is its inverse)
along which the keys never decrease (never increase when reversed).  Stability is not described."""
import z3
from .vals import *
from .symspec import quant

def sorted_(ip, v, key, reverse, w):
    kind, s = ip.iterate(v)
    ext = ip.world.ext
    if kind == 'concrete':
        if len(s) > 1: raise OutOfSubset('sorting a fixed sequence at ' + w)
        return PList(list(s))
    if len(s) != 1: raise OutOfSubset('sorting several parts at ' + w)
    if ip.bounds: raise OutOfSubset('sorting under a bound variable at ' + w)
    if not isinstance(reverse, bool): raise OutOfSubset('reverse at ' + w)
    c = s[0]
    if c.isset: raise OutOfSubset('sorting a set at ' + w)
    kc = c if key is None else ip.map_comp(c, None, [], lambda: ip.call(key, [c.elem], {}, w))
    cv = z3.Const('cv!sort', c.var.sort())
    g = z3.simplify(z3.substitute(c.guard, (c.var, cv)))
    memo = ip.reg.__dict__.setdefault('sorts', {})
    mk = (c.var.sort().name(), g.sexpr(), str(vkey(subst(kc.elem, c.var, cv))), reverse)
    if mk not in memo:
        n = len(memo)
        memo[mk] = (z3.Function('SORT_SRC!%d' % n, z3.IntSort(), c.var.sort()), z3.Function('SORT_IDX!%d' % n, c.var.sort(), z3.IntSort()))
    src, idx = memo[mk]
    ip.__dict__.setdefault('inverses', {})[src.name()] = idx
    n = z(ext.complen(ip, c))
    at = lambda e, t: subst(e, c.var, t) if not isinstance(e, z3.ExprRef) else z3.substitute(e, (c.var, t))
    ip.__dict__.setdefault('sortinfo', {})[src.name()] = SortInfo(src, idx, n, c, kc.elem, reverse)
    facts = z3.And(*(list(c.facts) + [f for f in kc.facts if not any(f.eq(x) for x in c.facts)])) if (c.facts or kc.facts) else z3.BoolVal(True)
    i, j = z3.Int(ip.fresh_name('i')), z3.Int(ip.fresh_name('j'))
    q = z3.Const(ip.fresh_name('q'), c.var.sort())
    ip.assume(n >= 0)
    ip.assume(quant([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(at(c.guard, src(i)), at(facts, src(i)), idx(src(i)) == i)), [src(i)]))
    ip.assume(quant([q], z3.Implies(at(c.guard, q), z3.And(idx(q) >= 0, idx(q) < n, src(idx(q)) == q)), [idx(q)]))
    a, b = (j, i) if reverse else (i, j)
    le = ext.compare(ip, 'LtE', at(kc.elem, src(a)), at(kc.elem, src(b)), w)
    ip.assume(quant([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < n), zb(le)), [[src(i), src(j)]]))
    p = PList([])
    e = at(c.elem, src(i0(ip)))
    k = ip.reg.fresh_bound(z3.IntSort(), 'i')
    e = subst(c.elem, c.var, src(k))
    p.segs = [Comp(k, z3.And(k >= 0, k < n), e, [at(f, src(k)) for f in c.facts] + [at(c.guard, src(k)), idx(src(k)) == k], ('range', 0, n.sexpr()), lo=0, hi=n)]
    p.sorted_of = c
    if is_num(c.elem):
        kind_ = 'ISUM' if is_int_kind(c.elem) else 'SUM'
        f = zi if is_int_kind(c.elem) else zr
        ip.assume(ip.reg.make(kind_, k, p.segs[0].guard, f(e), p.segs[0].facts) == ip.reg.make(kind_, c.var, c.guard, f(c.elem), c.facts))
    ip.ext_used.add('builtins.sorted')
    return p
class SortInfo:
    def __init__(self, src, idx, n, c, key, reverse): self.src, self.idx, self.n, self.c, self.key, self.reverse = src, idx, n, c, key, reverse
    def at(self, e, t): return subst(e, self.c.var, t)
    def guard(self, t): return z3.substitute(self.c.guard, (self.c.var, t))
def i0(ip): return z3.IntVal(0)

def argmax_(ip, v, w):
    """numpy.argmax of truth values: the first index of a true one, 0 if there is none"""
    kind, s = ip.iterate(v)
    if kind == 'concrete' or len(s) != 1 or s[0].hi is None or s[0].lo != 0 or not is_boolv(s[0].elem): raise OutOfSubset('argmax at ' + w)
    c = s[0]
    n = z(ip.world.ext.complen(ip, c))
    ip.require(n > 0, 'ValueError', w)
    r = ip.fresh('argmax', z3.IntSort())
    j = z3.Int(ip.fresh_name('j'))
    at = lambda t: z3.substitute(zb(c.elem), (c.var, t))
    tr = arith_terms(at(j), j)
    ip.assume(z3.And(r >= 0, r < n))
    ip.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, at(j)), z3.And(at(r), r <= j)), patterns=tr))
    ip.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < r), z3.Not(at(j))), patterns=tr))
    ip.assume(z3.Or(at(r), r == 0))
    # the last one is always a candidate
    ip.assume(z3.Implies(z3.And(n > 0, at(n - 1)), z3.And(at(r), r <= n - 1)))
    ip.ghost['argmax'] = (r, at, n)
    return r
def arith_terms(e, j):
    """aggregates mentioning j, as triggers"""
    out = []
    def go(x):
        if z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(y.eq(j) or occ(y, j) for y in x.children()): out.append(x); return
        for y in x.children(): go(y)
    def occ(y, j): return y.eq(j) or any(occ(c, j) for c in y.children())
    go(z3.simplify(e))
    return out[:1]
