"""Instances of valid lemmas about finite aggregates, asked for by specifications (ghost lemma calls).  Each function assumes
one instance of a schema that holds for all finite sets and functions; nothing about the program is assumed here."""
import z3
from .vals import *
from .aggs import Instantiator, linear, occurs

def val(s): return z3.ToReal(s) if s.sort() == z3.IntSort() else s
def differ_at(ip, s, t, j):
    """sums whose summands agree except at j differ by the difference there"""
    ins, out = Instantiator(ip.reg), []
    w = ip.fresh('w', j.sort())
    bs, bt, js, jt = ins._b(s, w, out), ins._b(t, w, out), ins._b(s, j, out), ins._b(t, j, out)
    for f in out: ip.assume(f)
    ip.assume(z3.Or(z3.And(w != j, val(bs) != val(bt)), val(s) - val(t) == val(js) - val(jt)))
def mentions(e, f):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(f): return True
            todo += x.children()
        elif z3.is_quantifier(x): todo.append(x.body())
    return False
def reindex(ip, app, info):
    """sum over positions i of f(src(i)) = sum over the elements k of f(k)   (src enumerates the elements)"""
    reg = ip.reg
    a = reg.by_decl[app.decl().name()]
    sub = [(p, app.arg(i)) for i, p in enumerate(a.params)]
    i = ip.fresh('i', z3.IntSort())
    g = z3.substitute(a.guard, (a.var, i), *sub); e = z3.substitute(a.elem, (a.var, i), *sub)
    save = ip.pc; ip.pc = ip.pc + [('f', g)]
    inside = mentions(e, info.src) or mentions(g, info.src)
    inside = inside and quick(ip, z3.And(i >= 0, i < info.n)); ip.pc = save
    if not inside: return None
    k = reg.fresh_bound(info.c.var.sort())
    def back(x): return z3.substitute(z3.substitute(x, (info.src(i), k)), (i, info.idx(k)))
    out = reg.make(a.kind, k, z3.And(info.guard(k), back(g)), back(e) if a.kind != 'CNT' else None, ())
    ip.assume(val(app) == val(out))
    return out
def prefix_count(ip, info, m):
    """m elements come before position m"""
    k = ip.reg.fresh_bound(info.c.var.sort())
    c = ip.reg.make('CNT', k, z3.And(info.guard(k), info.idx(k) < m), None, ())
    ip.assume(z3.Implies(z3.And(m >= 0, m <= info.n), c == m))
    return c
def fubini(ip, guard_a, a, make_inner, k, guard_k, owner, elem):
    """sum over a in A of the sum of e(k) over the k owned by a = sum of e(k) over the k whose owner is in A"""
    outer = ip.reg.make('SUM', a, guard_a, make_inner(a), ())
    inner = ip.reg.make('SUM', k, z3.And(guard_k, z3.substitute(guard_a, (a, owner))), elem, ())
    ip.assume(outer == inner)
    return outer, inner

# ---- steps: proved here by a small query (never assumed without proof)
def quick(ip, goal, timeout=2.0):
    from .solve import _quick, STATS
    r = _quick(ip.conds() + [z3.Not(goal)], timeout) == z3.unsat
    return r
def step(ip, goal, timeout=2.0):
    """an intermediate assertion: proved from what is known, then known"""
    ok = quick(ip, goal, timeout) or ip.valid(goal, timeout)
    if ok: ip.assume(goal)
    return ok
def for_all(ip, sort, steps, pats):
    """what is proved for an arbitrary element holds for all"""
    w = ip.fresh('w', sort)
    fs = steps(w)
    if fs:
        k = ip.reg.fresh_bound(sort)
        body = z3.substitute(z3.And(*fs), (w, k))
        ip.assume(z3.ForAll([k], body, patterns=[pats(k)]))
    return fs
def same(ip, s, t, hyp=None, cheap=False):
    """two aggregates of the same kind with the same guard and summand are equal"""
    if s.eq(t): return True
    ins = Instantiator(ip.reg)
    w = ip.fresh('w', ip.reg.by_decl[s.decl().name()].var.sort())
    g1, e1, f1 = ip.reg.inst(s, w); g2, e2, f2 = ip.reg.inst(t, w)
    goal = z3.Implies(z3.And(*([hyp] if hyp is not None else []) + f1 + f2), z3.And(g1 == g2, z3.Implies(g1, e1 == e2)))
    if not (quick(ip, goal) or not cheap and ip.valid(goal)): return False
    ip.assume(s == t if hyp is None else z3.Implies(hyp, s == t))
    return True
def from_only(facts, goal, timeout=3.0):
    so = z3.SimpleSolver(); so.set('timeout', int(timeout * 1000))
    for f in facts: so.add(f)
    so.add(z3.Not(goal))
    return so.check() == z3.unsat
def nonpos(ip, s, hyp, steps=None):
    """a sum of non-positive terms is not positive"""
    ins, out = Instantiator(ip.reg), []
    w = ip.fresh('w', ip.reg.by_decl[s.decl().name()].var.sort())
    b = ins._b(s, w, out)
    if steps is not None:
        known = steps(w)
        if not from_only([hyp] + out + known, b <= 0): return False
    elif not quick(ip, z3.Implies(z3.And(hyp, *out), b <= 0), 4.0): return False
    ip.assume(z3.Implies(hyp, s <= 0)); return True
def combine(ip, s, terms, hyp=None, steps=None):
    """linearity: the sum of a linear combination is the linear combination of the sums"""
    ins, out = Instantiator(ip.reg), []
    w = ip.fresh('w', ip.reg.by_decl[s.decl().name()].var.sort())
    lhs = val(ins._b(s, w, out))
    rhs = z3.RealVal(0); tot = z3.RealVal(0)
    for c, t in terms:
        rhs = rhs + c * val(ins._b(t, w, out)); tot = tot + c * val(t)
    known = steps(w) if steps is not None else []
    if not from_only(out + known + ([hyp] if hyp is not None else []), lhs == rhs): return False
    ip.assume(val(s) == tot if hyp is None else z3.Implies(hyp, val(s) == tot)); return True
def empty(ip, cnt, s):
    """over no elements a sum is 0"""
    a, b = ip.reg.by_decl[cnt.decl().name()], ip.reg.by_decl[s.decl().name()]
    ins, out = Instantiator(ip.reg), []
    w = ip.fresh('w', a.var.sort())
    g1, _, _ = ip.reg.inst(cnt, w); g2, _, _ = ip.reg.inst(s, w)
    ip.assume(cnt >= 0)
    ip.assume(z3.Or(g1 != g2, z3.Implies(cnt == 0, s == 0)))
def le(ip, s, t, hyp=None):
    """a sum of smaller terms is smaller"""
    ins, out = Instantiator(ip.reg), []
    w = ip.fresh('w', ip.reg.by_decl[s.decl().name()].var.sort())
    bs, bt = ins._b(s, w, out), ins._b(t, w, out)
    goal = z3.Implies(z3.And(*([hyp] if hyp is not None else []) + out), bs <= bt)
    if not (from_only(ip.conds()[:0], goal) or quick(ip, goal)): return False
    ip.assume(s <= t if hyp is None else z3.Implies(hyp, s <= t)); return True
def shifted(ip, app, c):
    """sum over v with g(v) of e(v) = sum over u with g(u - c) of e(u - c)"""
    reg = ip.reg
    a = reg.by_decl[app.decl().name()]
    sub = [(p, app.arg(i)) for i, p in enumerate(a.params)]
    u = reg.fresh_bound(z3.IntSort())
    f = lambda x: z3.substitute(x, (a.var, u - c), *sub)
    out = reg.make(a.kind, u, f(a.guard), f(a.elem) if a.kind != 'CNT' else None, ())
    ip.assume(val(app) == val(out))
    return out
def agree(ip, s, t, hyp=None, steps=None):
    """sums whose summands (0 outside the set) agree everywhere are equal"""
    if s.eq(t): return True
    ins, out = Instantiator(ip.reg), []
    w = ip.fresh('w', ip.reg.by_decl[s.decl().name()].var.sort())
    bs, bt = val(ins._b(s, w, out)), val(ins._b(t, w, out))
    for f in out: ip.assume(f)
    if steps is not None: steps(w)
    goal = bs == bt if hyp is None else z3.Implies(hyp, bs == bt)
    if not quick(ip, goal): return False
    ip.assume(val(s) == val(t) if hyp is None else z3.Implies(hyp, val(s) == val(t))); return True
def zero(ip, s, hyp=None, steps=None):
    """a sum of zeros is 0"""
    ins, out = Instantiator(ip.reg), []
    w = ip.fresh('w', ip.reg.by_decl[s.decl().name()].var.sort())
    b = ins._b(s, w, out)
    if steps is not None: steps(w)
    goal = z3.Implies(z3.And(*([hyp] if hyp is not None else []) + out), b == 0)
    if not quick(ip, goal): return False
    ip.assume(s == 0 if hyp is None else z3.Implies(hyp, s == 0)); return True
def symmetric(ip, n, f):
    """over all pairs i, j < n a symmetric f with f(i,i) = 0 adds up to twice its sum over the pairs i < j"""
    i, j = ip.fresh('i', z3.IntSort()), ip.fresh('j', z3.IntSort())
    if not (from_only([], f(i, j) == f(j, i)) and from_only([], f(i, i) == 0)): return None
    reg = ip.reg
    def both(g):
        a, b = reg.fresh_bound(z3.IntSort()), reg.fresh_bound(z3.IntSort())
        return reg.make('SUM', a, z3.And(a >= 0, a < n), reg.make('SUM', b, g(a, b), f(a, b), ()), ())
    full, half = both(lambda a, b: z3.And(b >= 0, b < n)), both(lambda a, b: z3.And(b > a, b < n))
    ip.assume(full == 2 * half)
    return full, half
def bounded(ip, s, terms, hyp=None, steps=None):
    """if every summand is at most a linear combination of the summands of other sums, the sum is at most that of the sums
    terms: (coefficient, sum) or (coefficient, size of a finite set, its characteristic function)"""
    ins, out = Instantiator(ip.reg), []
    w = ip.fresh('w', ip.reg.by_decl[s.decl().name()].var.sort())
    lhs = val(ins._b(s, w, out))
    rhs = tot = z3.RealVal(0)
    for t in terms:
        if len(t) == 2: rhs, tot = rhs + t[0] * val(ins._b(t[1], w, out)), tot + t[0] * val(t[1])
        else: rhs, tot = rhs + z3.If(t[2](w), t[0], z3.RealVal(0)), tot + t[0] * val(t[1])
    facts = list(out) + ([hyp] if hyp is not None else []) + (steps(w) if steps is not None else [])
    if not from_only(facts, lhs <= rhs): return False
    ip.assume(val(s) <= tot if hyp is None else z3.Implies(hyp, val(s) <= tot)); return True
def size(n): return z3.If(n > 0, n, z3.IntVal(0))
def atleast0(ip, s, steps=None):
    """a sum of non-negative terms is not negative"""
    ins, out = Instantiator(ip.reg), []
    w = ip.fresh('w', ip.reg.by_decl[s.decl().name()].var.sort())
    b = ins._b(s, w, out)
    known = steps(w) if steps is not None else []
    if not (from_only(out + known, b >= 0) or quick(ip, z3.Implies(z3.And(*out), b >= 0))): return False
    ip.assume(s >= 0); return True
