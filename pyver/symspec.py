"""Symbolic semantics of the specification language."""
from fractions import Fraction
import z3
from .vals import *

class Sym:
    symbolic = True
    def __init__(self, ip, old=None): self.ip, self.oldheap = ip, old
    def c(self, s): return z3.RealVal(Fraction(s))
    def _n(self, x, y):
        if is_int_kind(x) and is_int_kind(y): return zi(x), zi(y)
        return zr(x), zr(y)
    def eq(self, x, y):
        if isinstance(x, Obj) and isinstance(y, Obj): return x.term == y.term
        if is_boolv(x) and is_boolv(y): return zb(x) == zb(y)
        if isinstance(x, (str, Opq)) or isinstance(y, (str, Opq)): return z3.BoolVal(vkey(x) == vkey(y))
        if x is None or y is None:
            if x is y: return z3.BoolVal(True)
            o = x if y is None else y
            if isinstance(o, Obj): return o.term == null_of(o.fam)
            return z3.BoolVal(False)
        a, b = self._n(x, y); return a == b
    def le(self, x, y): a, b = self._n(x, y); return a <= b
    def lt(self, x, y): a, b = self._n(x, y); return a < b
    def ge(self, x, y): return self.le(y, x)
    def gt(self, x, y): return self.lt(y, x)
    xle, xlt, xge, xgt = le, lt, ge, gt
    def iff(self, a, b): return zb(a) == zb(b)
    def implies(self, a, b): return z3.Implies(zb(a), zb(b() if callable(b) and not is_z3(b) else b))
    def And(self, *a): return z3.And(*[zb(x) for x in a])
    def Or(self, *a): return z3.Or(*[zb(x) for x in a])
    def Not(self, a): return z3.Not(zb(a))
    def ite(self, c, a, b):
        a = a() if callable(a) and not is_z3(a) else a
        b = b() if callable(b) and not is_z3(b) else b
        return ite(zb(c), a, b)
    def mn(self, *a):
        r = a[0]
        for x in a[1:]: r = ite(self.lt(x, r), x, r)
        return r
    def mx(self, *a):
        r = a[0]
        for x in a[1:]: r = ite(self.lt(r, x), x, r)
        return r
    def abs_(self, x): return z3.If(zr(x) >= 0, zr(x), -zr(x))
    def div(self, a, b): return zr(a) / zr(b)
    def pow(self, x, y): return self.ip.world.ext.binop(self.ip, '**', x, y, 'specification', 'power')
    def real(self, x): return zr(x)
    def trunc(self, x):
        x = zr(x); return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
    def rss_reward(self, rss, pledge, stake): return self.ip.world.rss_reward(self.ip, rss, pledge, stake)
    def rss_threshold(self, rss, pledge): return self.ip.world.rss_threshold(self.ip, rss, pledge)
    def new(self, o, field): return self.ip.getfield(o, field)
    def get(self, o, field):
        """value on entry"""
        if self.oldheap is None: return self.ip.getfield(o, field)
        return self.old(lambda: self.ip.getfield(o, field))
    def old(self, thunk):
        """evaluate a specification expression in the heap on entry"""
        save = self.ip.heap
        self.ip.heap = dict(self.oldheap)
        try: return thunk()
        finally:
            for k, v in self.ip.heap.items(): save.setdefault(k, v)
            self.ip.heap = save
    def forall(self, sorts, fn, pats=None):
        """sorts: list of type names; fn(*vars)"""
        vs = []
        for t in sorts:
            self.ip.nq = getattr(self.ip, 'nq', 0) + 1
            vs.append(z3.Const('q%d' % self.ip.nq, sort_of(t)))
        args = [Obj(t, v, self.ip.world.exact_class(t), True) if t not in BASE else v for t, v in zip(sorts, vs)]
        body = fn(*args)
        return quant(vs, body, pats(*args) if pats is not None else [])

def strip(e):
    """triggers speak about the arrays below the updates"""
    if not z3.is_app(e) or e.num_args() == 0: return e
    if e.decl().kind() == z3.Z3_OP_STORE: return strip(e.arg(0))
    return e.decl()(*[strip(c) for c in e.children()])
def good_trigger(e, vs):
    ok = {z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_ANUM, z3.Z3_OP_ADD, z3.Z3_OP_SUB}
    def go(e):
        if not z3.is_app(e) or (e.decl().kind() not in ok): return False
        return all(go(c) for c in e.children())
    def has(e, v): return e.eq(v) or any(has(c, v) for c in e.children())
    return z3.is_app(e) and e.num_args() > 0 and go(e)
def quant(vs, body, pats):
    ps, seen = [], set()
    for p in pats:
        p = [strip(z3.simplify(x)) for x in (p if isinstance(p, (list, tuple)) else [p])]
        if not all(good_trigger(x, vs) for x in p): continue
        if not all(any(occurs(v, x) for x in p) for v in vs): continue
        key = tuple(x.get_id() for x in p)
        if key in seen: continue
        seen.add(key); ps.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
    return z3.ForAll(vs, body, patterns=ps)
def occurs(v, e): return e.eq(v) or any(occurs(v, c) for c in e.children())
