"""Finite aggregates (sums, counts, maxima, medians ...) over an abstract finite index set.

An aggregate over  {k : guard(k)} of elem(k)  is an application of a function symbol that is unique per
(kind, guard, elem) up to renaming of the bound variable and of the outer bound variables (its parameters).
Facts about aggregates are added only as ground instances of valid lemmas (listed in `lemmas_for`)."""
import itertools
import z3
from .vals import *

class Agg:
    def __init__(self, kind, decl, var, params, guard, elem, facts):
        self.kind, self.decl, self.var, self.params = kind, decl, var, params
        self.guard, self.elem, self.facts = guard, elem, facts

class Registry:
    def __init__(self):
        self.by_key, self.by_decl, self.bound = {}, {}, {}
        self.n = 0
    def fresh_bound(self, sort, name='k'):
        self.n += 1
        c = z3.Const('%s!b%d' % (name, self.n), sort)
        self.bound[c.get_id()] = c
        return c
    def reset(self):
        self.by_key.clear(); self.by_decl.clear(); self.bound.clear(); self.n = 0

    def _outer(self, es, var):
        seen, out = set(), []
        def go(e):
            if e.get_id() in seen: return
            seen.add(e.get_id())
            if z3.is_const(e) and e.get_id() in self.bound and not e.eq(var): out.append(e)
            for c in e.children(): go(c)
            if z3.is_quantifier(e): go(e.body())
        for e in es: go(e)
        return sorted(out, key=lambda c: c.decl().name())

    def make(self, kind, var, guard, elem, facts=(), res=None):
        """kind: SUM ISUM CNT MAX MIN MEDIAN CARD ..."""
        guard = z3.simplify(guard)
        elem = z3.simplify(elem) if elem is not None else z3.BoolVal(True)
        if kind == 'SUM' and elem.sort() == z3.RealSort():
            # linearity: what does not depend on the index is taken out of the sum
            parts = linear_parts(elem, var)
            if len(parts) != 1 or parts[0][0] is not None:
                tot = None
                for c, e in parts:
                    x = self.make('SUM', var, guard, e, facts, res) if e is not None else z3.ToReal(self.make('CNT', var, guard, None, facts))
                    if c is not None: x = c * x
                    tot = x if tot is None else tot + x
                return tot if tot is not None else z3.RealVal(0)
        if kind == 'CNT' and var.sort() == z3.IntSort():
            r = int_range(guard, var)
            if r is not None: return z3.If(r[1] >= r[0], r[1] - r[0], z3.IntVal(0))
        if kind == 'CNT':
            c = self.as_card(guard, var)
            if c is not None: return c
        params = self._outer([guard, elem], var)
        cv = z3.Const('cv!%s' % var.sort().name(), var.sort())
        cps = [z3.Const('cp!%d!%s' % (i, p.sort().name()), p.sort()) for i, p in enumerate(params)]
        sub = [(var, cv)] + list(zip(params, cps))
        g, e = z3.substitute(guard, *sub), z3.substitute(elem, *sub)
        g, e = z3.simplify(g), z3.simplify(e)
        fs = [z3.substitute(f, *sub) for f in facts]
        key = (kind, var.sort().name(), g.sexpr(), e.sexpr())
        if key not in self.by_key:
            self.n += 1
            rs = res if res is not None else (z3.IntSort() if kind in ('CNT', 'ISUM', 'CARD') else z3.RealSort())
            decl = z3.Function('%s!%d' % (kind, self.n), *[p.sort() for p in cps], rs) if cps else z3.Const('%s!%d' % (kind, self.n), rs).decl()
            a = Agg(kind, decl, cv, cps, g, e, [])
            self.by_key[key] = a; self.by_decl[decl.name()] = a
        a = self.by_key[key]
        have = {f.get_id() for f in a.facts}
        a.facts += [f for f in fs if f.get_id() not in have]
        return a.decl(*params)

    def as_card(self, guard, var):
        """the number of values a with #{k : g(k) and e(k) = a} > 0 is the number of different values e(k)"""
        x = guard
        if z3.is_not(x) and z3.is_app(x.arg(0)) and x.arg(0).decl().kind() == z3.Z3_OP_LE: c, zero = x.arg(0).arg(0), x.arg(0).arg(1)
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_GE and x.num_args() == 2: c, zero = x.arg(0), x.arg(1) - 1
        else: return None
        zero = z3.simplify(zero)
        if not (z3.is_int_value(zero) and zero.as_long() == 0) or not z3.is_app(c): return None
        a = self.by_decl.get(c.decl().name())
        if a is None or a.kind != 'CNT': return None
        pos = [i for i in range(c.num_args()) if c.arg(i).eq(var)]
        if len(pos) != 1 or any(occurs(var, c.arg(i)) for i in range(c.num_args()) if i != pos[0]): return None
        p = a.params[pos[0]]
        cs = a.guard.children() if z3.is_and(a.guard) else [a.guard]
        hit = [x for x in cs if z3.is_eq(x) and any(x.arg(i).eq(p) and not occurs(p, x.arg(1 - i)) for i in (0, 1))]
        rest = [x for x in cs if not any(x.eq(h) for h in hit)]
        if len(hit) != 1 or any(occurs(p, x) for x in rest): return None
        e = hit[0].arg(1) if hit[0].arg(0).eq(p) else hit[0].arg(0)
        k = self.fresh_bound(a.var.sort())
        sub = [(a.var, k)] + [(q, c.arg(i)) for i, q in enumerate(a.params) if i != pos[0]]
        return self.make('CARD', k, z3.substitute(z3.And(*rest) if rest else z3.BoolVal(True), *sub), z3.substitute(e, *sub), [z3.substitute(f, *sub) for f in a.facts if not occurs(p, f)])
    # ---- lemma instantiation
    def apps(self, exprs):
        if not self.by_decl: return []
        seen, out = set(), {}
        def go(e):
            if e.get_id() in seen: return
            seen.add(e.get_id())
            if z3.is_app(e):
                n = e.decl().name()
                if n in self.by_decl: out[e.get_id()] = e
            for c in e.children(): go(c)
            if z3.is_quantifier(e): pass
        for e in exprs: go(e)
        # drop apps containing de-Bruijn variables
        def closed(e):
            if z3.is_var(e): return False
            return all(closed(c) for c in e.children())
        return [e for e in out.values() if closed(e)]
    def ground_terms(self, exprs, sort, limit=12):
        seen, out = set(), []
        def go(e):
            if e.get_id() in seen or z3.is_quantifier(e): return
            seen.add(e.get_id())
            if e.sort() == sort and z3.is_const(e) and e.num_args() == 0 and not z3.is_var(e) \
                    and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.get_id() not in {t.get_id() for t in out}:
                out.append(e)
            for c in e.children(): go(c)
        for e in exprs: go(e)
        return out[:limit]
    def inst(self, app, t):
        a = self.by_decl[app.decl().name()]
        sub = [(a.var, t)] + [(p, app.arg(i)) for i, p in enumerate(a.params)]
        g, e = z3.substitute(a.guard, *sub), z3.substitute(a.elem, *sub)
        fs = [z3.Implies(g, z3.substitute(f, *sub)) for f in a.facts]
        return g, e, fs

def int_range(g, var):
    """guard lo <= var < hi -> (lo, hi)"""
    if z3.is_eq(g) and ((g.arg(0).eq(var) and not occurs(var, g.arg(1))) or (g.arg(1).eq(var) and not occurs(var, g.arg(0)))): return z3.IntVal(0), z3.IntVal(1)
    if not z3.is_and(g) or g.num_args() != 2: return None
    lo = hi = None
    for c in g.children():
        neg = False
        if z3.is_not(c): neg, c = True, c.arg(0)
        if not z3.is_app(c) or c.num_args() != 2: return None
        k, x, y = c.decl().kind(), c.arg(0), c.arg(1)
        if k == z3.Z3_OP_GE: k, x, y = z3.Z3_OP_LE, y, x
        if k == z3.Z3_OP_GT: k, x, y = z3.Z3_OP_LT, y, x
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT): return None
        if neg: k, x, y = (z3.Z3_OP_LT if k == z3.Z3_OP_LE else z3.Z3_OP_LE), y, x
        # x <= y or x < y, linear in var
        d = x - y
        at = lambda v: z3.substitute(d, (var, v))
        co = z3.simplify(at(var + 1) - at(var), som=True)
        if not z3.is_int_value(co) or abs(co.as_long()) != 1: return None
        d0 = at(z3.IntVal(0))
        if co.as_long() == 1:       # var <= -d0
            if hi is not None: return None
            hi = -d0 + 1 if k == z3.Z3_OP_LE else -d0
        else:                       # var >= d0
            if lo is not None: return None
            lo = d0 if k == z3.Z3_OP_LE else d0 + 1
    return None if lo is None or hi is None else (z3.simplify(lo), z3.simplify(hi))
def linear_parts(e, var):
    """e = sum of c_i * e_i with c_i independent of var -> [(c_i or None for 1, e_i or None for 1)]"""
    if not occurs(var, e):
        if z3.is_rational_value(e):
            f = e.as_fraction()
            if f == 0: return []
            return [(None if f == 1 else e, None)]
        return [(e, None)]
    k = e.decl().kind() if z3.is_app(e) else None
    def mul(c, d): return d if c is None else c if d is None else c * d
    if k == z3.Z3_OP_ADD: return gather([p for x in e.children() for p in linear_parts(x, var)])
    if k == z3.Z3_OP_SUB:
        a = e.children()
        return gather(linear_parts(a[0], var) + [(mul(z3.RealVal(-1), c), x) for y in a[1:] for c, x in linear_parts(y, var)])
    if k == z3.Z3_OP_UMINUS: return [(mul(z3.RealVal(-1), c), x) for c, x in linear_parts(e.arg(0), var)]
    if k == z3.Z3_OP_DIV and not occurs(var, e.arg(1)):
        d = z3.RealVal(1) / e.arg(1)
        return [(mul(c, d), x) for c, x in linear_parts(e.arg(0), var)]
    if k == z3.Z3_OP_MUL:
        inn = [x for x in e.children() if occurs(var, x)]
        out = [x for x in e.children() if not occurs(var, x)]
        if len(inn) == 1:
            d = None
            for x in out: d = mul(d, x)
            if d is None: return [(None, e)]
            return [(mul(d, c), x) for c, x in linear_parts(inn[0], var)]
        if out:
            d = None
            for x in out: d = mul(d, x)
            m = inn[0]
            for x in inn[1:]: m = m * x
            return [(d, m)]
        # (a + b) * c: expand products of sums
        for i, x in enumerate(inn):
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
                rest = inn[:i] + inn[i + 1:]
                m = rest[0]
                for y in rest[1:]: m = m * y
                ps = []
                for c, y in linear_parts(x, var): ps += [(mul(c, d), w) for d, w in linear_parts(m if y is None else y * m, var)]
                return gather(ps)
    return [(None, e)]
def gather(ps):
    out = []
    for c, x in ps:
        for i, (d, y) in enumerate(out):
            if (x is None and y is None) or (x is not None and y is not None and x.eq(y)):
                one = z3.RealVal(1)
                out[i] = (z3.simplify((c if c is not None else one) + (d if d is not None else one)), y); break
        else: out.append((c, x))
    return [(c, x) for c, x in out if not (c is not None and z3.is_rational_value(c) and c.as_fraction() == 0)]
def occurs(v, e):
    return e.eq(v) or any(occurs(v, c) for c in e.children())

class Instantiator:
    """adds lemma instances for the aggregates occurring in a query, round by round"""
    def __init__(self, reg):
        self.reg, self.done, self.nw = reg, set(), 0
        self.witnesses = {}
    def wit(self, sort):
        self.nw += 1
        w = z3.Const('w!%d' % self.nw, sort)
        self.witnesses.setdefault(sort.name(), []).append(w)
        return w
    def points(self, app, sort, limit=3):
        """indices of the updates (Store) inside the summand"""
        a = self.reg.by_decl[app.decl().name()]
        sub = [(p, app.arg(i)) for i, p in enumerate(a.params)]
        out, seen = [], set()
        def go(e):
            if e.get_id() in seen or z3.is_quantifier(e) or len(out) >= limit: return
            seen.add(e.get_id())
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_STORE and e.arg(1).sort() == sort and not any(e.arg(1).eq(x) for x in out):
                if not occurs(a.var, e.arg(1)): out.append(e.arg(1))
            for c in e.children(): go(c)
        for e in (a.guard, a.elem): go(z3.substitute(e, *sub) if sub else e)
        return out
    def _b(self, app, t, out):
        """summand of SUM-like app at t (0 outside guard)"""
        g, e, fs = self.reg.inst(app, t)
        out += fs
        a = self.reg.by_decl[app.decl().name()]
        if a.kind == 'CNT': return z3.If(g, z3.IntVal(1), z3.IntVal(0))
        return z3.If(g, e, z3.IntVal(0) if e.sort() == z3.IntSort() else z3.RealVal(0))
    def round(self, exprs):
        reg, out = self.reg, []
        apps = reg.apps(exprs)
        SUMS = ('SUM', 'CNT', 'ISUM')
        bysort = {}
        for a in apps:
            d = reg.by_decl[a.decl().name()]
            bysort.setdefault(d.var.sort().name(), []).append(a)
        for sname, aps in bysort.items():
            sort = reg.by_decl[aps[0].decl().name()].var.sort()
            aps = aps[:16]      # the first ones are those of the query itself
            for s in aps:
                d = reg.by_decl[s.decl().name()]
                if ('self', s.get_id()) in self.done: continue
                self.done.add(('self', s.get_id()))
                if d.kind in SUMS:
                    if d.kind == 'CNT': out.append(s >= 0)
                    w = self.wit(sort); b = self._b(s, w, out)
                    out.append(z3.Or(b < 0, s >= 0))
                    w = self.wit(sort); b = self._b(s, w, out)
                    out.append(z3.Or(b > 0, s <= 0))
                elif d.kind in ('MAX', 'MIN'):
                    w = self.wit(sort); g, e, fs = reg.inst(s, w); out += fs
                    # attained somewhere if the domain is non-empty: domain non-empty <=> exists witness
                    self_ne = z3.Const('ne!%d' % self.nw, z3.BoolSort())
                    out.append(z3.Implies(self_ne, z3.And(g, e == s)))
                    d_ne = self_ne
                    self.done.add(('ne', s.get_id()))
                    setattr(self, 'ne_%d' % s.get_id(), d_ne)
                elif d.kind == 'CARD':
                    out.append(s >= 0)
            # pairs
            for s, t in itertools.combinations(aps, 2):
                key = ('pair', min(s.get_id(), t.get_id()), max(s.get_id(), t.get_id()))
                if key in self.done: continue
                self.done.add(key)
                ds, dt = reg.by_decl[s.decl().name()], reg.by_decl[t.decl().name()]
                if ds.kind in SUMS and dt.kind in SUMS:
                    w = self.wit(sort)
                    out.append(z3.Or(self._b(s, w, out) > self._b(t, w, out), s <= t))
                    w = self.wit(sort)
                    out.append(z3.Or(self._b(t, w, out) > self._b(s, w, out), t <= s))
                    # summands that differ at one point only (updates of a dictionary)
                    for j in self.points(s, sort) + self.points(t, sort):
                        if ('pt', key, j.get_id()) in self.done: continue
                        self.done.add(('pt', key, j.get_id()))
                        w = self.wit(sort)
                        out.append(z3.Or(z3.And(w != j, self._b(s, w, out) != self._b(t, w, out)), s - t == self._b(s, j, out) - self._b(t, j, out)))
                elif ds.kind == dt.kind and ds.elem.sort() == dt.elem.sort():
                    w = self.wit(sort)
                    g1, e1, f1 = reg.inst(s, w); g2, e2, f2 = reg.inst(t, w)
                    out += f1 + f2
                    out.append(z3.Or(g1 != g2, z3.And(g1, e1 != e2), s == t))
                elif 'CARD' in (ds.kind, dt.kind) and 'CNT' in (ds.kind, dt.kind):
                    c, n = (s, t) if ds.kind == 'CARD' else (t, s)
                    w = self.wit(sort)
                    gc, _, f1 = reg.inst(c, w); gn, _, f2 = reg.inst(n, w); out += f1 + f2
                    # same domain: 0 < CARD <= CNT unless empty
                    out.append(z3.Or(gc != gn, z3.And(c <= n, (c == 0) == (n == 0))))
            # member lemmas at ground terms
            terms = reg.ground_terms(list(exprs) + out, sort) + self.witnesses.get(sname, [])
            tseen = set()
            for t in terms[:24]:
                if t.get_id() in tseen: continue
                tseen.add(t.get_id())
                for s in aps:
                    if ('mem', s.get_id(), t.get_id()) in self.done: continue
                    self.done.add(('mem', s.get_id(), t.get_id()))
                    d = reg.by_decl[s.decl().name()]
                    if d.kind == 'CNT':
                        out.append(s >= self._b(s, t, out))
                    elif d.kind in ('MAX', 'MIN'):
                        g, e, fs = reg.inst(s, t); out += fs
                        out.append(z3.Implies(g, e <= s if d.kind == 'MAX' else e >= s))
                        ne = getattr(self, 'ne_%d' % s.get_id(), None)
                        if ne is not None: out.append(z3.Implies(g, ne))
                    elif d.kind == 'SUM':
                        # all summands >= 0  =>  total >= each
                        w = self.wit(sort)
                        out.append(z3.Or(self._b(s, w, out) < 0, s >= self._b(s, t, out)))
        return out

def linear(ip, s, terms):
    """lemma: if the summand of s is everywhere the linear combination of the summands of the given sums, so is the sum.
    terms: [(coefficient, sum)]"""
    reg, out = ip.reg, []
    ins = Instantiator(reg)
    d = reg.by_decl[s.decl().name()]
    w = ip.fresh('w', d.var.sort())
    lhs = z3.ToReal(ins._b(s, w, out)) if d.kind in ('CNT', 'ISUM') else ins._b(s, w, out)
    r1, r2 = z3.RealVal(0), z3.RealVal(0)
    for c, t in terms:
        b = ins._b(t, w, out)
        if b.sort() == z3.IntSort(): b = z3.ToReal(b)
        r1 = r1 + c * b
        r2 = r2 + c * (z3.ToReal(t) if t.sort() == z3.IntSort() else t)
    for f in out: ip.assume(f)
    ip.assume(z3.Or(lhs != r1, (z3.ToReal(s) if s.sort() == z3.IntSort() else s) == r2))
