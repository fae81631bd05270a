"""Loops over symbolic collections: automatic summaries (`fold`) and loop invariants (`LoopInv`)."""
import ast
import z3
from .vals import *
from .source import *
from .ext import MUTATORS
from .symspec import quant

# ------------------------------------------------------------------ helpers
def assigned_names(body):
    """local names the statements may assign (comprehension targets and nested functions are scopes of their own)"""
    out = []
    def go(n):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda, ast.FunctionDef)):
            if isinstance(n, ast.FunctionDef) and n.name not in out: out.append(n.name)
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr): raise OutOfSubset('named expression in a nested scope')
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out: out.append(n.id)
        for c in ast.iter_child_nodes(n): go(c)
    for st in body: go(st)
    return out

def mentions(ip, e, pred):
    """does the term (looking through the definitions of aggregates) contain a subterm satisfying pred?"""
    seen = set()
    def go(e):
        if e.get_id() in seen: return False
        seen.add(e.get_id())
        if pred(e): return True
        if z3.is_quantifier(e): return go(e.body())
        if z3.is_app(e):
            a = ip.reg.by_decl.get(e.decl().name())
            if a is not None and (go(a.guard) or go(a.elem) or any(go(f) for f in a.facts)): return True
        return any(go(c) for c in e.children())
    return go(e)

def terms_of(v):
    """z3 terms inside a value"""
    if is_z3(v): return [v]
    if isinstance(v, Obj): return [v.term]
    if isinstance(v, (tuple, list)): return [t for x in v for t in terms_of(x)]
    if isinstance(v, PList): return [t for x in v.items for t in terms_of(x)] + [t for c in v.segs or [] for t in terms_of(c)]
    if isinstance(v, Comp): return [v.guard] + terms_of(v.elem)
    if isinstance(v, FDict): return [v.has] + terms_of(v.val)
    if isinstance(v, PDict):
        return [t for x in v.items.values() for t in terms_of(x)] + (terms_of(v.ref) if v.ref else []) + (terms_of(v.fd) if v.fd else [])
    if isinstance(v, Opq): return [t for x in v.parts for t in terms_of(x)]
    if isinstance(v, XFloat): return [v.val, v.nan, v.pinf, v.ninf]
    return []

class Rec:
    """records what a loop body does to lists and dictionaries that exist before the loop"""
    def __init__(self, outer):
        self.stamp, self.outer, self.events, self.reads = serial(), outer, [], {}
        self.all_reads = {}
    def is_outer(self, o): return isinstance(o, (PList, PDict, PSet)) and o.serial <= self.stamp
    def read(self, o):
        if isinstance(o, DView): o = o.d
        if self.is_outer(o): self.all_reads[id(o)] = o
        if self.outer is not None: self.outer.read(o)
    def method(self, ip, o, name, a, kw):
        if isinstance(o, PDict) and o.ref is not None: return NotImplemented
        if self.is_outer(o) and name in MUTATORS:
            if isinstance(o, PList) and name == 'append': self.events.append(('append', o, a[0])); return None
            if isinstance(o, PSet) and name == 'add': self.events.append(('add', o, a[0])); return None
            raise OutOfSubset('%s on an outer collection in a loop' % name)
        if self.is_outer(o) and name not in ('keys', 'values', 'items'): self.read(o)
        return NotImplemented
    def setitem(self, ip, o, k, v):
        if isinstance(o, PDict) and o.ref is not None: return False
        if not self.is_outer(o): return False
        self.events.append(('set', o, k, v)); return True
    def aug(self, ip, o, k, op, st):
        if isinstance(o, PDict) and o.ref is not None: return False
        if not self.is_outer(o): return False
        if op not in ('+', '-'): raise OutOfSubset('augmented assignment to an outer collection')
        e = ip.ev(st.value)
        if op == '-': e = ip.binop('-', 0, e, st)
        if not is_num(e): raise OutOfSubset('augmented assignment of %r' % (e,))
        if isinstance(o, PDict) and o.default is None:
            save, self.all_reads = self.all_reads, {}
            c = ip.world.ext.contains(ip, o, k, '')
            self.all_reads = save
            ip.require(ip.truth(c), 'KeyError', 'augmented assignment at ' + ip.loc(st))
        elif isinstance(o, PList):
            save, self.all_reads = self.all_reads, {}
            n = ip.world.ext.length(ip, o)
            self.all_reads = save
            ip.require(z3.And(zi(k) >= 0, zi(k) < z(n)), 'IndexError', 'augmented assignment at ' + ip.loc(st))
        self.events.append(('aug', o, k, e)); return True

def numkind(e):
    """'int' / 'real' for a per-iteration increment (constants included)"""
    return 'int' if is_int_kind(e) else 'real'

def fold(ip, st, c):
    """summary of `for target in <comp c>: body` for bodies whose iterations only add to accumulators, append to lists,
    add to dictionary entries, and write fields of objects belonging to the iteration"""
    for n in ast.walk(ast.Module(st.body, [])):
        if isinstance(n, (ast.Return, ast.Break)): raise OutOfSubset('loop with an early exit and no invariant at ' + ip.loc(st))
    fr = ip.frames[-1]
    env0 = dict(fr.env)
    names = assigned_names(st.body)
    tnames = assigned_names([ast.Assign([st.target], ast.Constant(0))])
    accs, ph = [], {}
    for n in names:
        if n in tnames or n not in env0: continue
        v = env0[n]
        if is_num(v): ph[n] = z3.Const(ip.fresh_name('acc_' + n), z3.RealSort()); accs.append(n)
        elif is_boolv(v): ph[n] = z3.Const(ip.fresh_name('acc_' + n), z3.BoolSort()); accs.append(n)
    phids = {p.get_id() for p in ph.values()}
    hasph = lambda e: mentions(ip, e, lambda t: t.get_id() in phids)
    outer = ip.rec
    recs = []
    heap_before = dict(ip.heap)
    def thunk():
        r = Rec(outer); recs.append(r)
        ip.rec = r
        fr.env.clear(); fr.env.update(env0); fr.env.update(ph)
        from .interp import Cnt
        try:
            ip.assign(st.target, c.elem)
            try: ip.block(st.body)
            except Cnt: pass
            return ({n: fr.env.get(n) for n in names}, r.events, r.all_reads)
        finally: ip.rec = outer
    ip.bounds.append(c.var)
    pc_save = list(ip.pc)
    log0, ip.oblog = ip.oblog, []
    try:
        ip.pc = ip.pc + [('f', c.guard)] + [('f', f) for f in c.facts]
        res = ip.lift(thunk, allow_heap=True)
    finally:
        ip.bounds.pop(); ip.pc = pc_save
        log, ip.oblog = ip.oblog, log0
        if log0 is not None: log0 += log
        fr.env.clear(); fr.env.update(env0)
    if not res:
        # no path through the body completes: the collection must be empty
        ip.assume(ip.reg.make('CNT', c.var, c.guard, None, c.facts) == 0)
        return
    facts = list(c.facts) + [f for r in res for f in r[2]]
    for r in res:
        if hasph(r[0]) or any(hasph(f) for f in r[2]): raise OutOfSubset('loop whose branches depend on an accumulator at ' + ip.loc(st))
    # ---- collections
    touched = {}
    reads = {}
    for r in res:
        reads.update(r[1][2])
        for ev in r[1][1]:
            touched[id(ev[1])] = ev[1]
            if any(hasph(t) for t in terms_of(ev[2:])): raise OutOfSubset('loop that stores an accumulator at ' + ip.loc(st))
    for i in touched:
        if i in reads: raise OutOfSubset('loop that reads a collection it changes at ' + ip.loc(st))
        if outer is not None and outer.is_outer(touched[i]): raise OutOfSubset('nested loop changes a collection of an outer loop at ' + ip.loc(st))
        if ip.lift_stamp is not None and touched[i].serial <= ip.lift_stamp and outer is None: raise OutOfSubset('side effect under a comprehension at ' + ip.loc(st))
    # ---- heap writes first (they may veto)
    heap_merge(ip, st, c, res, facts, heap_before, log)
    for o in touched.values():
        evs = [[e for e in r[1][1] if e[1] is o] for r in res]
        kinds = {e[0] for l in evs for e in l}
        if kinds == {'append'}:
            if any(len(l) > 1 for l in evs): raise OutOfSubset('several appends per iteration at ' + ip.loc(st))
            conds = [r[0] for r, l in zip(res, evs) if l]
            v = None
            for r, l in reversed(list(zip(res, evs))):
                if l: v = l[0][2] if v is None else ite(r[0], l[0][2], v)
            every = all(evs)
            g = c.guard if every else z3.And(c.guard, z3.Or(*conds))
            if o.segs is None: o.segs = []
            o.segs.append(Comp(c.var, g, v, facts, c.base if every else None, c.lo if every else None, c.hi if every else None))
        elif kinds == {'aug'}: group_by(ip, st, c, o, res, evs, facts)
        elif kinds == {'set'}: dict_fill(ip, st, c, o, res, evs, facts)
        else: raise OutOfSubset('loop that changes a collection in several ways at ' + ip.loc(st))
    # ---- scalars
    for n in names:
        if n in tnames: fr.env.pop(n, None); continue
        if n in accs:
            p = ph[n]
            if z3.is_bool(p):
                vals = [zb(r[1][0][n]) for r in res]
                if all(x.eq(p) for x in vals): continue
                if all(x.eq(p) or z3.is_true(z3.simplify(x)) for x in vals):
                    cs = [r[0] for r, x in zip(res, vals) if not x.eq(p)]
                    fr.env[n] = z3.Or(zb(env0[n]), ip.reg.make('CNT', c.var, z3.And(c.guard, z3.Or(*cs)), None, facts) > 0); continue
                if all(x.eq(p) or z3.is_false(z3.simplify(x)) for x in vals):
                    cs = [r[0] for r, x in zip(res, vals) if not x.eq(p)]
                    fr.env[n] = z3.And(zb(env0[n]), ip.reg.make('CNT', c.var, z3.And(c.guard, z3.Or(*cs)), None, facts) == 0); continue
                raise OutOfSubset('flag in a loop at ' + ip.loc(st))
            incs = []
            for r in res:
                x = r[1][0][n]
                if not is_num(x): raise OutOfSubset('accumulator changes its type at ' + ip.loc(st))
                d = z3.simplify(zr(x) - p, som=True)
                if hasph(d): d = z3.simplify(d, som=True, arith_lhs=True)
                if hasph(d):
                    incs = None; break
                incs.append(d)
            if incs is None:
                fr.env[n] = extremum(ip, st, c, n, p, res, env0[n], facts); continue
            e = incs[-1]
            for r, x in zip(reversed(res[:-1]), reversed(incs[:-1])): e = z3.If(r[0], x, e)
            ei = as_int(e)
            if z3.is_rational_value(e) and e.as_fraction() == 0: fr.env[n] = env0[n]; continue
            tot = ip.reg.make('ISUM', c.var, c.guard, ei, facts) if ei is not None and is_int_kind(env0[n]) else ip.reg.make('SUM', c.var, c.guard, e, facts)
            fr.env[n] = ip.binop('+', env0[n], tot, st)
        elif n in env0:
            if all(r[1][0][n] is env0[n] for r in res): fr.env[n] = env0[n]
            else: fr.env.pop(n, None)      # its value after the loop is not described: any use of it is outside the subset
        else: fr.env.pop(n, None)

def as_int(e):
    """the integer term equal to a real term that is visibly integral"""
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return z3.IntVal(int(f)) if f.denominator == 1 else None
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_TO_REAL: return e.arg(0)
        if k == z3.Z3_OP_ITE:
            a, b = as_int(e.arg(1)), as_int(e.arg(2))
            return None if a is None or b is None else z3.If(e.arg(0), a, b)
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
            cs = [as_int(x) for x in e.children()]
            if any(x is None for x in cs): return None
            r = cs[0]
            for x in cs[1:]: r = r + x if k == z3.Z3_OP_ADD else r * x if k == z3.Z3_OP_MUL else r - x
            return r
    return None

def extremum(ip, st, c, n, p, res, init, facts):
    raise OutOfSubset('accumulator %s is not a sum at %s' % (n, ip.loc(st)))

def group_by(ip, st, c, o, res, evs, facts):
    """o[key(i)] += e(i)"""
    items = [(r[0], k, e) for r, l in zip(res, evs) for (_, _, k, e) in l]
    ints = all(is_int_kind(e) for _, _, e in items)
    ks = ip.type_of(items[0][1])
    if any(ip.type_of(k) != ks for _, k, _ in items): raise OutOfSubset('keys of several types')
    def delta(kv):
        tot = None
        for cond, k, e in items:
            g = z3.And(c.guard, cond, ip.unwrap(k, ks) == kv)
            if ints and z3.is_int_value(z(e)) and z(e).as_long() == 1: s = ip.reg.make('CNT', c.var, g, None, facts)
            elif ints: s = ip.reg.make('ISUM', c.var, g, zi(e), facts)
            else: s = ip.reg.make('SUM', c.var, g, zr(e), facts)
            tot = s if tot is None else tot + s
        return tot
    def hit(kv):
        return z3.Or(*[ip.reg.make('CNT', c.var, z3.And(c.guard, cond, ip.unwrap(k, ks) == kv), None, facts) > 0 for cond, k, _ in items])
    if isinstance(o, PList):
        if o.items or not o.segs or len(o.segs) != 1 or o.segs[0].base is None or o.segs[0].base[0] != 'range' or o.segs[0].lo != 0: raise OutOfSubset('list of counters at ' + ip.loc(st))
        s = o.segs[0]
        o.segs = [Comp(s.var, s.guard, ip.binop('+', s.elem, delta(s.var), st), s.facts, s.base, s.lo, s.hi)]
        return
    if o.items: raise OutOfSubset('dictionary of counters with fixed entries at ' + ip.loc(st))
    if o.fd is not None:
        f = o.fd
        nf = FDict(f.ktype, f.var, f.has if f.default is None and o.default is None else z3.Or(f.has, hit(f.var)), ip.binop('+', f.val, delta(f.var), st), f.vtype, f.default)
        nf.facts = getattr(f, 'facts', [])
        o.fd = nf
        return
    if o.default is None: raise OutOfSubset('dictionary of counters at ' + ip.loc(st))
    d0 = ip.call(o.default, [], {})
    kv = ip.reg.fresh_bound(sort_of(ks))
    o.fd = FDict(ks, kv, hit(kv), ip.binop('+', d0, delta(kv), st), None, None)
    o.fd.facts = []

def dict_fill(ip, st, c, o, res, evs, facts):
    """o[key(i)] = v(i) with key(i) = i"""
    if not isinstance(o, PDict) or o.items or o.fd is not None: raise OutOfSubset('dictionary filled in a loop at ' + ip.loc(st))
    if any(len(l) > 1 for l in evs): raise OutOfSubset('several assignments per iteration at ' + ip.loc(st))
    k = v = None
    for r, l in reversed(list(zip(res, evs))):
        if l: k, v = (l[0][2], l[0][3]) if v is None else (ite(r[0], l[0][2], k), ite(r[0], l[0][3], v))
    every = all(evs)
    g = c.guard if every else z3.And(c.guard, z3.Or(*[r[0] for r, l in zip(res, evs) if l]))
    o.fd = ip.comp_to_fdict(Comp(c.var, g, (k, v), facts), ip.loc(st))

def chain(arr, base):
    """Store(...Store(base, t1, v1)..., tn, vn) -> [(t1, v1)...]"""
    out = []
    while not arr.eq(base):
        if not (z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE): return None
        out.append((arr.arg(1), arr.arg(2))); arr = arr.arg(0)
    return list(reversed(out))

def heap_merge(ip, st, c, res, facts, before, log=()):
    keys = []
    for r in res:
        for k, a in r[3].items():
            base = before.get(k)
            if base is None: base = ip.heap0.get(k)
            if base is None: continue
            if not a.eq(base) and k not in keys: keys.append(k)
    if not keys: return
    where = ip.loc(st)
    plan = []
    mod = {}
    for k in keys:
        base = before.get(k, ip.heap0[k])
        addr, vals = None, []
        for r in res:
            a = r[3].get(k, base)
            ch = chain(a, base)
            if ch is None: raise OutOfSubset('heap change in a loop is not a write per iteration at ' + where)
            v = None
            for t, x in ch:
                if addr is None: addr = t
                elif not t.eq(addr):
                    save = ip.pc; ip.pc = ip.pc + [('f', c.guard)] + [('f', f) for f in c.facts]
                    same = ip.valid(t == addr); ip.pc = save
                    if not same: raise OutOfSubset('a loop writes several objects per iteration at ' + where)
                v = z3.simplify(x)
            vals.append(v)
        plan.append((k, base, addr, vals)); mod[base.get_id()] = addr
    # fields of one object that only accumulate
    accs = {base.get_id() for k, base, addr, _ in plan if not mentions(ip, addr, lambda t: t.eq(c.var)) and base.sort().range().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT)}
    # the values written must not read what other iterations write (objects that existed before the loop differ from those created in it)
    created, fams = {}, {}
    def under(goal):
        save = ip.pc; ip.pc = ip.pc + [('f', c.guard)] + [('f', f) for f in facts]
        try: return ip.valid(goal)
        finally: ip.pc = save
    def is_new(base, fam):
        if base.get_id() not in created:
            al = before.get((fam, '$alive'), ip.heap0.get((fam, '$alive')))
            created[base.get_id()] = al if al is not None and under(z3.Not(z3.Select(al, mod[base.get_id()]))) else None
        return created[base.get_id()]
    for k, base, _, _ in plan: fams[base.get_id()] = k[0]
    def old_read(e):
        b = e.arg(0)
        al = is_new(b, fams[b.get_id()])
        return al is not None and under(z3.Select(al, e.arg(1)))
    def scan(e, seen):
        if e.get_id() in seen: return False
        seen.add(e.get_id())
        if e.get_id() in mod: return True
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT and e.arg(0).get_id() in mod and e.arg(0).get_id() not in accs and e.arg(1).eq(mod[e.arg(0).get_id()]):
            return scan(e.arg(1), seen)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT and e.arg(0).get_id() in mod and e.arg(0).get_id() not in accs and old_read(e): return scan(e.arg(1), seen)
        if z3.is_quantifier(e): return scan(e.body(), seen)
        if z3.is_app(e):
            a = ip.reg.by_decl.get(e.decl().name())
            if a is not None and (scan(a.guard, seen) or scan(a.elem, seen)): return True
        return any(scan(x, seen) for x in e.children())
    for r in res:
        ts = [r[0]] + terms_of([v for v in r[1][0].values() if is_z3(v) or isinstance(v, Obj)]) + [t for ev in r[1][1] for t in terms_of(ev[2:])]
        for t in ts:
            if scan(z3.simplify(t), set()): raise OutOfSubset('iterations of a loop depend on each other through the heap at ' + where)
    for t in list(log) + list(facts):
        if scan(t, set()): raise OutOfSubset('an obligation in a loop depends on what other iterations write at ' + where)
    new = {}
    for k, base, addr, vals in plan:
        fam = k[0]
        if base.get_id() in accs:
            now = z3.Select(base, addr)
            inc = None
            for r, x in reversed(list(zip(res, vals))):
                d = z3.simplify((x - now) if x is not None else (now - now), som=True)
                if scan(d, set()): raise OutOfSubset('a field that several iterations write does not just accumulate at ' + where)
                inc = d if inc is None else (inc if inc.eq(d) else z3.If(r[0], d, inc))
            if inc.sort() == z3.IntSort():
                tot = ip.reg.make('CNT', c.var, c.guard, None, facts) if z3.is_int_value(inc) and inc.as_long() == 1 else ip.reg.make('ISUM', c.var, c.guard, inc, facts)
            else: tot = ip.reg.make('SUM', c.var, c.guard, inc, facts)
            new[k] = z3.Store(base, addr, now + tot); continue
        v = None
        for r, x in reversed(list(zip(res, vals))):
            x = z3.Select(base, addr) if x is None else x
            v = x if v is None else (v if v.eq(x) else z3.If(r[0], x, v))
        if scan(v, set()): raise OutOfSubset('iterations of a loop depend on each other through the heap at ' + where)
        k1, k2 = z3.Const(ip.fresh_name('it1'), c.var.sort()), z3.Const(ip.fresh_name('it2'), c.var.sort())
        sub = lambda e, t: z3.substitute(e, (c.var, t))
        ip.oblige('iterations write different objects (%s.%s) at %s' % (k[0], k[1], where),
                  z3.Implies(z3.And(sub(c.guard, k1), sub(c.guard, k2), *[sub(f, kk) for f in facts for kk in (k1, k2)], sub(addr, k1) == sub(addr, k2)), k1 == k2), assume=False)
        A1 = ip.fresh('H_%s_%s' % k, base.sort())
        inv = z3.Function(ip.fresh_name('iter_of_' + fam), fam_sort(fam), c.var.sort())
        o = z3.Const('o_' + fam, fam_sort(fam))
        io = inv(o)
        allf = z3.And(*facts) if facts else z3.BoolVal(True)
        ip.assume(quant([c.var], z3.Implies(c.guard, z3.And(inv(addr) == c.var, z3.Select(A1, addr) == v, allf)), [z3.Select(A1, addr), addr]))
        ip.assume(quant([o], z3.Implies(z3.Not(z3.And(sub(c.guard, io), sub(addr, io) == o)), z3.Select(A1, o) == z3.Select(base, o)), [z3.Select(A1, o)]))
        new[k] = A1
    ip.heap.update(new)
    for k in list(new): ip.heap0.setdefault(k, before.get(k, new[k]))

# ------------------------------------------------------------------ sequences on the heap
def materialise_seq(ip, v, t):
    """list comprehension over a symbolic range -> list object (a fresh enumeration that keeps the order)"""
    T = t[2:-1]
    c = v.segs[0]
    l = ip.alloc(t)
    n = ip.fresh('len', z3.IntSort())
    arr = ip.fresh('listc', z3.ArraySort(z3.IntSort(), sort_of(T)))
    i, j = z3.Int(ip.fresh_name('i')), z3.Int(ip.fresh_name('j'))
    ip.assume(n >= 0)
    if c.var.sort() != z3.IntSort(): raise OutOfSubset('list of the entries of a dictionary stored on the heap')
    at = lambda k: z3.Select(arr, k)
    src = z3.Function(ip.fresh_name('src'), z3.IntSort(), z3.IntSort())
    idx = z3.Function(ip.fresh_name('idx'), z3.IntSort(), z3.IntSort())
    sub = lambda e, x: z3.substitute(e, (c.var, x))
    el = ip.unwrap(c.elem, T)
    fs = z3.And(*c.facts) if c.facts else z3.BoolVal(True)
    ip.assume(quant([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(sub(c.guard, src(i)), sub(fs, src(i)), at(i) == sub(el, src(i)), idx(src(i)) == i)), [at(i), src(i)]))
    ip.assume(quant([c.var], z3.Implies(c.guard, z3.And(idx(c.var) >= 0, idx(c.var) < n, src(idx(c.var)) == c.var)), [idx(c.var), el]))
    ip.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), src(i) < src(j)), patterns=[z3.MultiPattern(src(i), src(j))]))
    for f, x in (('at', arr), ('len', n), ('off', z3.IntVal(0))): ip.heap[(t, f)] = z3.Store(ip.harr(t, f), l.term, x)
    ip.ghost.setdefault('seqs', []).append(dict(list=l, src=src, idx=idx, comp=c, n=n))
    return l

# ------------------------------------------------------------------ loop invariants
class L:
    """what an invariant may talk about"""
    entry = False
    end = False           # at the end of an iteration
    def __init__(self, ip, env, pre_env, pre_heap, i=None, seen=None, elem=None, comp=None):
        self.ip, self.env, self.pre_env, self.pre_heap, self.i, self.seen, self.elem, self.comp = ip, env, pre_env, pre_heap, i, seen, elem, comp
    def var(self, n):
        if n not in self.env: raise OutOfSubset('the loop invariant speaks of a variable %s that does not exist' % n)
        v = self.env[n]
        return v.val if isinstance(v, MaybeVal) else v
    def maybe(self, n, t):
        """(is it bound?, its value)"""
        v = self.env.get(n)
        if v is None: return z3.BoolVal(False), self.ip.world.fresh_value(self.ip, t, n, nonnull=False)
        if isinstance(v, MaybeVal): return v.bound, v.val
        return z3.BoolVal(True), v
    def prevar(self, n):
        if n not in self.pre_env: raise OutOfSubset('the loop invariant speaks of a variable %s that does not exist' % n)
        return self.pre_env[n]
    def pre(self, thunk):
        ip = self.ip
        save = ip.heap; ip.heap = dict(self.pre_heap)
        try: return thunk()
        finally:
            for k, v in ip.heap.items(): save.setdefault(k, v)
            ip.heap = save
    def dom(self, k): return z3.substitute(self.comp.guard, (self.comp.var, k))

class LoopInv:
    """invariant of the nth loop of a function (source order): havoc what the body changes, assume the invariant, execute
    one arbitrary iteration and prove the invariant again.
    inv(S, a, L) -> [(name, condition)];  decreases(S, a, L) -> int term (while loops)"""
    def __init__(self, func, nth, inv, kind='for', dicts=None, lists=None, decreases=None, name=None, types=None, unrolled=False):
        self.unrolled = unrolled      # the loop runs over a fixed sequence: an arbitrary element of it is taken, case by case
        self.func, self.nth, self.inv, self.kind, self.dicts, self.lists, self.decreases = func, nth, inv, kind, dicts or {}, lists or {}, decreases
        self.name = name or '%s loop %d' % (func.split('.')[-1], nth)
        self.types = types or {}
    def match(self, ip, st, fr):
        if fr.func is None or fr.func.key != self.func: return False
        if isinstance(st, ast.For) != (self.kind == 'for'): return False
        n = 0
        for x in ast.walk(fr.func.node):
            pass
        loops = []
        def go(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.For, ast.While)): loops.append(c)
                if not isinstance(c, (ast.FunctionDef, ast.Lambda)): go(c)
        go(fr.func.node)
        return self.nth < len(loops) and loops[self.nth] is st
    # -- state
    def havoc_env(self, ip, fr, names, tag):
        for n in names:
            t = self.types.get(n)
            if n not in fr.env or isinstance(fr.env[n], MaybeVal):
                if t: fr.env[n] = MaybeVal(ip.fresh('bound_' + n, z3.BoolSort()), ip.world.fresh_value(ip, t, n, nonnull=False))
                else: fr.env.pop(n, None)
                continue
            v = fr.env[n]
            if t: fr.env[n] = ip.world.fresh_value(ip, t, n, nonnull=False)
            elif isinstance(v, (bool, z3.BoolRef)): fr.env[n] = ip.fresh(n, z3.BoolSort())
            elif is_num(v): fr.env[n] = ip.fresh(n, z3.IntSort() if is_int_kind(v) else z3.RealSort())
            elif isinstance(v, Obj): fr.env[n] = Obj(v.fam, ip.fresh(n, fam_sort(v.fam)), v.cls, v.nonnull)
            elif v is None:
                if not ip.silent: raise OutOfSubset('type of %s in the loop %s' % (n, self.name))
            else: raise OutOfSubset('loop changes %s = %r' % (n, v))
    def run(self, ip, st, it):
        from .interp import PathEnd, SymRaise, Brk, Cnt, Ret
        from .symspec import Sym
        from .spec import A
        fr = ip.frames[-1]
        if '*' in self.dicts or '*' in self.lists:
            # whatever they are called: the containers the loop changes
            for n in {x.id for st_ in st.body for x in ast.walk(st_) if isinstance(x, ast.Name)} | {x.id for x in ast.walk(getattr(st, 'test', st)) if isinstance(x, ast.Name)}:
                v = fr.env.get(n)
                if '*' in self.dicts and isinstance(v, PDict) and v.fd is None and v.ref is None: ip.materialise_dict(v, self.dicts['*'])
                if '*' in self.lists and isinstance(v, PList) and v.segs: fr.env[n] = ip.materialise_list(v, self.lists['*'])
        for n, t in self.dicts.items():
            if isinstance(fr.env.get(n), PDict): ip.materialise_dict(fr.env[n], t)
        for n, t in self.lists.items():
            if isinstance(fr.env.get(n), PList): fr.env[n] = ip.materialise_list(fr.env[n], t)
        S = Sym(ip, ip.ghost.get('entry'))
        a = ip.ghost.get('args')
        comp = None
        if self.kind == 'for':
            kind, seq = ip.iterate(it, st)
            if kind == 'concrete':
                if len(seq) > 0 and not self.unrolled: raise OutOfSubset('loop %s runs over a fixed sequence' % self.name)
                if not seq: return
                v = z3.Int('POSITION')
                comp = Comp(v, z3.And(v >= 0, v < len(seq)), 0, lo=0, hi=len(seq))
                comp.fixed = list(seq)
                seq = [comp]
            if len(seq) != 1: raise OutOfSubset('loop %s runs over several parts' % self.name)
            comp = seq[0]
        ranged = comp is not None and comp.hi is not None
        names = assigned_names(st.body)
        tnames = assigned_names([ast.Assign([st.target], ast.Constant(0))]) if self.kind == 'for' else []
        pre_env, pre_heap = dict(fr.env), dict(ip.heap)
        snap = lambda env: env
        def ell(i=None, seen=None, elem=None):
            l = L(ip, fr.env, pre_env, pre_heap, i, seen, elem, comp)
            l.names = [n for n in names if n not in tnames]
            return l
        def invs(l): return self.inv(S, a, l)
        K = comp.var.sort() if comp is not None else None
        empty = z3.K(K, z3.BoolVal(False)) if comp is not None else None
        lo = zi(comp.lo) if ranged else None
        hi = (z3.If(zi(comp.hi) >= lo, zi(comp.hi), lo)) if ranged else None
        # ---- what does the body change?  (grow the havocked part until it is stable)
        mods = []
        # paths are replayed: the same prefix of decisions leads to the same state
        key = (id(st), len(ip.frames), ip.nfresh, tuple(ip.trace[:ip.pos])) if not (ip.bounds or ip.silent or ip.lift_stamp is not None) else None
        hit = ip.mods_cache.get(key) if key else None
        if hit is not None: mods, self.types, ip.nfresh = list(hit[0]), dict(hit[1]), hit[2]
        while hit is None:
            types = dict(self.types)
            ch = self.discover(ip, st, fr, names, comp, ranged, lo, hi, mods, pre_env, pre_heap, invs, ell, it)
            new = [k for k in ch if k not in mods]
            if not new and types == self.types: break
            mods += new
            if len(mods) > 60: raise OutOfSubset('loop changes too much')
        if key and hit is None: ip.mods_cache[key] = (list(mods), dict(self.types), ip.nfresh, st)
        for n, t in self.types.items():
            if t == 'real' and n in fr.env and is_num(fr.env[n]): fr.env[n] = zr(fr.env[n])
        ip.ghost.pop('before', None)
        l0 = ell(lo, empty); l0.entry = True
        for n, cnd in invs(l0): ip.oblige('%s: holds before the loop: %s' % (self.name, n), cnd)
        self.havoc(ip, fr, names, mods, pre_heap)
        if ip.branch(z3.Const(ip.fresh_name('iterate'), z3.BoolSort())):
            x, l1, fin = self.enter(ip, st, fr, comp, ranged, lo, hi, invs, ell, it)
            m0 = self.decreases(S, a, l1) if self.decreases else None
            h1 = dict(ip.heap)
            try:
                ip.block(st.body)
            except Cnt: pass
            except Brk: 
                for t in tnames: pass
                return
            l2 = fin(); l2.end = True
            for n, cnd in invs(l2): ip.oblige('%s: preserved by every iteration: %s' % (self.name, n), cnd, assume=False)
            for k, v in ip.heap.items():
                b = h1.get(k, ip.heap0.get(k))
                if b is not None and not v.eq(b) and k not in mods: raise OutOfSubset('loop effect on %s.%s was not anticipated' % k)
            if self.decreases:
                m1 = self.decreases(S, a, l2)
                if not isinstance(m0, tuple): m0, m1 = (m0,), (m1,)
                less = z3.BoolVal(False)
                for p, q in reversed(list(zip(m0, m1))): less = z3.Or(z3.And(p > q, p >= 0), z3.And(p == q, less))
                ip.oblige('%s: terminates (the measure decreases and is bounded)' % self.name, less, assume=False)
            raise PathEnd()
        # ---- exit
        if self.kind == 'for':
            l3 = ell(hi, z3.Lambda([comp.var], comp.guard) if False else None)
            if not ranged:
                full = ip.fresh('seen', z3.ArraySort(K, z3.BoolSort()))
                kk = z3.Const(ip.fresh_name('k'), K)
                ip.assume(z3.ForAll([kk], z3.Select(full, kk) == z3.substitute(comp.guard, (comp.var, kk)), patterns=[z3.Select(full, kk)]))
                l3.seen = full
            for n, cnd in invs(l3): ip.assume(cnd)
            for t in tnames: fr.env.pop(t, None)
            if st.orelse: ip.block(st.orelse)
        else:
            for n, cnd in invs(ell()): ip.assume(cnd)
            if ip.branch(ip.truth(ip.ev(st.test), st)): raise PathEnd()
            if st.orelse: ip.block(st.orelse)
    def havoc(self, ip, fr, names, mods, pre_heap):
        self.havoc_env(ip, fr, [n for n in names], '')
        for k in mods:
            arr = ip.harr(*k)
            ip.heap[k] = ip.fresh('H_%s_%s' % k, arr.sort())
            if k[1] == '$alive':
                o = z3.Const('al_' + k[0], fam_sort(k[0]))
                ip.assume(quant([o], z3.Implies(z3.Select(arr, o), z3.Select(ip.heap[k], o)), [z3.Select(arr, o)]))
    def enter(self, ip, st, fr, comp, ranged, lo, hi, invs, ell, it):
        from .interp import PathEnd
        if self.kind != 'for':
            l1 = ell()
            for n, cnd in invs(l1): ip.assume(cnd)
            if not ip.branch(ip.truth(ip.ev(st.test), st)): raise PathEnd()
            return None, l1, lambda: ell()
        x = ip.fresh('it', comp.var.sort())
        g = lambda e: z3.substitute(e, (comp.var, x))
        if ranged:
            l1 = ell(x)
            ip.assume(z3.And(x >= lo, x < hi))
        else:
            seen = ip.fresh('seen', z3.ArraySort(comp.var.sort(), z3.BoolSort()))
            l1 = ell(None, seen)
            kk = z3.Const(ip.fresh_name('k'), comp.var.sort())
            ip.assume(z3.ForAll([kk], z3.Implies(z3.Select(seen, kk), z3.substitute(comp.guard, (comp.var, kk))), patterns=[z3.Select(seen, kk)]))
            ip.assume(z3.Not(z3.Select(seen, x)))
        ip.assume(g(comp.guard))
        for f in comp.facts: ip.assume(g(f))
        for n, cnd in invs(l1): ip.assume(cnd)
        # the element as it is now (dictionaries are read live)
        live = isinstance(it, (Obj, DView)) and not (isinstance(it, DView) and isinstance(it.d, FDict))
        fixed = getattr(comp, 'fixed', None)
        if fixed is not None:
            elem = fixed[-1]
            for j, e in enumerate(fixed[:-1]):
                if ip.branch(x == j): elem = e; break
            else: ip.assume(x == len(fixed) - 1)
        else: elem = subst(comp.elem, comp.var, x)
        if live and fixed is None:
            k2, s2 = ip.iterate(it)
            elem = subst(s2[0].elem, s2[0].var, x)
            live_guard = z3.substitute(s2[0].guard, (s2[0].var, x))
        l1.elem = elem
        ip.assign(st.target, elem)
        def fin():
            if live and not ranged and fixed is None:
                k3, s3 = ip.iterate(it)
                q = z3.Const(ip.fresh_name('k'), comp.var.sort())
                ip.oblige('%s: the dictionary keeps its keys while it is iterated over' % self.name,
                          z3.substitute(s3[0].guard, (s3[0].var, q)) == z3.substitute(comp.guard, (comp.var, q)), assume=False)
            if ranged: return ell(x + 1)
            return ell(None, z3.Store(seen, x, z3.BoolVal(True)))
        return x, l1, fin
    def discover(self, ip, st, fr, names, comp, ranged, lo, hi, mods, pre_env, pre_heap, invs, ell, it):
        from .interp import PathEnd, SymRaise, Brk, Cnt, Ret
        ch = []
        ip.silent += 1
        nf = ip.nfresh
        try:
            def thunk():
                fr.env.clear(); fr.env.update(pre_env)
                self.havoc(ip, fr, names, mods, pre_heap)
                h0 = dict(ip.heap)
                try:
                    self.enter(ip, st, fr, comp, ranged, lo, hi, invs, ell, it)
                    try: ip.block(st.body)
                    except (Cnt, Brk, Ret): pass
                    for n in names:
                        if n in pre_env and n not in self.types and is_num(pre_env[n]) and is_num(fr.env.get(n)) and is_int_kind(pre_env[n]) and not is_int_kind(fr.env[n]): self.types[n] = 'real'
                        if n in pre_env and pre_env[n] is None and n not in self.types and isinstance(fr.env.get(n), Obj): self.types[n] = 'opt:' + fr.env[n].fam
                except SymRaise: pass
                for k, v in ip.heap.items():
                    b = h0.get(k, ip.heap0.get(k))
                    if b is not None and not v.eq(b) and k not in ch: ch.append(k)
                return 0
            stamp = ip.lift_stamp
            ip.lift(thunk, allow_heap=True)
        finally:
            ip.silent -= 1
            fr.env.clear(); fr.env.update(pre_env)
            ip.heap = dict(pre_heap)
            for k in ip.heap0: ip.heap.setdefault(k, ip.heap0[k])
        return ch
