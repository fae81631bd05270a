"""sortedcontainers.SortedList, described by what it holds: an element stands before another when its key is smaller.

A list built in the program is a collection (parts) and a key function; the position of an element is the number of elements
with a smaller key, provided that no other element has the same key (an obligation).  A list on the heap (family SL) is a
sequence; asking it for a position requires it to be in the order of the current keys (an obligation), as its binary search does."""
import ast
import z3
from .vals import *
from .symspec import quant

class SLV(Mut):
    def __init__(self, parts, key): self.parts, self.key, self.cuts = list(parts), key, []
    def keys(self, ip, c, where): return ip.map_comp(c, None, [], lambda: call_key(ip, self.key, c.elem, where))
def call_key(ip, key, e, where): return e if key is None else ip.call(key, [e], {}, where)
def parts_of(ip, v):
    kind, s = ip.iterate(v)
    # the order of the source is forgotten
    return [ip.const_comp(x) for x in s] if kind == 'concrete' else [Comp(c.var, c.guard, c.elem, c.facts) for c in s]
def build(ip, a, kw, where):
    if set(kw) - {'key', 'iterable'} or len(a) > 2: raise OutOfSubset('SortedList at ' + where)
    key = kw.get('key', a[1] if len(a) > 1 else None)
    it = kw.get('iterable', a[0] if a else None)
    ip.ext_used.add('sortedcontainers.SortedList')
    return SLV(parts_of(ip, it) if it is not None else [], key)
def before(ip, k1, k2, where): return zb(ip.compare(ast.Lt(), k1, k2, ast.Pass()))
def method(ip, o, name, a, kw, where):
    if kw: raise OutOfSubset('SortedList.%s at %s' % (name, where))
    if name in ('update', 'add') and (ip.bounds or ip.lift_stamp is not None and o.serial <= ip.lift_stamp): raise OutOfSubset('a sorted list is changed in an iteration at ' + where)
    if name == 'update': o.parts += parts_of(ip, a[0]); return None
    if name == 'add': o.parts.append(ip.const_comp(a[0])); return None
    if name == 'copy': return SLV(o.parts, o.key)
    if name == 'index' and len(a) == 1: return index(ip, o, a[0], where)
    raise OutOfSubset('SortedList.%s at %s' % (name, where))
def index(ip, o, p, where):
    if not isinstance(p, Obj): raise OutOfSubset('position of %r at %s' % (p, where))
    kp = call_key(ip, o.key, p, where)
    found, n = [], 0
    for c in o.parts:
        e = c.elem
        if not isinstance(e, Obj) or e.fam != p.fam: raise OutOfSubset('a sorted list of %r at %s' % (e, where))
        kc = o.keys(ip, c, where)
        w = ip.fresh('other', c.var.sort())
        at = lambda x, t: z3.substitute(x, (c.var, t))
        hyp = [at(c.guard, w)] + [at(f, w) for f in kc.facts]
        same = zb(ip.world.ext.equal(ip, subst(kc.elem, c.var, w), kp, where))
        ip.require(z3.Implies(z3.And(*hyp, same), at(e.term, w) == p.term), 'KeyError', 'two elements of a sorted list have the same key, ' + where)
        t = match(e.term, c.var, p.term)
        if t is not None: found.append(z3.And(at(c.guard, t), at(e.term, t) == p.term))
        m = ip.reg.make('CNT', c.var, z3.And(c.guard, before(ip, kc.elem, kp, where)), None, kc.facts)
        n = m if isinstance(n, int) else n + m
    if not found: raise OutOfSubset('membership in a sorted list at ' + where)
    ip.require(z3.Or(*found), 'ValueError', 'not in the sorted list, ' + where)
    o.cuts.append((n, kp))
    return n
def match(pat, var, t):
    """the value of var for which pat is t"""
    if pat.eq(var): return t
    if not occurs_in(var, pat) or not (z3.is_app(pat) and z3.is_app(t)) or not pat.decl().eq(t.decl()): return None
    for x, y in zip(pat.children(), t.children()):
        if x.eq(y): continue
        r = match(x, var, y)
        return r if r is not None and z3.simplify(z3.substitute(pat, (var, r))).eq(z3.simplify(t)) else None
    return None
def occurs_in(v, e): return e.eq(v) or any(occurs_in(v, c) for c in e.children())
def slice_(ip, o, lo, hi, where):
    """o[:position of p] : the elements before p"""
    if lo is not None and not (isinstance(lo, int) and lo == 0): raise OutOfSubset('slice of a sorted list at ' + where)
    for n, kp in o.cuts:
        if is_z3(hi) and n.eq(hi):
            out = []
            for c in o.parts:
                kc = o.keys(ip, c, where)
                out.append(Comp(c.var, z3.And(c.guard, before(ip, kc.elem, kp, where)), c.elem, kc.facts))
            p = PList([]); p.segs = out
            return p
    raise OutOfSubset('slice of a sorted list at ' + where)
# ---- lists on the heap
def heap_key(ip, o, where):
    f = ip.world.sl_key
    if f is None: raise OutOfSubset('the order of a ranking is not declared, ' + where)
    return lambda e: call_key(ip, ip.prog.func(f), e, where)
def heap_index(ip, o, p, where):
    key = heap_key(ip, o, where)
    n = z3.Select(ip.harr('SL', 'len'), o.term); at = z3.Select(ip.harr('SL', 'at'), o.term)
    i, j = ip.fresh('i', z3.IntSort()), ip.fresh('j', z3.IntSort())
    el = lambda t: Obj('Pool', z3.Select(at, t), ip.world.exact_class('Pool'), False)
    ki, kj = total_key(ip, el(i), key), total_key(ip, el(j), key)
    ip.oblige('no ValueError: the ranking is in the order of its keys, ' + where, z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Not(before(ip, kj, ki, where))), assume=False)
    t = ip.world.sl_witness(ip, o, p) if ip.world.sl_witness else None
    if t is None: raise OutOfSubset('membership in a ranking at ' + where)
    ip.require(z3.And(t >= 0, t < n, z3.Select(at, t) == p.term), 'ValueError', 'not in the ranking, ' + where)
    r = z3.Function('SL_INDEX', at.sort(), p.term.sort(), z3.IntSort())(at, p.term)
    ip.assume(z3.And(r >= 0, r < n, z3.Select(at, r) == p.term))
    ip.ext_used.add('sortedcontainers.SortedList')
    return r
def total_key(ip, e, key):
    """the key of an element that may be None"""
    res = ip.lift(lambda: key(e))
    v, facts = ip.merge(res)
    for f in facts: ip.assume(f)
    return v
