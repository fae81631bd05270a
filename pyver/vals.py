"""Value domain of the symbolic interpreter."""
from fractions import Fraction
import hashlib
import z3
from .source import OutOfSubset, FuncInfo, ClassInfo, Module, ExtRef

# ---------------------------------------------------------------- sorts and types
_sorts = {}
def fam_sort(fam):
    if fam not in _sorts: _sorts[fam] = z3.DeclareSort('S_' + fam)
    return _sorts[fam]
BASE = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}
def sort_of(t):
    return BASE[t] if t in BASE else fam_sort(t)
_nulls = {}
def null_of(fam):
    if fam not in _nulls: _nulls[fam] = z3.Const('null_' + fam, fam_sort(fam))
    return _nulls[fam]
def is_dict_type(t): return t.startswith('D[')
def dict_kv(t):
    k, v = t[2:-1].split(',', 1)
    return k, v
def is_list_type(t): return t.startswith('L[')

# ---------------------------------------------------------------- host value classes
class Obj:
    """reference to a heap object; fam = family (z3 sort), cls = exact class if known"""
    def __init__(self, fam, term, cls=None, nonnull=True):
        self.fam, self.term, self.cls, self.nonnull = fam, term, cls, nonnull
    def __repr__(self): return '%s<%s>' % (self.fam, self.term)
class XFloat:
    """result of float(str): may be nan or infinite"""
    def __init__(self, val, nan, pinf, ninf): self.val, self.nan, self.pinf, self.ninf = val, nan, pinf, ninf
class Opq:
    """opaque value (strings built from symbolic parts, paths, files ...): equal parts give equal values"""
    def __init__(self, tag, parts=()): self.tag, self.parts = tag, tuple(parts)
    def key(self): return (self.tag,) + tuple(vkey(p) for p in self.parts)
    def __repr__(self): return 'Opq%r' % (self.key(),)
_serial = [0]
def stable(*v): return hashlib.sha1(str(v).encode()).hexdigest()[:12]
def serial(): return _serial[0]
class Mut:
    def __new__(cls, *a):
        o = object.__new__(cls); _serial[0] += 1; o.serial = _serial[0]
        return o
class PList(Mut):
    def __init__(self, items): self.items, self.segs = list(items), None
    # after a symbolic loop appended to it: segs = list of Comp (in order) after the items
class PSet(Mut):
    def __init__(self, items): self.items = list(items)
class PDict(Mut):
    def __init__(self): self.items = {}; self.ref = None; self.fd = None; self.default = None
class Comp:
    """abstract sequence  [elem(k) for k in domain if guard(k)]   (var is a z3 constant, bound).
    base identifies the domain enumeration (for order/zip); kind 'dict' or 'range'."""
    def __init__(self, var, guard, elem, facts=(), base=None, lo=None, hi=None, isset=False):
        self.var, self.guard, self.elem, self.facts = var, guard, elem, list(facts)
        self.base, self.lo, self.hi, self.isset = base, lo, hi, isset
class FDict:
    """dictionary given by (var, has(var), val(var))"""
    def __init__(self, ktype, var, has, val, vtype=None, default=None):
        self.ktype, self.var, self.has, self.val, self.vtype, self.default = ktype, var, has, val, vtype, default
class DView:
    """keys()/values()/items() view"""
    def __init__(self, d, what): self.d, self.what = d, what
class SlSlice:
    """rankings[:n]"""
    def __init__(self, sl, n, content): self.sl, self.n, self.content = sl, n, content
class BMeth:
    def __init__(self, recv, func): self.recv, self.func = recv, func
class ExtMeth:
    def __init__(self, recv, name): self.recv, self.name = recv, name
class SuperRef:
    def __init__(self, obj, cls): self.obj, self.cls = obj, cls
class Closure:
    def __init__(self, node, env, frame): self.node, self.env, self.frame = node, env, frame
class Partial:
    def __init__(self, func, args, kw): self.func, self.args, self.kw = func, args, kw

def is_z3(v): return isinstance(v, z3.ExprRef)
def is_num(v): return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or (isinstance(v, z3.ArithRef))
def is_boolv(v): return isinstance(v, (bool, z3.BoolRef))
def is_int_kind(v):
    return isinstance(v, bool) or isinstance(v, int) or (isinstance(v, z3.ArithRef) and v.is_int())
def z(v):
    """number / bool -> z3"""
    if is_z3(v): return v
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, Fraction): return z3.RealVal(v)
    if isinstance(v, float): return z3.RealVal(Fraction(repr(v)))
    raise OutOfSubset('number expected, got %r' % (v,))
def zr(v):
    if isinstance(v, bool): v = int(v)
    e = z(v)
    if z3.is_bool(e): return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(e) if e.is_int() else e
def zi(v):
    if isinstance(v, bool): v = int(v)
    e = z(v)
    if z3.is_bool(e): return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    if not e.is_int(): raise OutOfSubset('int expected')
    return e
def zb(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef): return v
    raise OutOfSubset('bool expected, got %r' % (v,))
def vkey(v):
    """hashable identity of a value (used for opaque terms)"""
    if isinstance(v, Opq): return v.key()
    if is_z3(v): return ('z3', v.sexpr())
    if isinstance(v, Obj): return ('obj', v.fam, v.term.sexpr())
    if isinstance(v, tuple): return ('t',) + tuple(vkey(x) for x in v)
    if isinstance(v, PList): return ('l',) + tuple(vkey(x) for x in v.items) + (() if not v.segs else tuple(vkey(c) for c in v.segs))
    if isinstance(v, Comp): return ('comp', z3.simplify(v.guard).sexpr(), vkey(v.elem))
    if isinstance(v, ExtRef): return ('ext', v.name)
    if isinstance(v, (FuncInfo, ClassInfo, Module)): return ('code', repr(v))
    if isinstance(v, PDict) and v.ref is None and v.fd is None:
        return ('d',) + tuple((vkey(k), vkey(x)) for k, x in v.items.items())
    if isinstance(v, (int, str, bool, Fraction, float, type(None))): return ('c', type(v).__name__, v)
    return ('id', id(v))

def subst(v, var, term):
    """substitute a z3 constant in a value"""
    if is_z3(v): return z3.substitute(v, (var, term))
    if isinstance(v, Obj): return Obj(v.fam, z3.substitute(v.term, (var, term)), v.cls, v.nonnull)
    if isinstance(v, tuple): return tuple(subst(x, var, term) for x in v)
    if isinstance(v, PList) and not v.segs: return PList([subst(x, var, term) for x in v.items])
    if isinstance(v, PList): return PList([subst(x, var, term) for x in v.items], ) if False else _substseg(v, var, term)
    if isinstance(v, Comp):
        return Comp(v.var, z3.substitute(v.guard, (var, term)), subst(v.elem, var, term),
                    [z3.substitute(f, (var, term)) for f in v.facts], v.base,
                    None if v.lo is None else subst(v.lo, var, term), None if v.hi is None else subst(v.hi, var, term), v.isset)
    if isinstance(v, FDict):
        return FDict(v.ktype, v.var, z3.substitute(v.has, (var, term)), subst(v.val, var, term), v.vtype, v.default)
    if isinstance(v, Opq): return Opq(v.tag, [subst(p, var, term) for p in v.parts])
    if isinstance(v, (int, str, bool, Fraction, float, type(None), ExtRef, FuncInfo, ClassInfo, Module)): return v
    raise OutOfSubset('substitution into %r' % (v,))
def _substseg(v, var, term):
    p = PList([subst(x, var, term) for x in v.items]); p.segs = [subst(c, var, term) for c in v.segs]; return p

def ite(c, a, b):
    """merge two values under a z3 condition"""
    if isinstance(c, bool): return a if c else b
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if is_boolv(a) and is_boolv(b): return z3.If(c, zb(a), zb(b))
    if is_num(a) and is_num(b):
        if is_int_kind(a) and is_int_kind(b): return z3.If(c, zi(a), zi(b))
        return z3.If(c, zr(a), zr(b))
    if (is_num(a) and is_boolv(b)) or (is_num(b) and is_boolv(a)):
        return z3.If(c, zr(a), zr(b))
    if isinstance(a, Obj) and isinstance(b, Obj) and a.fam == b.fam:
        return Obj(a.fam, z3.If(c, a.term, b.term), a.cls if a.cls is b.cls else None, a.nonnull and b.nonnull)
    if isinstance(a, Obj) and b is None: return Obj(a.fam, z3.If(c, a.term, null_of(a.fam)), a.cls, False)
    if isinstance(b, Obj) and a is None: return Obj(b.fam, z3.If(c, null_of(b.fam), b.term), b.cls, False)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if vkey(a) == vkey(b): return a
    if isinstance(a, (str, Opq)) and isinstance(b, (str, Opq)): return Opq('ite', [c, a, b])
    if isinstance(a, PList) and isinstance(b, PList) and not a.segs and not b.segs and len(a.items) == len(b.items):
        return PList([ite(c, x, y) for x, y in zip(a.items, b.items)])
    raise OutOfSubset('cannot merge %r and %r' % (a, b))

class MaybeVal:
    """a local variable that may still be unbound (assigned in a loop only)"""
    def __init__(self, bound, val): self.bound, self.val = bound, val
