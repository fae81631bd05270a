"""Models of Python built-ins and of the external library functions the code uses (the trusted base)."""
import ast, math
from fractions import Fraction
import z3
from .vals import *
from .source import *
from . import slists, files

POW = z3.Function('POW', z3.RealSort(), z3.RealSort(), z3.RealSort())
ROUND0 = z3.Function('ROUND0', z3.RealSort(), z3.IntSort())
ROUNDN = z3.Function('ROUNDN', z3.RealSort(), z3.IntSort(), z3.RealSort())

BUILTINS = {'len', 'min', 'max', 'sum', 'abs', 'round', 'int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'frozenset',
            'range', 'enumerate', 'zip', 'sorted', 'reversed', 'any', 'all', 'isinstance', 'print', 'map', 'filter', 'getattr',
            'setattr', 'hasattr', 'vars', 'type', 'id', 'next', 'iter', 'open', 'super', 'repr', 'hash', 'divmod', 'pow', 'locals', 'callable', 'issubclass'}

KINDS_OF = ['list', 'str', 'dict', 'int', 'float', 'tuple']
def minmax(ip, items, which, where):
    if not items: ip.require(False, 'ValueError', 'empty min/max, ' + where)
    v = items[0]
    for x in items[1:]:
        c = ip.compare(ast.Lt() if which == 'min' else ast.Gt(), x, v, ast.Pass())
        if isinstance(c, bool): v = x if c else v
        else:
            try: v = ite(c, x, v)
            except OutOfSubset: v = x if ip.branch(c) else v
    return v

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add', 'discard', 'update', 'setdefault', 'popitem'}
class AttrNames:
    """the names in vars(o): those that the constructors (and the property setters they run) assign; maybe: those assigned elsewhere"""
    def __init__(self, names, maybe): self.names, self.maybe = names, maybe
def attribute_names(ip, o):
    cls = o.cls or ip.world.root_class(o.fam)
    if cls is None: raise OutOfSubset('vars of %r' % (o,))
    def stores(f):
        me = f.node.args.args[0].arg
        return {x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == me}
    props = set().union(*[set(c.setters) | set(c.getters) for c in cls.mro()])
    names = set().union(*[stores(f) for c in cls.mro() for f in [c.methods.get('__init__')] if f] or [set()])
    for n in names & props: names |= stores(cls.find('setters', n))
    others = [c for m in list(ip.prog.mods.values()) for c in m.globals.values() if isinstance(c, ClassInfo) and any(b in cls.mro() for b in c.mro())]
    every = set().union(*[stores(f) for c in others for d in (c.methods, c.setters) for f in d.values() if f.node.args.args] or [set()])
    return AttrNames(names - props, every - names - props)
class Ext:
    def __init__(self, world): self.world = world
    def builtin(self, name):
        if name in BUILTINS: return ExtRef('builtins.' + name)
        if name.endswith('Error') or name in ('Exception', 'BaseException', 'StopIteration', 'object'): return ExtRef('builtins.' + name)
        if name == '__name__': return '__module__'
        raise OutOfSubset('unknown name ' + name)

    # ------------------------------------------------------------------ attributes
    def attr(self, ip, base, name):
        full = base + '.' + name
        if full in ('math.inf', 'numpy.inf'): return float('inf')
        return ExtRef(full)
    def valattr(self, ip, o, name, node):
        if name == 'size' and getattr(o, 'np', False): return self.length(ip, o)
        if isinstance(o, (PList, PDict, PSet, Comp, FDict, DView, str, Opq, tuple)) or type(o).__name__ in ('SortedSeq', 'CounterV', 'SLV'):
            if isinstance(o, Opq) and name in ('stdout',): return Opq('attr', [o, name])
            if type(o).__name__ == 'CounterV' and name == 'default': return None
            if isinstance(o, (PList,)) and name in ('size',): return self.length(ip, o)
            return ExtMeth(o, name)
        if is_num(o) or is_boolv(o): return ExtMeth(o, name)
        raise OutOfSubset('attribute %s of %r at %s' % (name, o, ip.loc(node)))
    def objattr(self, ip, o, name, node):
        h = self.world.ext_objs.get(o.fam)
        if h:
            r = h(ip, o, name, node)
            if r is not None: return r
        return ExtMeth(o, name)
    def base_attr(self, ip, o, cls, name, node):
        """attribute inherited from an external base class (mesa)"""
        h = self.world.base_attrs.get((o.fam, name))
        return h(ip, o) if h else None
    def enter(self, ip, v, where):
        if isinstance(v, (Opq, Obj)): return v
        raise OutOfSubset('with statement at ' + where)

    # ------------------------------------------------------------------ lengths, items
    def length(self, ip, v):
        if ip.rec is not None: ip.rec.read(v)
        if isinstance(v, tuple): return len(v)
        if isinstance(v, str): return len(v)
        if isinstance(v, PSet): return len(v.items)
        if isinstance(v, PList):
            n = len(v.items)
            for c in v.segs or []: n = self.binop(ip, '+', n, self.complen(ip, c), '', '')
            return n
        if isinstance(v, PDict):
            if v.ref is not None: return self.length(ip, v.ref)
            if v.fd is not None: return self.length(ip, v.fd)
            return len(v.items)
        if isinstance(v, Comp): return self.complen(ip, v)
        if isinstance(v, (FDict, DView)) or (isinstance(v, Obj) and is_dict_type(v.fam)):
            k, s = ip.iterate(v)
            return len(s) if k == 'concrete' else self.complen(ip, s[0])
        if isinstance(v, SlSlice): return v.n
        if isinstance(v, slists.SLV):
            n = 0
            for c in v.parts: n = self.binop(ip, '+', n, self.complen(ip, c), '', '')
            return n
        if isinstance(v, Obj) and v.fam == 'SL' and ('SL', 'len') in self.world.obj_methods: return self.world.obj_methods[('SL', 'len')](ip, v)
        if isinstance(v, Obj) and v.fam == 'SL': return z3.Select(ip.harr('SL', 'len'), v.term)
        if isinstance(v, Obj) and is_list_type(v.fam): return z3.Select(ip.harr(v.fam, 'len'), v.term)
        if isinstance(v, Opq): 
            n = z3.Const('len_' + str(ip.opaque(v)), z3.IntSort())
            ip.assume(n >= 0)
            return n
        if isinstance(v, Obj) and v.fam in self.world.iterables: return self.length(ip, self.world.iterables[v.fam](ip, v))
        raise OutOfSubset('len of %r' % (v,))
    def complen(self, ip, c):
        if c.isset and not (is_z3(c.elem) and c.elem.eq(c.var)):
            return ip.reg.make('CARD', c.var, c.guard, self.scalar(ip, c.elem), c.facts)
        if c.hi is not None and c.base and c.base[0] == 'range':
            n = ip.binop('-', c.hi, c.lo, ast.Pass()) if not (isinstance(c.lo, int) and c.lo == 0) else c.hi
            return max(n, 0) if isinstance(n, int) else (n if ip.valid(n >= 0, 1.0) else z3.If(n >= 0, n, z3.IntVal(0)))
        return ip.reg.make('CNT', c.var, c.guard, None, c.facts)
    def scalar(self, ip, v):
        if isinstance(v, Obj): return v.term
        if is_z3(v) or is_num(v) or isinstance(v, bool): return z(v)
        if isinstance(v, (Opq, str)): return ip.opaque(v)
        raise OutOfSubset('scalar expected')

    def kz(self, ip, k, K): return ip.unwrap(k, K)

    def getitem(self, ip, o, k, where):
        if ip.rec is not None: ip.rec.read(o)
        if isinstance(o, (tuple, str)) or (isinstance(o, PList) and not o.segs):
            items = o if not isinstance(o, PList) else o.items
            if z3.is_int_value(k): k = k.as_long()
            if isinstance(k, int):
                if not -len(items) <= k < len(items): raise SymRaiseT()('IndexError', where)
                return items[k]
            if isinstance(k, z3.ArithRef):
                ip.require(z3.And(k >= -len(items), k < len(items)), 'IndexError', where)
                v = items[-1]
                for i in range(len(items) - 2, -1, -1): v = ite(z3.Or(k == i, k == i - len(items)), items[i], v)
                return v
        if isinstance(o, PList) and not o.items and len(o.segs) == 1: return self.getitem(ip, o.segs[0], k, where)
        if isinstance(o, Comp) and o.base and o.base[0] == 'range' and o.hi is not None:
            n = self.complen(ip, o)
            kk = zi(k)
            ip.require(z3.And(kk >= -z(n), kk < z(n)), 'IndexError', where)
            idx = z3.If(kk < 0, kk + z(n), kk) + z(o.lo)
            idx = z3.simplify(idx) if isinstance(k, int) else idx
            for f in o.facts: ip.assume(z3.Implies(z3.substitute(o.guard, (o.var, idx)), z3.substitute(f, (o.var, idx))))
            return subst(o.elem, o.var, idx)
        if isinstance(o, PDict):
            if o.ref is not None: return self.getitem(ip, o.ref, k, where)
            if o.fd is not None: return self.getitem(ip, o.fd, k, where)
            if o.default is not None and not is_z3(k):
                if k not in o.items: o.items[k] = ip.call(o.default, [], {})
                return o.items[k]
            if isinstance(k, (Opq,)): k2 = k.key()
            else: k2 = k
            if is_z3(k):
                hit = None
                for kk, x in o.items.items():
                    if ip.branch(ip.compare(ast.Eq(), k, kk, ast.Pass())): return x
                raise SymRaiseT()('KeyError', where)
            if isinstance(k, Obj) and k.fam == 'opaque':
                from .interp import OPAQUES
                kv = OPAQUES.get(k.term.decl().name()) if k.term.num_args() == 0 else None
                if isinstance(kv, str) and all(isinstance(x, str) for x in o.items): return self.getitem(ip, o, kv, where)
                for kk, x in o.items.items():
                    if ip.branch(ip.compare(ast.Eq(), k, kk, ast.Pass())): return x
                raise SymRaiseT()('KeyError', where)
            try:
                if k2 in o.items: return o.items[k2]
            except TypeError: pass
            if isinstance(k, Opq):
                for kk, x in o.items.items():
                    if ip.branch(ip.compare(ast.Eq(), k, kk, ast.Pass())): return x
            raise SymRaiseT()('KeyError', where)
        if isinstance(o, FDict):
            kk = ip.unwrap(k, o.ktype)
            if o.default is None:
                has = z3.substitute(o.has, (o.var, kk))
                ip.require(has, 'KeyError', where)
            for f in getattr(o, 'facts', []): ip.assume(z3.Implies(z3.substitute(o.has, (o.var, kk)), z3.substitute(f, (o.var, kk))))
            v = subst(o.val, o.var, kk)
            return v
        if isinstance(o, Obj) and is_dict_type(o.fam):
            has, val, K, V = ip.dget(o)
            kk = ip.unwrap(k, K)
            ip.require(z3.Select(has, kk), 'KeyError', where)
            r = ip.wrap(z3.Select(val, kk), V)
            if isinstance(r, Obj) and r.fam in ('Pool', 'Agent'): r.nonnull = ip.world.dict_values_nonnull(ip, o, kk, r)
            return r
        if isinstance(o, Obj) and o.fam == 'SL':
            n = z3.Select(ip.harr('SL', 'len'), o.term); at = z3.Select(ip.harr('SL', 'at'), o.term)
            kk = zi(k)
            ip.require(z3.And(kk >= -n, kk < n), 'IndexError', where)
            return Obj('Pool', z3.Select(at, z3.If(kk < 0, kk + n, kk)), None, False)
        if isinstance(o, Obj) and is_list_type(o.fam):
            n = z3.Select(ip.harr(o.fam, 'len'), o.term); at = z3.Select(ip.harr(o.fam, 'at'), o.term)
            off = z3.Select(ip.harr(o.fam, 'off'), o.term)
            kk = zi(k)
            ip.require(z3.And(kk >= -n, kk < n), 'IndexError', where)
            return ip.wrap(z3.Select(at, off + (kk if isinstance(k, int) and k >= 0 else z3.If(kk < 0, kk + n, kk))), o.fam[2:-1])
        if isinstance(o, (Opq,)) or (isinstance(o, Obj) and o.fam == 'opaque'): return Opq('item', [o, k])
        raise OutOfSubset('subscript of %r at %s' % (o, where))
    def setitem(self, ip, o, k, v, where):
        if ip.rec is not None:
            if ip.rec.setitem(ip, o, k, v): return
        elif ip.lift_stamp is not None and (isinstance(o, PList) or isinstance(o, PDict) and o.ref is None) and o.serial <= ip.lift_stamp: raise OutOfSubset('item assignment under a comprehension at ' + where)
        if isinstance(o, PDict):
            if o.ref is not None: return self.setitem(ip, o.ref, k, v, where)
            if o.fd is None and isinstance(k, (str, int, tuple, Fraction, type(None))): o.items[k] = v; return
            if o.fd is None and isinstance(k, Opq): o.items[k.key()] = v; return
            if o.fd is None and is_z3(k):
                t = 'D[%s,%s]' % (ip.type_of(k), 'real' if ip.type_of(v) == 'int' and ip.world.int_dicts_as_real else ip.type_of(v))
                d = ip.materialise_dict(o, t)
                return ip.dict_store(d, k, v)
            if o.fd is not None:
                f = o.fd
                kk, hz = ip.unwrap(k, f.ktype), f.has
                o.fd = FDict(f.ktype, f.var, z3.Or(f.has, f.var == kk), ite(f.var == kk, v, f.val), f.vtype, f.default); return
        if isinstance(o, Obj) and is_dict_type(o.fam): return ip.dict_store(o, k, v)
        if isinstance(o, PList) and not o.segs and isinstance(k, int):
            if not -len(o.items) <= k < len(o.items): raise SymRaiseT()('IndexError', where)
            o.items[k] = v; return
        raise OutOfSubset('item assignment on %r at %s' % (o, where))
    def slice(self, ip, o, lo, hi, st, where):
        if st is not None: raise OutOfSubset('slice with a step at ' + where)
        if isinstance(o, slists.SLV): return slists.slice_(ip, o, lo, hi, where)
        if isinstance(o, (tuple, str)) and all(x is None or isinstance(x, int) for x in (lo, hi)): return o[lo:hi]
        if isinstance(o, PList) and not o.segs and all(x is None or isinstance(x, int) for x in (lo, hi)):
            p = PList(o.items[lo:hi])
            if getattr(o, 'np', False): p.np = True
            return p
        if isinstance(o, Obj) and o.fam == 'SL' and lo is None and hi is not None:
            n = z3.Select(ip.harr('SL', 'len'), o.term)
            h = zi(hi)
            h = z3.If(h < 0, z3.If(h + n < 0, z3.IntVal(0), h + n), z3.If(h > n, n, h))
            if ip.valid(z3.And(zi(hi) >= 0, zi(hi) <= n)): h = zi(hi)
            return SlSlice(o, h, z3.Select(ip.harr('SL', 'at'), o.term))
        if isinstance(o, Opq) or (isinstance(o, Obj) and o.fam == 'opaque'): return Opq('slice', [o, lo, hi])
        if isinstance(o, PList) and not o.items and len(o.segs) == 1 and o.segs[0].hi is not None:
            c = o.segs[0]
            n = z(self.complen(ip, c))
            def norm(x, d):
                if x is None: return d
                x = zi(x)
                return z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))
            l, h = z3.simplify(norm(lo, z3.IntVal(0))), z3.simplify(norm(hi, n))
            p = PList([])
            if getattr(o, 'np', False): p.np = True
            base = z(c.lo)
            var = ip.reg.fresh_bound(z3.IntSort(), 'i')
            m = z3.If(h - l > 0, h - l, z3.IntVal(0))
            idx = var + l + base
            p.segs = [Comp(var, z3.And(var >= 0, var < m), subst(c.elem, c.var, idx), [z3.substitute(f, (c.var, idx)) for f in c.facts],
                           ('range', 0, m), lo=0, hi=m)]
            return p
        raise OutOfSubset('slice of %r at %s' % (o, where))

    # ------------------------------------------------------------------ operators
    def binop(self, ip, op, a, b, where, src):
        if isinstance(a, bool) or isinstance(a, z3.BoolRef): a = zi(a) if is_z3(a) else int(a)
        if isinstance(b, bool) or isinstance(b, z3.BoolRef): b = zi(b) if is_z3(b) else int(b)
        if isinstance(a, float) or isinstance(b, float): raise OutOfSubset('special float arithmetic')
        if is_num(a) and is_num(b):
            sym = is_z3(a) or is_z3(b)
            if op in '+-*' and len(op) == 1:
                if not sym: return {'+': a + b, '-': a - b, '*': a * b}[op]
                ints = is_int_kind(a) and is_int_kind(b)
                x, y = (zi(a), zi(b)) if ints else (zr(a), zr(b))
                return {'+': x + y, '-': x - y, '*': x * y}[op]
            if op == '/':
                ip.require(b != 0 if not is_z3(b) else b != 0, 'ZeroDivisionError', '%s at %s' % (src, where))
                if not sym: return Fraction(a) / Fraction(b)
                return zr(a) / zr(b)
            if op in ('//', '%'):
                ip.require(b != 0, 'ZeroDivisionError', '%s at %s' % (src, where))
                if not sym: return a // b if op == '//' else a % b
                if is_int_kind(a) and is_int_kind(b):
                    x, y = zi(a), zi(b)
                    q = z3.If(y > 0, x / y, (-x) / (-y))
                    return q if op == '//' else x - y * q
                q = z3.ToReal(z3.ToInt(zr(a) / zr(b)))
                return q if op == '//' else zr(a) - zr(b) * q
            if op == '**':
                if not sym and isinstance(b, int) and (b >= 0 or a != 0): return Fraction(a) ** b if b < 0 else a ** b
                if isinstance(b, int) and 0 <= b <= 4:
                    r = 1
                    for _ in range(b): r = self.binop(ip, '*', r, a, where, src)
                    return r
                x, y = zr(a), zr(b)
                ip.require(z3.Or(x >= 0, y == z3.ToReal(z3.ToInt(y))), 'TypeError', 'power of a negative number, ' + where)
                ip.require(z3.Or(x != 0, y >= 0), 'ZeroDivisionError', '0 to a negative power, ' + where)
                r = POW(x, y)
                ip.assume(z3.Implies(x >= 0, r >= 0)); ip.assume(z3.Implies(x > 0, r > 0)); ip.assume(z3.Implies(y == 0, r == 1))
                ip.assume(z3.Implies(y == 1, r == x)); ip.assume(z3.Implies(z3.And(x == 0, y > 0), r == 0))
                ip.ext_used.add('** (real power)')
                prev = ip.__dict__.setdefault('powapps', [])
                live = {c.get_id() for c in ip.bounds}
                for (x2, y2, r2) in prev:
                    if x2.eq(x) and y2.eq(y): continue
                    ip.assume(z3.Implies(z3.And(y == y2, y >= 0, x >= 0, x <= x2), r <= r2))
                    ip.assume(z3.Implies(z3.And(y == y2, y >= 0, x2 >= 0, x2 <= x), r2 <= r))
                if not ip.bounds: prev.append((x, y, r))
                return r
        if getattr(a, 'np', False) or getattr(b, 'np', False): return self.elementwise(ip, lambda x, y: self.binop(ip, op, x, y, where, src), a, b, where)
        if op == '+' and isinstance(a, str) and isinstance(b, str): return a + b
        if op == '*' and isinstance(a, PList) and is_num(b): return self.repeat(ip, a, b)
        if op == '+' and isinstance(a, PList) and isinstance(b, PList):
            p = PList(a.items); p.segs = list(a.segs) if a.segs else None
            self.method(ip, p, 'extend', [b], {}, where); return p
        if op == '+' and isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if op in ('-', '&', '|', '^'):
            sa, sb = self.asset(ip, a), self.asset(ip, b)
            if sa is not None and sb is not None: return self.setop(ip, op, sa, sb)
        if op == '|' and isinstance(a, PDict) and isinstance(b, PDict) and a.ref is None and b.ref is None and a.fd is None and b.fd is None:
            d = PDict(); d.items = {**a.items, **b.items}; return d
        if op == '/' and isinstance(a, Opq) and a.tag == 'path': return files.join(a, b)
        if isinstance(a, (str, Opq)) or isinstance(b, (str, Opq)) or (isinstance(a, Obj) and a.fam == 'opaque') or (isinstance(b, Obj) and b.fam == 'opaque'):
            return Opq('op' + op, [a, b])
        raise OutOfSubset('operator %s on %r and %r at %s' % (op, a, b, where))
    def repeat(self, ip, lst, n):
        if isinstance(n, int) and not lst.segs: return PList(lst.items * n)
        if len(lst.items) == 1 and not lst.segs:
            k = ip.reg.fresh_bound(z3.IntSort(), 'i')
            p = PList([]); p.segs = [Comp(k, z3.And(k >= 0, k < z(n)), lst.items[0], base=('range', 0, n), lo=0, hi=n)]
            return p
        raise OutOfSubset('list repetition')
    def asset(self, ip, v):
        """set-like value -> PSet of concrete items or Comp whose element is its index"""
        if isinstance(v, PSet): return v
        if isinstance(v, DView) and v.what == 'keys' or isinstance(v, Comp) and v.isset:
            k, s = ip.iterate(v)
            if k == 'concrete': return PSet(s)
            c = s[0]
            if is_z3(c.elem) and c.elem.eq(c.var): return Comp(c.var, c.guard, c.elem, c.facts, isset=True)
            if isinstance(c.elem, z3.ExprRef):
                # general image set over ints: membership by a count
                k = ip.reg.fresh_bound(c.elem.sort())
                cnt = ip.reg.make('CNT', c.var, z3.And(c.guard, c.elem == k), None, c.facts)
                return Comp(k, cnt > 0, k, isset=True)
        return None
    def setop(self, ip, op, a, b):
        if isinstance(a, PSet) and isinstance(b, PSet):
            def mem(x, s):
                for y in s:
                    if ip.branch(ip.compare(ast.Eq(), x, y, ast.Pass())): return True
                return False
            if op == '-': return PSet([x for x in a.items if not mem(x, b.items)])
            if op == '&': return PSet([x for x in a.items if mem(x, b.items)])
            if op == '|': return PSet(a.items + [x for x in b.items if not mem(x, a.items)])
            if op == '^': return PSet([x for x in a.items if not mem(x, b.items)] + [x for x in b.items if not mem(x, a.items)])
        def fn(s):
            if isinstance(s, PSet): return lambda k: z3.Or(*[k == z(x) for x in s.items]) if s.items else z3.BoolVal(False)
            return lambda k: z3.substitute(s.guard, (s.var, k))
        sort = (a.var if isinstance(a, Comp) else b.var).sort()
        k = ip.reg.fresh_bound(sort)
        ga, gb = fn(a)(k), fn(b)(k)
        g = {'-': z3.And(ga, z3.Not(gb)), '&': z3.And(ga, gb), '|': z3.Or(ga, gb), '^': ga != gb}[op]
        return Comp(k, g, k, isset=True)
    def mkset(self, ip, items):
        out = []
        for x in items:
            dup = False
            for y in out:
                if ip.branch(ip.compare(ast.Eq(), x, y, ast.Pass())): dup = True; break
            if not dup: out.append(x)
        return PSet(out)

    def compare(self, ip, op, a, b, where):
        if op not in ('Is', 'IsNot', 'In', 'NotIn') and (getattr(a, 'np', False) or getattr(b, 'np', False)): return self.elementwise(ip, lambda x, y: self.compare(ip, op, x, y, where), a, b, where)
        if op in ('Is', 'IsNot'):
            r = self.is_(ip, a, b, where)
            return r if op == 'Is' else ((not r) if isinstance(r, bool) else z3.Not(r))
        if op in ('In', 'NotIn'):
            r = self.contains(ip, b, a, where)
            return r if op == 'In' else ((not r) if isinstance(r, bool) else z3.Not(r))
        if op in ('Eq', 'NotEq'):
            r = self.equal(ip, a, b, where)
            return r if op == 'Eq' else ((not r) if isinstance(r, bool) else z3.Not(r))
        if isinstance(a, bool): a = int(a)
        if isinstance(b, bool): b = int(b)
        if isinstance(a, z3.BoolRef): a = zi(a)
        if isinstance(b, z3.BoolRef): b = zi(b)
        if isinstance(a, XFloat) or isinstance(b, XFloat): return self.xcompare(op, a, b)
        if is_num(a) and is_num(b):
            if not is_z3(a) and not is_z3(b): return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            x, y = (zi(a), zi(b)) if is_int_kind(a) and is_int_kind(b) else (zr(a), zr(b))
            return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
        if isinstance(a, float) or isinstance(b, float):
            inf = float('inf')
            for x, flip in ((b, False), (a, True)):
                if x == inf or x == -inf:
                    big = (x == inf) != flip
                    return {'Lt': big, 'LtE': big, 'Gt': not big, 'GtE': not big}[op]
        if isinstance(a, tuple) and isinstance(b, tuple):
            # lexicographic
            strict = {'Lt': 'Lt', 'LtE': 'Lt', 'Gt': 'Gt', 'GtE': 'Gt'}[op]
            if not a or not b:
                la, lb = len(a), len(b)
                return {'Lt': la < lb, 'LtE': la <= lb, 'Gt': la > lb, 'GtE': la >= lb}[op]
            c = self.compare(ip, strict, a[0], b[0], where)
            e = self.equal(ip, a[0], b[0], where)
            if isinstance(e, bool) and e: return self.compare(ip, op, a[1:], b[1:], where)
            if isinstance(e, bool): return c
            r = self.compare(ip, op, a[1:], b[1:], where)
            return z3.Or(zb(c), z3.And(zb(e), zb(r)))
        if isinstance(a, str) and isinstance(b, str): return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        raise OutOfSubset('comparison of %r and %r at %s' % (a, b, where))
    def xcompare(self, op, a, b):
        def parts(v):
            if isinstance(v, XFloat): return v.val, v.nan, v.pinf, v.ninf
            if isinstance(v, float):
                return z3.RealVal(0), z3.BoolVal(v != v), z3.BoolVal(v == float('inf')), z3.BoolVal(v == float('-inf'))
            return zr(v), z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(False)
        av, an, ap, am = parts(a); bv, bn, bp, bm = parts(b)
        fin = z3.And(z3.Not(an), z3.Not(bn))
        eq = z3.And(fin, z3.Or(z3.And(ap, bp), z3.And(am, bm), z3.And(z3.Not(z3.Or(ap, am, bp, bm)), av == bv)))
        lt = z3.And(fin, z3.Or(z3.And(am, z3.Not(bm)), z3.And(z3.Not(ap), bp), z3.And(z3.Not(z3.Or(ap, am, bp, bm)), av < bv)))
        gt = z3.And(fin, z3.Not(lt), z3.Not(eq))
        return z3.simplify({'Lt': lt, 'LtE': z3.Or(lt, eq), 'Gt': gt, 'GtE': z3.Or(gt, eq), 'Eq': eq}[op])
    def is_(self, ip, a, b, where):
        if a is None and b is None: return True
        for x, y in ((a, b), (b, a)):
            if y is None:
                if isinstance(x, Obj): return (x.term == null_of(x.fam)) if not x.nonnull else False
                if isinstance(x, Opq) and x.tag == 'maybe': return z3.Const('isnone_' + stable(x.key()), z3.BoolSort())
                return False
        if isinstance(a, Obj) and isinstance(b, Obj): return a.term == b.term if a.fam == b.fam else False
        if isinstance(a, bool) and isinstance(b, bool): return a is b
        if isinstance(a, (ClassInfo, ExtRef, FuncInfo)): return a == b
        if is_boolv(a) and is_boolv(b): return zb(a) == zb(b)
        raise OutOfSubset('identity comparison at ' + where)
    def equal(self, ip, a, b, where):
        if a is None or b is None: return self.is_(ip, a, b, where)
        if isinstance(a, XFloat) or isinstance(b, XFloat): return self.xcompare('Eq', a, b)
        if is_boolv(a) and is_boolv(b):
            if isinstance(a, bool) and isinstance(b, bool): return a == b
            return zb(a) == zb(b)
        if is_boolv(a) and is_num(b): a = zi(a)
        if is_boolv(b) and is_num(a): b = zi(b)
        if is_num(a) and is_num(b):
            if not is_z3(a) and not is_z3(b): return a == b
            return (zi(a) == zi(b)) if is_int_kind(a) and is_int_kind(b) else (zr(a) == zr(b))
        if isinstance(a, str) and isinstance(b, str): return a == b
        if isinstance(a, (str, Opq)) and isinstance(b, (str, Opq)) or (isinstance(a, Obj) and a.fam == 'opaque') or (isinstance(b, Obj) and b.fam == 'opaque'):
            if vkey(a) == vkey(b): return True
            ca, cb = ip.opaque(a), ip.opaque(b)
            return ca == cb
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            cs = [self.equal(ip, x, y, where) for x, y in zip(a, b)]
            if all(isinstance(c, bool) for c in cs): return all(cs)
            return z3.And(*[zb(c) for c in cs])
        if isinstance(a, Obj) and isinstance(b, Obj) and a.fam == b.fam and not is_dict_type(a.fam): return a.term == b.term
        if isinstance(a, (ClassInfo, ExtRef)) and isinstance(b, (ClassInfo, ExtRef)): return a == b
        if (is_num(a) or is_boolv(a)) and isinstance(b, (str, tuple, PList)): return False
        if isinstance(a, (str, tuple, PList)) and is_num(b): return False
        if isinstance(a, PList) and isinstance(b, PList) and not a.segs and not b.segs:
            return self.equal(ip, tuple(a.items), tuple(b.items), where)
        raise OutOfSubset('equality of %r and %r at %s' % (a, b, where))
    def contains(self, ip, c, x, where):
        if isinstance(c, AttrNames):
            if not isinstance(x, str) or x in c.maybe: raise OutOfSubset('attribute name %r at %s' % (x, where))
            return x in c.names
        if ip.rec is not None: ip.rec.read(c)
        if isinstance(c, str) and isinstance(x, str): return x in c
        if isinstance(c, (Opq, Obj)) and (isinstance(c, Opq) or c.fam == 'opaque'):
            return z3.Const('in_' + stable(vkey(x), vkey(c)), z3.BoolSort())
        if isinstance(c, PDict):
            if c.ref is not None: return self.contains(ip, c.ref, x, where)
            if c.fd is not None: return self.contains(ip, c.fd, x, where)
            c = PSet(list(c.items.keys()))
        if isinstance(c, (tuple, PSet)) or (isinstance(c, PList) and not c.segs):
            items = c if isinstance(c, tuple) else c.items
            r = []
            for y in items:
                e = self.equal(ip, x, y, where)
                if isinstance(e, bool):
                    if e: return True
                else: r.append(e)
            return z3.Or(*r) if r else False
        if isinstance(c, FDict): return z3.substitute(c.has, (c.var, ip.unwrap(x, c.ktype)))
        if isinstance(c, Obj) and is_dict_type(c.fam):
            has, val, K, V = ip.dget(c)
            return z3.Select(has, ip.unwrap(x, K))
        if isinstance(c, DView) and c.what == 'keys': return self.contains(ip, c.d, x, where)
        if isinstance(c, Comp) or (isinstance(c, PList) and c.segs) or isinstance(c, (SlSlice, DView)) or (isinstance(c, Obj) and (c.fam == 'SL' or is_list_type(c.fam))):
            k, s = ip.iterate(c)
            rs = []
            for cc in s:
                e = self.equal(ip, cc.elem, x, where)
                if is_z3(cc.elem) and cc.elem.eq(cc.var) and is_z3(z(x)):
                    rs.append(z3.substitute(cc.guard, (cc.var, z(x))))
                else: rs.append(ip.reg.make('CNT', cc.var, z3.And(cc.guard, zb(e)), None, cc.facts) > 0)
            return z3.Or(*rs)
        raise OutOfSubset('membership in %r at %s' % (c, where))

    # ------------------------------------------------------------------ aggregates
    def comps(self, ip, v, where):
        k, s = ip.iterate(v)
        return k, s
    def sum_(self, ip, v, where, start=0):
        if getattr(v, 'sorted_of', None) is not None: v = v.sorted_of
        k, s = ip.iterate(v)
        tot = start
        for x in s:
            if k == 'concrete': tot = self.binop(ip, '+', tot, x, where, 'sum')
            else: tot = self.binop(ip, '+', tot, self.sum_comp(ip, x, where), where, 'sum')
        return tot
    def sum_comp(self, ip, c, where):
        if c.isset and not (is_z3(c.elem) and c.elem.eq(c.var)): raise OutOfSubset('sum over a set')
        e = c.elem
        if is_boolv(e): e = zi(e)
        if not is_num(e): raise OutOfSubset('sum of %r at %s' % (e, where))
        if is_int_kind(e): return ip.reg.make('ISUM', c.var, c.guard, zi(e), c.facts)
        return ip.reg.make('SUM', c.var, c.guard, zr(e), c.facts)
    def nonempty(self, ip, v, exc, where):
        n = self.length(ip, v)
        ip.require(n > 0, exc, where)
    def agg(self, ip, kind, v, where, empty_exc='ValueError'):
        k, s = ip.iterate(v)
        if k == 'concrete':
            if not s: raise SymRaiseT()(empty_exc, where)
            if kind in ('MAX', 'MIN'): return minmax(ip, s, kind.lower(), where)
            if len(s) == 1: return s[0]
            raise OutOfSubset('%s of a concrete list' % kind)
        if len(s) != 1: raise OutOfSubset('%s over several parts' % kind)
        c = s[0]
        n = self.complen(ip, c)
        ip.require(z(n) > 0, empty_exc, where)
        e = c.elem
        if is_boolv(e): e = zi(e)
        if not is_num(e): raise OutOfSubset('%s of %r at %s' % (kind, e, where))
        res = None
        if kind in ('MAX', 'MIN') and is_int_kind(e): return ip.reg.make(kind, c.var, c.guard, zi(e), c.facts, z3.IntSort())
        return ip.reg.make(kind, c.var, c.guard, zr(e), c.facts)

    # ------------------------------------------------------------------ calls of external functions
    def call(self, ip, name, args, kw, where):
        h = self.world.ext_calls.get(name)
        if h is not None:
            ip.ext_used.add(name)
            return h(ip, args, kw, where)
        n = name.split('.')[-1]
        m = getattr(self, 'c_' + name.replace('.', '_'), None)
        if m is None: raise OutOfSubset('call of %s at %s' % (name, where))
        if not name.startswith('builtins.'): ip.ext_used.add(name)
        return m(ip, args, kw, where)
    def c_builtins_len(self, ip, a, kw, w): return self.length(ip, a[0])
    def c_builtins_print(self, ip, a, kw, w): return None
    def c_builtins_abs(self, ip, a, kw, w):
        v = a[0]
        if isinstance(v, (int, Fraction)): return abs(v)
        if isinstance(v, z3.ArithRef): return z3.If(v >= 0, v, -v)
        raise OutOfSubset('abs')
    def _minmax(self, ip, a, kw, w, which):
        key = kw.get('key')
        if 'default' in kw and key is None and len(a) == 1:
            k, s = ip.iterate(a[0])
            n = self.length(ip, a[0])
            if not ip.branch(n > 0): return kw['default']
        if len(a) == 1:
            if key is None: return self.agg(ip, which.upper(), a[0], '%s of an empty sequence, %s' % (which, w))
            k, s = ip.iterate(a[0])
            if k != 'concrete': raise OutOfSubset('max/min with key over a symbolic sequence')
            items = s
        else: items = a
        if not items: raise SymRaiseT()('ValueError', w)
        if key is None: return minmax(ip, items, which, w)
        best = items[0]; bk = ip.call(key, [best], {}, w)
        for x in items[1:]:
            xk = ip.call(key, [x], {}, w)
            if ip.branch(ip.truth(ip.compare(ast.Gt() if which == 'max' else ast.Lt(), xk, bk, ast.Pass()))): best, bk = x, xk
        return best
    def c_builtins_max(self, ip, a, kw, w): return self._minmax(ip, a, kw, w, 'max')
    def c_builtins_min(self, ip, a, kw, w): return self._minmax(ip, a, kw, w, 'min')
    def c_builtins_sum(self, ip, a, kw, w): return self.sum_(ip, a[0], w, a[1] if len(a) > 1 else kw.get('start', 0))
    def c_math_fsum(self, ip, a, kw, w):
        r = self.sum_(ip, a[0], w)
        return zr(r) if is_z3(r) else Fraction(r)
    def c_builtins_any(self, ip, a, kw, w):
        k, s = ip.iterate(a[0])
        if k == 'concrete':
            for x in s:
                if ip.branch(ip.truth(x)): return True
            return False
        return z3.Or(*[ip.reg.make('CNT', c.var, z3.And(c.guard, zb(ip.truth(c.elem))), None, c.facts) > 0 for c in s])
    def c_builtins_all(self, ip, a, kw, w):
        k, s = ip.iterate(a[0])
        if k == 'concrete':
            for x in s:
                if not ip.branch(ip.truth(x)): return False
            return True
        return z3.And(*[ip.reg.make('CNT', c.var, z3.And(c.guard, z3.Not(zb(ip.truth(c.elem)))), None, c.facts) == 0 for c in s])
    def c_builtins_round(self, ip, a, kw, w):
        v = a[0]
        if isinstance(v, Opq) or (isinstance(v, Obj) and v.fam == 'opaque'): return Opq('round', a)
        if len(a) == 1 or a[1] is None:
            if isinstance(v, int): return v
            if is_z3(v) and v.is_int(): return v
            r = ROUND0(zr(v))
            ip.assume(z3.And(2 * (z3.ToReal(r) - zr(v)) <= 1, 2 * (zr(v) - z3.ToReal(r)) <= 1))
            return r
        if is_int_kind(v): return v
        return ROUNDN(zr(v), zi(a[1]))
    def c_builtins_int(self, ip, a, kw, w):
        if not a: return 0
        v = a[0]
        if isinstance(v, bool): return int(v)
        if isinstance(v, int): return v
        if isinstance(v, Fraction): return int(v)
        if isinstance(v, z3.BoolRef): return zi(v)
        if isinstance(v, z3.ArithRef):
            if v.is_int(): return v
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if isinstance(v, str):
            try: return int(v)
            except ValueError: raise SymRaiseT()('ValueError', w)
        if isinstance(v, Opq) or (isinstance(v, Obj) and v.fam == 'opaque'):
            p = self.world.parse_int(ip, v)
            ip.require(p[0], 'ValueError', 'int() of a string, ' + w)
            return p[1]
        if isinstance(v, XFloat):
            ip.require(z3.Not(z3.Or(v.nan, v.pinf, v.ninf)), 'OverflowError', w)
            return z3.If(v.val >= 0, z3.ToInt(v.val), -z3.ToInt(-v.val))
        raise OutOfSubset('int(%r)' % (v,))
    def c_builtins_float(self, ip, a, kw, w):
        if not a: return Fraction(0)
        v = a[0]
        if isinstance(v, (bool, int, Fraction)): return Fraction(v)
        if isinstance(v, (z3.ArithRef, z3.BoolRef)): return zr(v)
        if isinstance(v, XFloat): return v
        if isinstance(v, str):
            try:
                f = float(v)
                return f if f != f or abs(f) == float('inf') else Fraction(repr(f))
            except ValueError: raise SymRaiseT()('ValueError', w)
        if isinstance(v, Opq) or (isinstance(v, Obj) and v.fam == 'opaque'):
            ok, x = self.world.parse_float(ip, v)
            ip.require(ok, 'ValueError', 'float() of a string, ' + w)
            return x
        raise OutOfSubset('float(%r)' % (v,))
    def c_builtins_bool(self, ip, a, kw, w): return ip.truth(a[0]) if a else False
    def c_builtins_str(self, ip, a, kw, w):
        v = a[0] if a else ''
        if isinstance(v, str): return v
        if isinstance(v, int): return str(v)
        return Opq('str', [v])
    def c_builtins_repr(self, ip, a, kw, w): return Opq('repr', a)
    def c_builtins_list(self, ip, a, kw, w):
        if not a: return PList([])
        if type(a[0]).__name__ == 'SortedSeq': return a[0]
        k, s = ip.iterate(a[0])
        if k == 'concrete': return PList(s)
        p = PList([]); p.segs = list(s)
        return p
    def c_builtins_tuple(self, ip, a, kw, w):
        if not a: return ()
        k, s = ip.iterate(a[0])
        if k == 'concrete': return tuple(s)
        p = PList([]); p.segs = list(s); return p
    def c_builtins_set(self, ip, a, kw, w):
        if not a: return PSet([])
        k, s = ip.iterate(a[0])
        if k == 'concrete': return self.mkset(ip, s)
        if len(s) != 1: raise OutOfSubset('set of several parts')
        c = s[0]
        return Comp(c.var, c.guard, c.elem, c.facts, isset=True)
    c_builtins_frozenset = c_builtins_set
    def c_builtins_dict(self, ip, a, kw, w):
        d = PDict()
        if a:
            src = a[0]
            if isinstance(src, PDict) and src.ref is None and src.fd is None: d.items = dict(src.items)
            elif isinstance(src, (PDict, Obj)): return self.method(ip, src, 'copy', [], {}, w)
            else:
                k, s = ip.iterate(src)
                if k != 'concrete': raise OutOfSubset('dict() of a symbolic sequence')
                for x in s:
                    kk, vv = ip.unpack(x, ast.Tuple([None, None]))
                    self.setitem(ip, d, kk, vv, w)
        d.items.update(kw)
        return d
    def c_builtins_range(self, ip, a, kw, w):
        if len(a) == 1: lo, hi = 0, a[0]
        elif len(a) == 2: lo, hi = a
        else:
            if all(isinstance(x, int) for x in a): return PList(list(range(*a)))
            raise OutOfSubset('range with step')
        if isinstance(lo, int) and isinstance(hi, int): return PList(list(range(lo, hi))) if hi - lo < 200 else self._range(ip, lo, hi)
        return self._range(ip, lo, hi)
    def _range(self, ip, lo, hi):
        k = ip.reg.fresh_bound(z3.IntSort(), 'i')
        return Comp(k, z3.And(k >= zi(lo), k < zi(hi)), k, base=('range', lo if isinstance(lo, int) else lo.sexpr(), hi if isinstance(hi, int) else hi.sexpr()), lo=lo, hi=hi)
    def c_builtins_enumerate(self, ip, a, kw, w):
        st = a[1] if len(a) > 1 else kw.get('start', 0)
        k, s = ip.iterate(a[0])
        if k == 'concrete': return PList([(self.binop(ip, '+', i, st, w, ''), x) for i, x in enumerate(s)])
        if len(s) != 1: raise OutOfSubset('enumerate over several parts')
        c = s[0]
        if c.hi is not None:
            pos = self.binop(ip, '-', c.var, c.lo, w, '')
        else:
            pos = z3.Function('POSOF_' + stable(c.base, z3.simplify(c.guard).sexpr()), c.var.sort(), z3.IntSort())(c.var)
            n = self.complen(ip, c)
            c = Comp(c.var, c.guard, c.elem, list(c.facts) + [pos >= 0, pos < z(n)], c.base)
        return Comp(c.var, c.guard, (self.binop(ip, '+', pos, st, w, ''), c.elem), c.facts, c.base, c.lo, c.hi)
    def c_builtins_zip(self, ip, a, kw, w):
        its = [ip.iterate(x) for x in a]
        if all(k == 'concrete' for k, _ in its): return PList(list(zip(*[s for _, s in its])))
        cs = [s[0] for k, s in its if k == 'comp' and len(s) == 1]
        if len(cs) == len(a) and all(c.base is not None and c.base == cs[0].base for c in cs):
            v = cs[0].var
            return Comp(v, cs[0].guard, tuple(subst(c.elem, c.var, v) for c in cs), [z3.substitute(f, (c.var, v)) for c in cs for f in c.facts],
                        cs[0].base, cs[0].lo, cs[0].hi)
        raise OutOfSubset('zip at ' + w)
    def c_builtins_isinstance(self, ip, a, kw, w):
        v, t = a
        ts = t if isinstance(t, tuple) else (t,)
        res = []
        for x in ts:
            n = x.name.split('.')[-1] if isinstance(x, (ExtRef, ClassInfo)) else '?'
            if isinstance(v, Obj) and isinstance(x, ClassInfo):
                if v.cls is None: raise OutOfSubset('isinstance of an object of unknown class')
                res.append(v.cls.issub(x))
            elif isinstance(v, Obj) and v.fam == 'opaque' and n in KINDS_OF:
                preds = [z3.Function('IS_' + x, fam_sort('opaque'), z3.BoolSort())(v.term) for x in KINDS_OF]
                ip.assume(z3.AtMost(*preds, 1))
                res.append(preds[KINDS_OF.index(n)])
            elif n == 'list': res.append(isinstance(v, PList) or (isinstance(v, Obj) and is_list_type(v.fam)))
            elif n == 'str': res.append(isinstance(v, str))
            elif n == 'dict': res.append(isinstance(v, (PDict, FDict)) or (isinstance(v, Obj) and is_dict_type(v.fam)))
            elif n == 'int': res.append((is_num(v) and is_int_kind(v)) or isinstance(v, bool))
            elif n == 'float': res.append(is_num(v) and not is_int_kind(v))
            elif n == 'tuple': res.append(isinstance(v, tuple))
            elif n == 'bool': res.append(is_boolv(v))
            else: raise OutOfSubset('isinstance(%s)' % n)
            if isinstance(v, Opq) and v.tag == 'any': raise OutOfSubset('isinstance of opaque')
        return any(res) if all(isinstance(x, bool) for x in res) else z3.Or(*[zb(x) for x in res])
    def c_builtins_type(self, ip, a, kw, w):
        if isinstance(a[0], Obj) and a[0].cls: return a[0].cls
        return Opq('type', a)
    def c_builtins_map(self, ip, a, kw, w):
        k, s = ip.iterate(a[1])
        if k == 'concrete': return PList([ip.call(a[0], [x], {}, w) for x in s])
        p = PList([])
        p.segs = [ip.map_comp(c, None, [], lambda c=c: ip.call(a[0], [c.elem], {}, w)) for c in s]
        return p
    def c_builtins_reversed(self, ip, a, kw, w):
        k, s = ip.iterate(a[0])
        if k == 'concrete': return PList(list(reversed(s)))
        raise OutOfSubset('reversed')
    def c_builtins_sorted(self, ip, a, kw, w):
        from .seqs import sorted_
        return sorted_(ip, a[0], kw.get('key'), kw.get('reverse', False), w)
    def c_builtins_getattr(self, ip, a, kw, w):
        if isinstance(a[1], str): return ip.getattr(a[0], a[1], ast.Pass())
        raise OutOfSubset('getattr')
    def c_builtins_setattr(self, ip, a, kw, w):
        if isinstance(a[1], str): ip.setattr(a[0], a[1], a[2], ast.Pass()); return None
        raise OutOfSubset('setattr with a symbolic name')
    def c_builtins_vars(self, ip, a, kw, w):
        if len(a) != 1 or not isinstance(a[0], Obj): raise OutOfSubset('vars at ' + w)
        return attribute_names(ip, ip.nonnull(a[0], w))
    def c_builtins_locals(self, ip, a, kw, w):
        fr = ip.frames[-1]
        if fr.func is None or fr.parent is not None: raise OutOfSubset('locals() at ' + w)
        d = PDict(); d.items = dict(fr.env)
        if any(isinstance(n, ast.Name) and n.id == 'super' for n in ast.walk(fr.func.node)): d.items['__class__'] = fr.cls
        return d
    def c_math_floor(self, ip, a, kw, w):
        v = a[0]
        if isinstance(v, (int, Fraction)): return math.floor(v)
        return v if v.is_int() else z3.ToInt(v)
    def c_math_ceil(self, ip, a, kw, w):
        v = a[0]
        if isinstance(v, (int, Fraction)): return math.ceil(v)
        return v if v.is_int() else -z3.ToInt(-v)
    def c_math_isfinite(self, ip, a, kw, w):
        v = a[0]
        if isinstance(v, XFloat): return z3.Not(z3.Or(v.nan, v.pinf, v.ninf))
        if isinstance(v, float): return math.isfinite(v)
        return True
    def c_math_isnan(self, ip, a, kw, w):
        v = a[0]
        if isinstance(v, XFloat): return v.nan
        return isinstance(v, float) and v != v
    def c_math_isinf(self, ip, a, kw, w):
        v = a[0]
        if isinstance(v, XFloat): return z3.Or(v.pinf, v.ninf)
        return isinstance(v, float) and abs(v) == float('inf')
    def c_statistics_mean(self, ip, a, kw, w):
        n = self.length(ip, a[0])
        ip.require(n > 0, 'StatisticsError', w)
        return self.binop(ip, '/', self.sum_(ip, a[0], w), n, w, 'mean')
    c_statistics_fmean = c_statistics_mean
    def c_statistics_median(self, ip, a, kw, w): 
        if getattr(a[0], 'sorted_of', None) is not None: return self.agg(ip, 'MEDIAN', a[0].sorted_of, w, 'StatisticsError')
        return self.agg(ip, 'MEDIAN', a[0], w, 'StatisticsError')
    def c_collections_defaultdict(self, ip, a, kw, w):
        d = PDict(); d.default = a[0] if a else None
        return d
    def c_collections_Counter(self, ip, a, kw, w):
        if not a: 
            d = PDict(); d.default = ExtRef('builtins.int'); return d
        k, s = ip.iterate(a[0])
        if k == 'concrete' or len(s) != 1: raise OutOfSubset('Counter of a concrete list')
        c = s[0]
        e = self.scalar(ip, c.elem)
        kv = ip.reg.fresh_bound(e.sort())
        cnt = ip.reg.make('CNT', c.var, z3.And(c.guard, e == kv), None, c.facts)
        d = PDict()
        d.fd = FDict(ip.type_of(c.elem), kv, cnt > 0, cnt, 'int', default=0)
        return d
    def c_functools_partial(self, ip, a, kw, w): return Partial(a[0], a[1:], kw)
    def c_copy_copy(self, ip, a, kw, w):
        v = a[0]
        if isinstance(v, (PDict, Obj)) and (isinstance(v, PDict) or is_dict_type(v.fam)): return self.method(ip, v, 'copy', [], {}, w)
        if isinstance(v, PList):
            p = PList(v.items); p.segs = list(v.segs) if v.segs else None; return p
        raise OutOfSubset('copy')
    def c_copy_deepcopy(self, ip, a, kw, w):
        from .heapx import deepcopy
        return deepcopy(ip, a[0], w)
    def nd(self, ip, v):
        p = PList([])
        if isinstance(v, PList): p.items, p.segs = list(v.items), (list(v.segs) if v.segs else None)
        else:
            k, s = ip.iterate(v)
            if k == 'concrete': p.items = list(s)
            else: p.segs = list(s)
        p.np = True
        if hasattr(v, 'sorted_of'): p.sorted_of = v.sorted_of
        return p
    def elementwise(self, ip, fn, a, b, where):
        na, nb = getattr(a, 'np', False), getattr(b, 'np', False)
        p = PList([]); p.np = True
        if na and nb:
            if a.segs or b.segs: raise OutOfSubset('operation on two arrays at ' + where)
            if len(a.items) != len(b.items): raise OutOfSubset('broadcast at ' + where)
            p.items = [fn(x, y) for x, y in zip(a.items, b.items)]; return p
        arr, flip = (a, False) if na else (b, True)
        o = b if na else a
        if not (is_num(o) or is_boolv(o)): raise OutOfSubset('operation on an array at ' + where)
        p.items = [fn(o, x) if flip else fn(x, o) for x in arr.items]
        if arr.segs: p.segs = [ip.map_comp(c, None, [], lambda c=c: fn(o, c.elem) if flip else fn(c.elem, o)) for c in arr.segs]
        return p
    def typed(self, ip, v, kw, w):
        """the dtype argument of an array constructor"""
        t = kw.get('dtype')
        if set(kw) - {'dtype'}: raise OutOfSubset('array options at ' + w)
        if t is None or isinstance(t, ExtRef) and 'float' in t.name: return v
        if isinstance(t, ExtRef) and 'int' in t.name:
            v = self.c_builtins_list(ip, [v], {}, w)
            if all(is_num(x) and is_int_kind(x) for x in v.items) and all(is_num(c.elem) and is_int_kind(c.elem) for c in v.segs or []): return v
            return self.c_builtins_map(ip, [ExtRef('builtins.int'), v], {}, w)
        raise OutOfSubset('array of type %r at %s' % (t, w))
    def c_numpy_array(self, ip, a, kw, w): return self.nd(ip, self.typed(ip, a[0], kw, w) if kw else a[0])
    c_numpy_asarray = c_numpy_array
    def c_numpy_sum(self, ip, a, kw, w): return self.sum_(ip, a[0], w)
    def c_numpy_abs(self, ip, a, kw, w):
        if is_num(a[0]): return self.c_builtins_abs(ip, a, kw, w)
        return self.nd(ip, self.c_builtins_map(ip, [ExtRef('builtins.abs'), a[0]], {}, w))
    def c_numpy_fromiter(self, ip, a, kw, w): return self.nd(ip, self.typed(ip, self.c_builtins_list(ip, a[:1], {}, w), kw or ({'dtype': a[1]} if len(a) > 1 else {}), w))
    def c_numpy_zeros(self, ip, a, kw, w): return self.nd(ip, self.repeat(ip, PList([Fraction(0) if not (isinstance(kw.get('dtype'), ExtRef) and kw['dtype'].name.endswith('int')) else 0]), a[0]))
    def c_numpy_append(self, ip, a, kw, w): return self.nd(ip, self.binop(ip, '+', self.c_builtins_list(ip, [a[0]], {}, w), self.c_builtins_list(ip, [a[1]], {}, w), w, ''))
    def c_numpy_mean(self, ip, a, kw, w): return self.c_statistics_mean(ip, a, kw, w)
    def c_numpy_median(self, ip, a, kw, w): return self.c_statistics_median(ip, a, kw, w)
    def c_numpy_max(self, ip, a, kw, w): return self.agg(ip, 'MAX', a[0], w)
    def c_numpy_argmax(self, ip, a, kw, w):
        from .seqs import argmax_
        return argmax_(ip, a[0], w)
    def c_itertools_chain(self, ip, a, kw, w):
        p = PList([])
        for x in a: self.method(ip, p, 'extend', [x], {}, w)
        return p
    def c_heapq_nlargest(self, ip, a, kw, w):
        """the n largest entries (as a collection: the order within it is not described)"""
        from .symspec import quant
        if kw: raise OutOfSubset('nlargest with a key')
        n, src = a
        k, s = ip.iterate(src)
        if k == 'concrete' or len(s) != 1: raise OutOfSubset('nlargest of a fixed sequence')
        c = s[0]
        sort = c.var.sort()
        ch = z3.Function(ip.fresh_name('chosen'), sort, z3.BoolSort())
        g = z3.And(c.guard, ch(c.var))
        total, cnt = ip.reg.make('CNT', c.var, c.guard, None, c.facts), ip.reg.make('CNT', c.var, g, None, c.facts)
        ip.assume(cnt == z3.If(zi(n) >= total, total, z3.If(zi(n) >= 0, zi(n), 0)))
        x, y = z3.Const(ip.fresh_name('x'), sort), z3.Const(ip.fresh_name('y'), sort)
        sub = lambda e, t: subst(e, c.var, t)
        better = self.compare(ip, 'GtE', sub(c.elem, x), sub(c.elem, y), w)
        ip.assume(quant([x, y], z3.Implies(z3.And(sub(c.guard, x), ch(x), sub(c.guard, y), z3.Not(ch(y)), *[sub(f, t) for f in c.facts for t in (x, y)]), zb(better)), [[ch(x), ch(y)]]))
        p = PList([]); p.segs = [Comp(c.var, g, c.elem, c.facts)]
        return p
    def c_sortedcontainers_SortedList(self, ip, a, kw, w): return slists.build(ip, a, kw, w)
    c_sortedcontainers_SortedKeyList = c_sortedcontainers_SortedList
    def c_time_time(self, ip, a, kw, w): return ip.fresh('time', z3.RealSort())

    # ------------------------------------------------------------------ methods of external / built-in objects
    def method(self, ip, o, name, a, kw, w):
        if ip.rec is not None:
            r = ip.rec.method(ip, o, name, a, kw)
            if r is not NotImplemented: return r
        elif ip.lift_stamp is not None and isinstance(o, (PList, PDict, PSet)) and o.serial <= ip.lift_stamp and name in MUTATORS:
            raise OutOfSubset('side effect on a list or dictionary under a comprehension at ' + w)
        if isinstance(o, slists.SLV): return slists.method(ip, o, name, a, kw, w)
        if isinstance(o, Obj) and o.fam == 'SL' and name == 'index' and len(a) == 1: return slists.heap_index(ip, o, a[0], w)
        if isinstance(o, tuple) and o and o[0] == 'super': return self.world.super_call(ip, o[1], o[2], name, a, kw, w)
        if isinstance(o, PList):
            if name == 'append':
                if o.segs: o.segs.append(ip.const_comp(a[0]))
                else: o.items.append(a[0])
                return None
            if name == 'extend':
                k, s = ip.iterate(a[0])
                if k == 'concrete' and not o.segs: o.items += s
                elif k == 'concrete':
                    for x in s: o.segs.append(ip.const_comp(x))
                else: o.segs = (o.segs or []) + list(s)
                return None
            if name == 'copy':
                p = PList(o.items); p.segs = list(o.segs) if o.segs else None; return p
            if name == 'pop' and not o.segs:
                i = a[0] if a else -1
                if isinstance(i, int):
                    if not o.items: raise SymRaiseT()('IndexError', w)
                    return o.items.pop(i)
            if name == 'index' and not o.segs:
                for i, x in enumerate(o.items):
                    if ip.branch(ip.truth(self.equal(ip, x, a[0], w))): return i
                raise SymRaiseT()('ValueError', w)
            if name == 'insert' and not o.segs and isinstance(a[0], int): o.items.insert(a[0], a[1]); return None
            if name in ('sum',): return self.sum_(ip, o, w)
            if name == 'mean': return self.c_statistics_mean(ip, [o], {}, w)
            if name == 'max': return self.agg(ip, 'MAX', o, w)
            if name == 'min': return self.agg(ip, 'MIN', o, w)
            if name == 'std': return Opq('std', [o])
            if name == 'count':
                return self.sum_(ip, ip.call(ExtRef('builtins.map'), [Closure2(lambda ip, x: self.equal(ip, x, a[0], w)), o], {}), w)
            if name == 'sort' and not o.segs and not o.items: return None
            if name == 'sort':
                from .seqs import sorted_
                r = sorted_(ip, self.method(ip, o, 'copy', [], {}, w), kw.get('key'), kw.get('reverse', False), w)
                raise OutOfSubset('in-place sort')
        if isinstance(o, PDict) and (o.ref is not None): return self.method(ip, o.ref, name, a, kw, w)
        if isinstance(o, (PDict, FDict)) or (isinstance(o, Obj) and is_dict_type(o.fam)):
            if name in ('keys', 'values', 'items'): return DView(o, name)
            if name == 'get':
                c = self.contains(ip, o, a[0], w)
                if ip.branch(c): return self.getitem(ip, o, a[0], w)
                return a[1] if len(a) > 1 else None
            if name == 'copy':
                if isinstance(o, PDict):
                    d = PDict(); d.items = dict(o.items); d.fd, d.default = o.fd, o.default; return d
                d = ip.alloc(o.fam)
                has, val, K, V = ip.dget(o)
                ip.dset(d, has, val)
                return d
            if name == 'pop':
                if isinstance(o, PDict) and o.fd is None:
                    if not is_z3(a[0]):
                        if a[0] in o.items: return o.items.pop(a[0])
                        if len(a) > 1: return a[1]
                        raise SymRaiseT()('KeyError', w)
                    if not o.items:
                        if len(a) > 1: return a[1]
                        raise SymRaiseT()('KeyError', w)
                if isinstance(o, Obj):
                    c = self.contains(ip, o, a[0], w)
                    if len(a) > 1:
                        if ip.branch(c): return ip.dict_pop(o, a[0])
                        return a[1]
                    ip.require(c, 'KeyError', w)
                    return ip.dict_pop(o, a[0])
            if name == 'update' and isinstance(o, PDict) and o.fd is None:
                for src in a:
                    if isinstance(src, PDict) and src.ref is None and src.fd is None: o.items.update(src.items)
                    else: raise OutOfSubset('dict.update at ' + w)
                o.items.update(kw)
                return None
            if name == 'setdefault' :
                c = self.contains(ip, o, a[0], w)
                if ip.branch(c): return self.getitem(ip, o, a[0], w)
                self.setitem(ip, o, a[0], a[1], w); return a[1]
            if name == 'most_common' and isinstance(o, PDict) and o.fd is not None:
                return self.most_common(ip, o.fd, a, w)
        if isinstance(o, PSet):
            if name == 'add':
                if not ip.branch(ip.truth(self.contains(ip, o, a[0], w))): o.items.append(a[0])
                return None
        if isinstance(o, DView) and name == 'copy': return o
        if isinstance(o, str):
            if name == 'format': return Opq('format', [o] + list(a))
            if name == 'join':
                k, s = ip.iterate(a[0])
                if k == 'concrete' and all(isinstance(x, str) for x in s): return o.join(s)
                return Opq('join', [o] + (list(s) if k == 'concrete' else [Opq('comp', [c]) for c in s]))
            if name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'replace', 'index', 'find') and all(isinstance(x, (str, int)) for x in a):
                try: r = getattr(o, name)(*a)
                except ValueError: raise SymRaiseT()('ValueError', w)
                return PList(r) if isinstance(r, list) else r
        if isinstance(o, Opq) or (isinstance(o, Obj) and o.fam == 'opaque'):
            if isinstance(o, Opq):
                r = files.method(ip, o, name, a, kw, w)
                if r is not NotImplemented: return r
            h = self.world.opq_methods.get(name)
            if h: return h(ip, o, a, kw, w)
            return Opq('m:' + name, [o] + list(a) + [x for kv in sorted(kw.items()) for x in kv])
        if isinstance(o, Obj):
            h = self.world.obj_methods.get((o.fam, name))
            if h:
                ip.ext_used.add('%s.%s' % (o.fam, name))
                return h(ip, o, a, kw, w)
            if is_list_type(o.fam):
                t = o.fam
                n = z3.Select(ip.harr(t, 'len'), o.term); at = z3.Select(ip.harr(t, 'at'), o.term)
                if name == 'append':
                    off = z3.Select(ip.harr(t, 'off'), o.term)
                    ip.heap[(t, 'at')] = z3.Store(ip.harr(t, 'at'), o.term, z3.Store(at, off + n, ip.unwrap(a[0], t[2:-1])))
                    ip.heap[(t, 'len')] = z3.Store(ip.harr(t, 'len'), o.term, n + 1)
                    return None
                if name == 'pop' and a == [0]:
                    off = z3.Select(ip.harr(t, 'off'), o.term)
                    ip.require(n > 0, 'IndexError', w)
                    ip.heap[(t, 'off')] = z3.Store(ip.harr(t, 'off'), o.term, off + 1)
                    ip.heap[(t, 'len')] = z3.Store(ip.harr(t, 'len'), o.term, n - 1)
                    return ip.wrap(z3.Select(at, off), t[2:-1])
        if is_num(o) and name == 'item': return o
        raise OutOfSubset('method %s of %r at %s' % (name, o, w))
    def most_common(self, ip, fd, a, w):
        if a != [1]: raise OutOfSubset('most_common(n)')
        ne = ip.reg.make('CNT', fd.var, fd.has, None)
        m = ip.reg.make('MAX', fd.var, fd.has, z(fd.val), (), z3.IntSort())
        key = ip.fresh('mc_key', fd.var.sort())
        if ip.branch(ne > 0): return PList([(ip.wrap(key, fd.ktype), m)])
        return PList([])

class Closure2:
    def __init__(self, fn): self.fn = fn
def SymRaiseT():
    from .interp import SymRaise
    return SymRaise
