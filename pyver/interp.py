"""Symbolic interpreter for the Python subset, working directly on the AST of /repo's files.

Path exploration is by deterministic re-execution along decision traces; `lift` explores all paths of a
sub-computation locally and merges them (used under bound variables: comprehensions and summarised loops)."""
import ast, math
from fractions import Fraction
import z3
from .vals import *
from .source import *
from .slists import SLV
from .aggs import Registry
from . import solve

class PathEnd(Exception): pass
class SymRaise(Exception):
    def __init__(self, exc, where=''): self.exc, self.where = exc, where
    def __str__(self): return '%s (%s)' % (self.exc, self.where)
class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cnt(Exception): pass

EXC_PARENTS = {'KeyError': ['LookupError'], 'IndexError': ['LookupError'], 'ZeroDivisionError': ['ArithmeticError'],
               'OverflowError': ['ArithmeticError'], 'FileNotFoundError': ['OSError'], 'ArgumentTypeError': [],
               'StatisticsError': ['ValueError'], 'NotImplementedError': ['RuntimeError'], 'JSONDecodeError': ['ValueError']}
def exc_matches(exc, handler):
    todo, seen = [exc], set()
    while todo:
        e = todo.pop()
        if e == handler: return True
        if e in seen: continue
        seen.add(e); todo += EXC_PARENTS.get(e, [])
    return handler in ('Exception', 'BaseException')

class Frame:
    def __init__(self, func, env, module, cls=None, parent=None):
        self.func, self.env, self.module, self.cls, self.parent = func, env, module, cls, parent
        self.loop_ord = 0

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^'}
MAX_PATHS = 600
MAX_STEPS = 400000

OPAQUES = {}      # the values the opaque constants stand for
class Interp:
    def __init__(self, prog, world, target=None):
        self.prog, self.world, self.target = prog, world, target
        self.reg = Registry()
        self.obls = {}           # key -> record
        self.timeout = 10.0
        self.calls_seen, self.inlined, self.ext_used, self.assumed = set(), set(), set(), set()
        self.bounds = []         # bound variables in scope (lifted code)
        self.silent = 0
        self.lift_stamp = None; self.oblog = None
        self.reset_path([])
        self.steps = 0
        self.feas_cache, self.mods_cache = {}, {}

    # ------------------------------------------------------------------ path state
    def reset_path(self, trace):
        self.pc, self.trace, self.pos, self.pending = [], list(trace), 0, []
        self.heap, self.nfresh, self.heap0 = {}, 0, {}
        self.globals_ = []       # facts about the entry state, valid everywhere
        self.bounds = []
        self.frames = []
        self.rec = None
        self.ghost = {}
        self.powapps = []
    def fresh_name(self, base):
        self.nfresh += 1
        return '%s!%d' % (base, self.nfresh)
    def fresh(self, base, sort):
        n = self.fresh_name(base)
        if self.bounds:
            return z3.Function(n, *[b.sort() for b in self.bounds], sort)(*self.bounds)
        return z3.Const(n, sort)
    def assume(self, c):
        if isinstance(c, bool): c = z3.BoolVal(c)
        if z3.is_true(c): return
        self.pc.append(('f', c))
    def conds(self): return self.globals_ + [c for _, c in self.pc]
    def feasible(self, c):
        key = (tuple(x.get_id() for x in self.conds()), c.get_id())
        if key in self.feas_cache: return self.feas_cache[key][0]
        s = z3.SimpleSolver(); s.set('timeout', 400); s.set('mbqi', False); s.set('auto_config', False)      # a model is not needed
        for x in self.conds(): s.add(x)
        s.add(c)
        r = s.check()
        self.feas_cache[key] = (r != z3.unsat, self.conds(), c)
        return r != z3.unsat
    def branch(self, c):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.trace):
            d, forced = self.trace[self.pos]; self.pos += 1
        else:
            t, f = self.feasible(c), self.feasible(z3.Not(c))
            if not t and not f: raise PathEnd()
            forced = not (t and f)
            if not forced:
                self.pending.append(self.trace[:self.pos] + [(False, False)]); d = True
            else: d = t
            self.trace.append((d, forced)); self.pos += 1
        # what follows from the path so far is no condition of it
        self.pc.append(('f' if forced else 'b', c if d else z3.Not(c)))
        return d
    def require(self, c, exc, where):
        """language-level check: if c may be false an exception is raised there"""
        if not self.branch(c): raise SymRaise(exc, where)
    def lift(self, thunk, allow_heap=False):
        """explore all paths of thunk from here; -> list of (cond, value, facts, heap)"""
        pc0, tr0, pos0, pend0, heap0 = self.pc, self.trace, self.pos, self.pending, self.heap
        stamp0, self.lift_stamp = self.lift_stamp, serial()
        results, work, n = [], [[]], 0
        nf0 = self.nfresh; nfmax = nf0
        try:
            while work:
                n += 1
                if n > 200: raise OutOfSubset('too many paths in a loop body / comprehension')
                self.pc = list(pc0); self.trace = work.pop(); self.pos = 0; self.pending = work
                self.heap = dict(heap0); 
                try: v = thunk()
                except PathEnd: continue
                except SymRaise as e:
                    self.raised_in_lift(e); continue
                new = self.pc[len(pc0):]
                conds = [c for t, c in new if t == 'b']
                facts = []
                acc = []
                for t, c in new:
                    if t == 'b': acc.append(c)
                    else: facts.append(z3.Implies(z3.And(*acc), c) if acc else c)
                h = self.heap
                if not allow_heap:
                    for k in h:
                        if k not in heap0:
                            heap0[k] = self.heap0[k]
                        if not h[k].eq(heap0[k]): raise OutOfSubset('side effect on %s.%s under a comprehension' % k)
                results.append((z3.And(*conds) if conds else z3.BoolVal(True), v, facts, h))
        finally:
            self.pc, self.trace, self.pos, self.pending = pc0, tr0, pos0, pend0
            self.heap = heap0
            self.lift_stamp = stamp0
        return results
    def raised_in_lift(self, e):
        if self.oblog is not None: self.oblog += [c for t, c in self.pc if t == 'b']
        self.oblige('no %s: %s' % (e.exc, e.where), z3.BoolVal(False))
    def merge(self, results):
        if not results: raise PathEnd()
        v = results[-1][1]
        for c, x, _, _ in reversed(results[:-1]): v = ite(c, x, v)
        facts = [f for _, _, fs, _ in results for f in fs]
        return v, facts

    # ------------------------------------------------------------------ obligations
    def oblige(self, name, goal, assume=True):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        g = goal
        if self.oblog is not None: self.oblog.append(goal)
        if self.silent:
            if assume: self.assume(goal)
            return True
        key = (name, tuple(c.get_id() for c in self.conds()), g.get_id())
        if key not in self.obls:
            # once something has failed the verdict is settled: later obligations of this contract get less effort
            t = self.timeout if all(o['status'] == 'proved' for o in self.obls.values()) else min(self.timeout, 3.0)
            status, info, be = solve.prove(self.reg, self.conds(), g, t)
            self.obls[key] = dict(name=name, status=status, backend=be, info=info, trivial=z3.is_true(z3.simplify(g)),
                                  pc=self.conds() if status != 'proved' else None, goal=g if status != 'proved' else None,
                                  keep=(self.conds(), g))
        if assume: self.assume(goal)
        return self.obls[key]['status'] == 'proved'
    def valid(self, goal, timeout=3.0):
        """silent check, used to choose between translations (never to claim anything)"""
        st, _, _ = solve.prove(self.reg, self.conds(), goal, timeout, rounds=2, cheap=True)
        return st == 'proved'

    # ------------------------------------------------------------------ heap
    def ftype(self, fam, field):
        t = self.world.schema.get(fam, {}).get(field)
        if t is None:
            if field == '$alive': return 'bool'
            if is_dict_type(fam):
                K, V = dict_kv(fam)
                return {'has': 'A[%s,bool]' % K, 'val': 'A[%s,%s]' % (K, V)}.get(field)
            if is_list_type(fam): return {'len': 'int', 'off': 'int', 'at': 'A[int,%s]' % fam[2:-1]}.get(field)
        return t
    def harr0(self, fam, field):
        k = (fam, field)
        if k not in self.heap0:
            t = self.ftype(fam, field)
            if t is None: raise OutOfSubset('unknown field %s.%s' % k)
            rng = self.world.field_sort(t)
            self.heap0[k] = z3.Const('H_%s_%s' % (fam, field), z3.ArraySort(fam_sort(fam), rng))
            if self.world.closure: self.world.close_refs(self, fam, field, t)
        return self.heap0[k]
    def harr(self, fam, field):
        k = (fam, field)
        if k not in self.heap: self.heap[k] = self.harr0(fam, field)
        return self.heap[k]
    def wrap(self, term, t, nonnull=False):
        if t in BASE: return term
        if t.startswith('opt:'):
            raise OutOfSubset('optional scalar field')
        if is_dict_type(t) or is_list_type(t): return Obj(t, term)
        return Obj(t, term, self.world.exact_class(t), nonnull)
    def unwrap(self, v, t):
        if t == 'int':
            return zi(v)
        if t == 'real': return zr(v)
        if t == 'bool': return zb(v)
        if v is None: return null_of(t)
        if is_dict_type(t): return self.materialise_dict(v, t).term
        if is_list_type(t): return self.materialise_list(v, t).term
        if isinstance(v, Obj) and v.fam == t: return v.term
        if t == 'opaque': return self.opaque(v)
        raise OutOfSubset('value %r where %s is expected' % (v, t))
    def opaque(self, v):
        """a z3 constant standing for an opaque value (same value key -> same constant)"""
        if isinstance(v, Obj) and v.fam == 'opaque': return v.term
        n = 'opq_' + stable(vkey(v))
        OPAQUES[n] = v
        return z3.Const(n, fam_sort('opaque'))
    def type_of(self, v):
        if isinstance(v, (bool, z3.BoolRef)): return 'bool'
        if is_num(v): return 'int' if is_int_kind(v) else 'real'
        if isinstance(v, Obj): return v.fam
        if isinstance(v, (str, Opq, tuple)): return 'opaque'
        if isinstance(v, PDict):
            if v.ref is not None: return v.ref.fam
            if v.items:
                k, x = next(iter(v.items.items()))
                return 'D[%s,%s]' % (self.type_of(k), self.type_of(x))
        return 'opaque'
    def getfield(self, o, field):
        t = self.ftype(o.fam, field)
        if t is None:
            raise OutOfSubset('unknown field %s.%s' % (o.fam, field))
        return self.wrap(self.sel(self.harr(o.fam, field), o.term), t)
    def sel(self, arr, i):
        if z3.is_app(arr) and arr.decl().kind() == z3.Z3_OP_STORE and arr.arg(1).eq(i): return arr.arg(2)
        return z3.Select(arr, i)
    def setfield(self, o, field, v):
        t = self.ftype(o.fam, field)
        if t is None:
            t = self.type_of(v)
            self.world.schema.setdefault(o.fam, {})[field] = t
        if t == 'real' and isinstance(v, XFloat): raise OutOfSubset('special float stored')
        x = self.unwrap(v, t)
        self.heap[(o.fam, field)] = z3.Store(self.harr(o.fam, field), o.term, x)
        if self.world.on_setfield: self.world.on_setfield(self, o, field, Obj(t, x) if t not in BASE and t != 'opaque' else x)
    def alloc(self, fam, cls=None, base='new'):
        if self.bounds and self.rec is None: raise OutOfSubset('allocation under a bound variable')
        t = self.fresh(base + '_' + fam, fam_sort(fam))
        al = self.harr(fam, '$alive')
        self.assume(t != null_of(fam))
        self.assume(z3.Not(z3.Select(al, t)))
        if self.bounds:
            # one new object per iteration: the allocation is injective in the iteration variables
            b = self.bounds[-1]
            inv = z3.Function(self.fresh_name('allocinv'), fam_sort(fam), b.sort())
            self.globals_.append(z3.ForAll([x for x in self.bounds], inv(t) == b, patterns=[t]))
        self.heap[(fam, '$alive')] = z3.Store(al, t, z3.BoolVal(True))
        self.ghost.setdefault('created', []).append(t)
        return Obj(fam, t, cls)
    def alive(self, o): return z3.Select(self.harr(o.fam, '$alive'), o.term)
    def alloc0(self, fam):
        h = self.harr0(fam, '$alive')
        return lambda t: z3.Select(h, t)
    def nonnull(self, o, where):
        if o.nonnull: return o
        self.require(o.term != null_of(o.fam), 'AttributeError', 'None has no such attribute, ' + where)
        return Obj(o.fam, o.term, o.cls, True)

    # dictionaries on the heap
    def dget(self, d):
        K, V = dict_kv(d.fam)
        return (z3.Select(self.harr(d.fam, 'has'), d.term), z3.Select(self.harr(d.fam, 'val'), d.term), K, V)
    def dset(self, d, has, val):
        self.heap[(d.fam, 'has')] = z3.Store(self.harr(d.fam, 'has'), d.term, has)
        self.heap[(d.fam, 'val')] = z3.Store(self.harr(d.fam, 'val'), d.term, val)
    def dzero(self, V):
        return {'int': z3.IntVal(0), 'real': z3.RealVal(0), 'bool': z3.BoolVal(False)}.get(V) if V in BASE else null_of(V)
    def dsum(self, V):
        """sum of the values of a dict[int,real]: function of its content (absent keys hold 0)"""
        return self.world.dsum
    def dict_store(self, d, k, v):
        has, val, K, V = self.dget(d)
        kk, vv = self.unwrap(k, K), self.unwrap(v, V)
        nval = z3.Store(val, kk, vv)
        if (K, V) == ('int', 'real'):
            S = self.world.dsum
            # content discipline: absent keys map to 0
            self.assume(S(nval) == S(val) - z3.Select(val, kk) + vv)
            self.assume(z3.Implies(z3.Not(z3.Select(has, kk)), z3.Select(val, kk) == 0))
        self.dset(d, z3.Store(has, kk, z3.BoolVal(True)), nval)
    def dict_pop(self, d, k):
        has, val, K, V = self.dget(d)
        kk = self.unwrap(k, K)
        old = self.wrap(z3.Select(val, kk), V, True)
        nval = z3.Store(val, kk, self.dzero(V))
        if (K, V) == ('int', 'real'):
            S = self.world.dsum
            self.assume(S(nval) == S(val) - z3.Select(val, kk))
        self.dset(d, z3.Store(has, kk, z3.BoolVal(False)), nval)
        return old
    def empty_dict(self, t):
        d = self.alloc(t)
        K, V = dict_kv(t)
        kz = sort_of(K)
        val = z3.K(kz, self.dzero(V))
        if (K, V) == ('int', 'real'): self.assume(self.world.dsum(val) == 0)
        self.dset(d, z3.K(kz, z3.BoolVal(False)), val)
        return d
    def materialise_dict(self, v, t):
        if isinstance(v, Obj):
            if v.fam != t: raise OutOfSubset('dict of type %s where %s is expected' % (v.fam, t))
            return v
        if isinstance(v, PDict):
            if v.ref is None:
                if v.fd is not None: raise OutOfSubset('comprehension dict stored on the heap')
                d = self.empty_dict(t)
                for k, x in v.items.items(): self.dict_store(d, k, x)
                v.ref = d; v.items = {}
            if v.ref.fam != t: raise OutOfSubset('dict type mismatch')
            return v.ref
        raise OutOfSubset('dict expected, got %r' % (v,))
    def materialise_list(self, v, t):
        if isinstance(v, Obj):
            return v
        if isinstance(v, PList) and not v.segs:
            l = self.alloc(t)
            T = t[2:-1]
            arr = self.fresh('listc', z3.ArraySort(z3.IntSort(), sort_of(T)))
            for i, x in enumerate(v.items): arr = z3.Store(arr, i, self.unwrap(x, T))
            self.heap[(t, 'at')] = z3.Store(self.harr(t, 'at'), l.term, arr)
            self.heap[(t, 'len')] = z3.Store(self.harr(t, 'len'), l.term, z3.IntVal(len(v.items)))
            self.heap[(t, 'off')] = z3.Store(self.harr(t, 'off'), l.term, z3.IntVal(0))
            return l
        if isinstance(v, PList) and not v.items and len(v.segs) == 1:
            from .loops import materialise_seq
            return materialise_seq(self, v, t)
        raise OutOfSubset('list expected, got %r' % (v,))

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw, where=''):
        self.steps += 1
        if isinstance(f, BMeth): return self.call_func(f.func, [f.recv] + list(args), kw, where)
        if isinstance(f, FuncInfo): return self.call_func(f, list(args), kw, where)
        if isinstance(f, Closure): return self.call_closure(f, list(args), kw)
        if isinstance(f, ClassInfo): return self.construct(f, args, kw, where)
        if isinstance(f, ExtRef): return self.world.ext.call(self, f.name, list(args), kw, where)
        if isinstance(f, ExtMeth): return self.world.ext.method(self, f.recv, f.name, list(args), kw, where)
        if isinstance(f, Opq) and f.tag == 'attr': return self.world.ext.method(self, f.parts[0], f.parts[1], list(args), kw, where)
        if isinstance(f, Partial): return self.call(f.func, list(f.args) + list(args), {**f.kw, **kw}, where)
        raise OutOfSubset('call of %r at %s' % (f, where))

    def construct(self, cls, args, kw, where):
        exts = [e for e in cls.ext_bases() if e is not None]
        if any(isinstance(e, ExtRef) and (e.name.endswith('Exception') or e.name.endswith('Error')) for e in exts):
            return Opq('exc:' + cls.name)
        fam = self.world.family(cls)
        o = self.alloc(fam, cls)
        init = cls.find('methods', '__init__')
        if init: self.call_func(init, [o] + list(args), kw, where)
        return o

    def bind(self, f, args, kw, frame_parent=None):
        a = f.node.args if isinstance(f, FuncInfo) else f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names) and not a.vararg: raise SymRaise('TypeError', 'too many arguments')
        for n, v in zip(names, args): env[n] = v
        if a.vararg: env[a.vararg.arg] = tuple(args[len(names):])
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for n, v in kw.items():
            if n in env: raise SymRaise('TypeError', 'duplicate argument ' + n)
            if n in names or n in kwo: env[n] = v
            elif a.kwarg: extra[n] = v
            else: raise SymRaise('TypeError', 'unexpected argument ' + n)
        if a.kwarg:
            p = PDict(); p.items = extra; env[a.kwarg.arg] = p
        defs = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
            [(n, d) for n, d in zip(kwo, a.kw_defaults) if d is not None]
        for n, d in defs:
            if n not in env:
                fr = Frame(None, {}, f.module if isinstance(f, FuncInfo) else f.frame.module)
                env[n] = self.with_frame(fr, lambda: self.ev(d))
        for n in names + kwo:
            if n not in env: raise SymRaise('TypeError', 'missing argument ' + n)
        return env
    def with_frame(self, fr, thunk):
        self.frames.append(fr)
        try: return thunk()
        finally: self.frames.pop()

    def decorated_ok(self, f, args, kw):
        for d in f.decorators:
            r = f.module.resolve_global(d.func if isinstance(d, ast.Call) else d)
            n = r.name if isinstance(r, ExtRef) else None
            if n in ('functools.lru_cache', 'functools.cache'):
                # a cache is transparent only if the result depends on nothing but immutable arguments
                bad = [v for v in list(args) + list(kw.values()) if isinstance(v, (Obj, PList, PDict, FDict, Comp))]
                if bad:
                    self.oblige('%s: cached results never go stale (arguments are immutable values)' % f.key, z3.BoolVal(False), assume=False)
            elif n in ('builtins.property', 'builtins.staticmethod', 'builtins.classmethod') or (isinstance(d, ast.Attribute) and d.attr == 'setter'):
                pass
            else: raise OutOfSubset('decorator on %s' % f.key)

    def call_func(self, f, args, kw, where=''):
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorators)
        if static and f.cls is not None and args and isinstance(args[0], Obj) and where != 'static': 
            names = [x.arg for x in f.node.args.args]
            if len(args) == len(names) + 1 or (len(args) + len(kw) == len(names) + 1): args = args[1:]
        con = self.world.contract_for(f, args)
        if con is not None and not (getattr(self.target, 'target', None) == f.key and not self.frames):
            if con.inline and con is not self.target: pass
            else:
                self.decorated_ok(f, args, kw)
                return self.world.apply_contract(self, con, f, self.bind(f, args, kw), where)
        return self.run_func(f, args, kw)

    def run_func(self, f, args, kw):
        if len(self.frames) > 40: raise OutOfSubset('recursion in ' + f.key)
        if sum(1 for fr in self.frames if fr.func is f) >= 3: raise OutOfSubset('recursion in ' + f.key)
        if self.frames: self.inlined.add(f.key)
        self.decorated_ok(f, args, kw)
        env = self.bind(f, args, kw)
        fr = Frame(f, env, f.module, f.cls)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(f.node)): raise OutOfSubset('generator ' + f.key)
        def go():
            try: self.block(f.node.body)
            except Ret as r: return r.v
            return None
        if self.bounds and self.rec is None:
            # under a bound variable: explore all paths of the callee and merge
            res = self.lift(lambda: self.with_frame(Frame(f, dict(env), f.module, f.cls), go))
            v, facts = self.merge(res)
            for x in facts: self.assume(x)
            return v
        return self.with_frame(fr, go)

    def call_closure(self, c, args, kw):
        env = self.bind(c, args, kw)
        fr = Frame(None, env, c.frame.module, c.frame.cls, c.frame)
        def go():
            if isinstance(c.node, ast.Lambda): return self.ev(c.node.body)
            try: self.block(c.node.body)
            except Ret as r: return r.v
            return None
        return self.with_frame(fr, go)

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for st in body: self.stmt(st)
    def loc(self, node):
        if not self.frames: return 'specification'
        fr = self.frames[-1]
        return '%s line %d' % (fr.func.key if fr.func else fr.module.name, getattr(node, 'lineno', 0))
    def src(self, node):
        try: return ast.unparse(node)[:80]
        except Exception: return '?'
    def stmt(self, st):
        self.steps += 1
        if self.steps > MAX_STEPS: raise OutOfSubset('step limit')
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None: raise OutOfSubset('statement %s at %s' % (type(st).__name__, self.loc(st)))
        m(st)
    def s_Pass(self, st): pass
    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant): return
        self.ev(st.value)
    def s_Assign(self, st):
        v = self.ev(st.value)
        for t in st.targets: self.assign(t, v)
    def s_AnnAssign(self, st):
        if st.value is not None: self.assign(st.target, self.ev(st.value))
    def s_AugAssign(self, st):
        t = st.target
        op = BINOPS.get(type(st.op))
        if isinstance(t, ast.Name):
            cur = self.ev(ast.Name(t.id, ast.Load(), lineno=st.lineno))
            if isinstance(cur, PList) and op == '+':
                self.world.ext.method(self, cur, 'extend', [self.ev(st.value)], {}, self.loc(st)); return
            self.assign(t, self.binop(op, cur, self.ev(st.value), st))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, t.attr, t)
            self.setattr(o, t.attr, self.binop(op, cur, self.ev(st.value), st), t)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value), self.ev(t.slice)
            if self.rec is not None and self.rec.aug(self, o, k, op, st): return
            cur = self.getitem(o, k, t)
            self.setitem(o, k, self.binop(op, cur, self.ev(st.value), st), t)
        else: raise OutOfSubset('augmented assignment')
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            fr = self.frames[-1]
            while t.id in getattr(fr, 'nonlocals', ()): fr = fr.parent
            fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, t)
            if len(items) != len(t.elts): raise SymRaise('ValueError', 'unpacking')
            for x, y in zip(t.elts, items): self.assign(x, y)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value), self.ev(t.slice), v, t)
        else: raise OutOfSubset('assignment target')
    def unpack(self, v, node):
        if isinstance(v, tuple): return list(v)
        if isinstance(v, PList) and not v.segs: return list(v.items)
        if isinstance(v, Opq) and isinstance(node, (ast.Tuple, ast.List)): return [Opq('item', [v, i]) for i in range(len(node.elts))]
        raise OutOfSubset('unpacking %r' % (v,))
    def s_Return(self, st): raise Ret(self.ev(st.value) if st.value is not None else None)
    def s_Break(self, st): raise Brk()
    def s_Continue(self, st): raise Cnt()
    def s_Global(self, st): raise OutOfSubset('global statement')
    def s_Nonlocal(self, st):
        fr = self.frames[-1]
        fr.nonlocals = set(getattr(fr, 'nonlocals', ())) | set(st.names)
    def s_Import(self, st):
        for a in st.names: self.frames[-1].env[a.asname or a.name.split('.')[0]] = self.prog.module(a.name) or ExtRef(a.name)
    def s_ImportFrom(self, st):
        for a in st.names:
            m = self.prog.module(st.module)
            v = m.lookup(a.name) if m else ExtRef(st.module + '.' + a.name)
            self.frames[-1].env[a.asname or a.name] = v
    def s_FunctionDef(self, st):
        fr = self.frames[-1]
        if st.decorator_list: raise OutOfSubset('decorated nested function')
        fr.env[st.name] = Closure(st, fr.env, fr)
    def s_Assert(self, st):
        if not self.branch(self.truth(self.ev(st.test), st)): raise SymRaise('AssertionError', self.loc(st))
    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.ev(t.value), self.ev(t.slice)
                self.world.ext.method(self, o, 'pop', [k], {}, self.loc(st))
            elif isinstance(t, ast.Name): self.frames[-1].env.pop(t.id, None)
            else: raise OutOfSubset('del')
    def s_If(self, st):
        if self.branch(self.truth(self.ev(st.test), st)): self.block(st.body)
        else: self.block(st.orelse)
    def s_Raise(self, st):
        if st.exc is None:
            raise SymRaise(getattr(self.frames[-1], 'handling', 'Exception'), 'raised again at ' + self.loc(st))
        e = st.exc
        name = None
        if isinstance(e, ast.Call): fn = self.frames[-1].module.resolve_global(e.func)
        else: fn = self.frames[-1].module.resolve_global(e)
        if isinstance(e, ast.Call):
            for a in e.args: 
                try: self.ev(a)
                except OutOfSubset: pass
        if isinstance(fn, ExtRef): name = fn.name.split('.')[-1]
        elif isinstance(fn, ClassInfo): name = fn.name
        if name is None: raise OutOfSubset('raise')
        raise SymRaise(name, 'raised at ' + self.loc(st))
    def s_Try(self, st):
        try:
            try:
                self.block(st.body)
            except SymRaise as e:
                for h in st.handlers:
                    if h.type is None: names = ['BaseException']
                    else:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        names = []
                        for t in ts:
                            r = self.frames[-1].module.resolve_global(t)
                            names.append(r.name.split('.')[-1] if isinstance(r, (ExtRef, ClassInfo)) else '?')
                    if any(exc_matches(e.exc, n) for n in names):
                        fr = self.frames[-1]
                        if h.name: fr.env[h.name] = Opq('exception', [e.exc])
                        old = getattr(fr, 'handling', None); fr.handling = e.exc
                        self.block(h.body)
                        fr.handling = old
                        break
                else: raise
            else: self.block(st.orelse)
        finally:
            if st.finalbody: self.block(st.finalbody)
    def s_With(self, st):
        for it in st.items:
            v = self.ev(it.context_expr)
            v = self.world.ext.enter(self, v, self.loc(st))
            if it.optional_vars is not None: self.assign(it.optional_vars, v)
        self.block(st.body)
    def s_While(self, st):
        spec = self.loop_spec(st)
        if spec is not None:
            self.world.loop_inv(self, st, spec); return
        n = 0
        broke = False
        while self.branch(self.truth(self.ev(st.test), st)):
            n += 1
            if n > 40: raise OutOfSubset('while loop without invariant at ' + self.loc(st))
            if n > 3 and self.trace and not self.target_allows_unroll(): raise OutOfSubset('while loop without invariant at ' + self.loc(st))
            try: self.block(st.body)
            except Brk: broke = True; break
            except Cnt: continue
        if not broke: self.block(st.orelse)
    def target_allows_unroll(self): return getattr(self.target, 'unroll', False)
    def loop_spec(self, st):
        fr = self.frames[-1]
        t = self.target
        if t is None or not t.loops: return None
        for key, spec in t.loops.items():
            if spec.match(self, st, fr): return spec
        return None
    def s_For(self, st):
        spec = self.loop_spec(st)
        it = self.ev(st.iter)
        if spec is not None:
            self.world.loop_inv(self, st, spec, it); return
        kind, seq = self.iterate(it, st)
        if kind == 'concrete':
            broke = False
            for x in seq:
                self.assign(st.target, x)
                try: self.block(st.body)
                except Brk: broke = True; break
                except Cnt: continue
            if not broke: self.block(st.orelse)
            return
        if st.orelse: raise OutOfSubset('for-else')
        from .loops import fold
        for c in seq: fold(self, st, c)

    # ------------------------------------------------------------------ iteration
    def iterate(self, v, node=None):
        """-> ('concrete', [values]) | ('comp', [Comp...])"""
        kind, seq = self.iterate_(v, node)
        if kind == 'comp' and self.bounds: seq = [self.renamed(c) if any(c.var.eq(b) for b in self.bounds) else c for c in seq]
        return kind, seq
    def renamed(self, c):
        """the same collection with another bound variable (its own is in use: a collection iterated inside its own iteration)"""
        k = self.reg.fresh_bound(c.var.sort(), 'r')
        f = lambda e: z3.substitute(e, (c.var, k))
        n = Comp(k, f(c.guard), subst(c.elem, c.var, k), [f(x) for x in c.facts], c.base, c.lo, c.hi)
        n.isset = c.isset
        return n
    def iterate_(self, v, node=None):
        if self.rec is not None: self.rec.read(v)
        if isinstance(v, tuple): return 'concrete', list(v)
        if isinstance(v, PSet): return 'concrete', list(v.items)
        if isinstance(v, PList):
            if not v.segs: return 'concrete', list(v.items)
            if v.items: return 'comp', [self.const_comp(x) for x in v.items] + v.segs
            return 'comp', v.segs
        if isinstance(v, str): return 'concrete', list(v)
        if isinstance(v, PDict):
            if v.ref is not None: return self.iterate(v.ref, node)
            if v.fd is not None: return self.iterate(v.fd, node)
            return 'concrete', list(v.items.keys())
        if isinstance(v, Comp): return 'comp', [v]
        if isinstance(v, SLV): return 'comp', list(v.parts)
        if isinstance(v, FDict): return self.iterate(DView(v, 'keys'), node)
        if isinstance(v, DView):
            d, what = v.d, v.what
            if isinstance(d, PDict):
                if d.ref is not None: d = d.ref
                elif d.fd is not None: d = d.fd
                else:
                    return 'concrete', [k if what == 'keys' else x if what == 'values' else (k, x) for k, x in d.items.items()]
            if isinstance(d, FDict):
                k = self.reg.fresh_bound(sort_of(d.ktype))
                has = z3.substitute(d.has, (d.var, k)); val = subst(d.val, d.var, k)
                key = self.wrap(k, d.ktype, True)
                return 'comp', [Comp(k, has, key if what == 'keys' else val if what == 'values' else (key, val), base=('fdict', id(d)))]
            if isinstance(d, Obj) and is_dict_type(d.fam):
                has, val, K, V = self.dget(d)
                k = self.reg.fresh_bound(sort_of(K))
                key, x = self.wrap(k, K, True), self.wrap(z3.Select(val, k), V)
                return 'comp', [Comp(k, z3.Select(has, k), key if what == 'keys' else x if what == 'values' else (key, x),
                                     base=('dict', has.sexpr()))]
        if isinstance(v, Obj) and is_dict_type(v.fam): return self.iterate(DView(v, 'keys'), node)
        if isinstance(v, Obj) and v.fam == 'SL':
            n = z3.Select(self.harr('SL', 'len'), v.term)
            at = z3.Select(self.harr('SL', 'at'), v.term)
            k = self.reg.fresh_bound(z3.IntSort(), 'i')
            return 'comp', [Comp(k, z3.And(k >= 0, k < n), Obj('Pool', z3.Select(at, k), None, False), base=('range', 0, n), lo=0, hi=n)]
        if isinstance(v, Obj) and is_list_type(v.fam):
            n = z3.Select(self.harr(v.fam, 'len'), v.term)
            at = z3.Select(self.harr(v.fam, 'at'), v.term)
            off = z3.Select(self.harr(v.fam, 'off'), v.term)
            k = self.reg.fresh_bound(z3.IntSort(), 'i')
            return 'comp', [Comp(k, z3.And(k >= 0, k < n), self.wrap(z3.Select(at, off + k), v.fam[2:-1]), base=('range', 0, n), lo=0, hi=n)]
        if isinstance(v, SlSlice):
            at = v.content
            k = self.reg.fresh_bound(z3.IntSort(), 'i')
            return 'comp', [Comp(k, z3.And(k >= 0, k < v.n), Obj('Pool', z3.Select(at, k), None, False), base=('range', 0, v.n), lo=0, hi=v.n)]
        if isinstance(v, Obj) and v.fam in self.world.iterables:
            return self.iterate(self.world.iterables[v.fam](self, v), node)
        raise OutOfSubset('iteration over %r' % (v,))
    def const_comp(self, x):
        k = self.reg.fresh_bound(z3.IntSort(), 'i')
        return Comp(k, k == 0, x)

    def comprehension(self, elt_thunk, gens, i, acc):
        """acc: list of ('c', value) or Comp"""
        if i == len(gens):
            acc.append(('v', elt_thunk())); return
        g = gens[i]
        it = self.ev(g.iter)
        kind, seq = self.iterate(it)
        if kind == 'concrete':
            for x in seq:
                self.assign(g.target, x)
                if all(self.branch(self.truth(self.ev(c), c)) for c in g.ifs):
                    self.comprehension(elt_thunk, gens, i + 1, acc)
            return
        if i != len(gens) - 1: raise OutOfSubset('nested comprehension over symbolic collections')
        for c in seq: acc.append(('s', self.map_comp(c, g.target, g.ifs, elt_thunk)))
    def map_comp(self, c, target, ifs, elt_thunk):
        self.bounds.append(c.var)
        n0 = len(self.pc)
        pc_save = list(self.pc)
        SKIP = object()
        env0 = dict(self.frames[-1].env)
        try:
            self.pc = self.pc + [('f', c.guard)] + [('f', f) for f in c.facts]
            def thunk():
                self.frames[-1].env.update(env0)
                if target is not None: self.assign(target, c.elem)
                for t in ifs:
                    if not self.branch(self.truth(self.ev(t), t)): return SKIP
                return elt_thunk()
            res = self.lift(thunk)
        finally:
            self.bounds.pop()
            self.pc = pc_save
        kept = [(cnd, v, fs, h) for cnd, v, fs, h in res if v is not SKIP]
        if not kept:
            return Comp(c.var, z3.BoolVal(False), 0, [], c.base)
        guard = c.guard if len(kept) == len(res) else z3.And(c.guard, z3.Or(*[k[0] for k in kept]))
        v, facts = self.merge(kept)
        facts = list(c.facts) + facts + [f for r in res if r[1] is SKIP for f in r[2]]
        filtered = len(kept) != len(res)
        self.frames[-1].env = self.frames[-1].env
        return Comp(c.var, guard, v, facts, None if filtered else c.base, c.lo if not filtered else None, c.hi if not filtered else None)

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise OutOfSubset('expression %s at %s' % (type(e).__name__, self.loc(e)))
        return m(e)
    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')): return v
            return Fraction(repr(v))
        if isinstance(v, (int, str, bool, type(None))): return v
        raise OutOfSubset('constant %r' % (v,))
    def e_Name(self, e):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if e.id in f.env:
                v = f.env[e.id]
                if isinstance(v, MaybeVal):
                    self.require(v.bound, 'UnboundLocalError', self.loc(e))
                    v = v.val
                return v
            f = f.parent
        return self.glob(fr.module, e.id, e)
    def glob(self, module, name, node=None):
        r = module.lookup(name)
        if r is None:
            return self.world.ext.builtin(name)
        if isinstance(r, tuple) and r[0] == 'expr':
            key = (r[2].name, name)
            return self.with_frame(Frame(None, {}, r[2]), lambda: self.ev(r[1]))
        return r
    def e_Attribute(self, e): return self.getattr(self.ev(e.value), e.attr, e)
    def getattr(self, o, name, node):
        if isinstance(o, Module):
            r = o.lookup(name)
            if isinstance(r, tuple) and r[0] == 'expr': return self.with_frame(Frame(None, {}, r[2]), lambda: self.ev(r[1]))
            if r is None: raise OutOfSubset('%s.%s' % (o.name, name))
            return r
        if isinstance(o, ExtRef): return self.world.ext.attr(self, o.name, name)
        if isinstance(o, SuperRef):
            mro = o.obj.cls.mro() if o.obj.cls else self.world.root_class(o.obj.fam).mro()
            i = mro.index(o.cls) if o.cls in mro else -1
            for c in mro[i + 1:]:
                if name in c.methods: return BMeth(o.obj, c.methods[name])
                if name in c.getters: return self.call_func(c.getters[name], [o.obj], {}, self.loc(node))
            exts = [b for c in mro for b in c.bases() if not isinstance(b, ClassInfo)]
            return ExtMeth(('super', o.obj, [x.name for x in exts if isinstance(x, ExtRef)]), name)
        if isinstance(o, ClassInfo):
            f = o.find('methods', name)
            if f: return f
            if name == '__name__': return o.name
            a = o.find('attrs', name)
            if a is not None: return self.with_frame(Frame(None, {}, o.module), lambda: self.ev(a))
            raise OutOfSubset('class attribute %s.%s' % (o.name, name))
        if isinstance(o, Obj):
            if o.fam == 'opaque': return Opq('attr', [o, name])
            if is_dict_type(o.fam) or is_list_type(o.fam) or o.fam == 'SL' or o.fam in self.world.ext_objs:
                return self.world.ext.objattr(self, o, name, node)
            o = self.nonnull(o, '%s at %s' % (name, self.loc(node)))
            cls = o.cls or self.world.root_class(o.fam)
            if cls is not None:
                g = cls.find('getters', name)
                if g: return self.call_func(g, [o], {}, self.loc(node))
                f = cls.find('methods', name)
                if f: return BMeth(o, f)
                if self.ftype(o.fam, name) is None:
                    a = cls.find('attrs', name)
                    if a is not None: return self.with_frame(Frame(None, {}, cls.module), lambda: self.ev(a))
                    h = self.world.ext.base_attr(self, o, cls, name, node)
                    if h is not None: return h
            if (o.fam, name) in self.world.obj_methods and self.ftype(o.fam, name) is None: return ExtMeth(o, name)
            return self.getfield(o, name)
        if o is None: raise SymRaise('AttributeError', 'None.%s at %s' % (name, self.loc(node)))
        return self.world.ext.valattr(self, o, name, node)
    def setattr(self, o, name, v, node):
        if not isinstance(o, Obj): raise OutOfSubset('attribute assignment on %r at %s' % (o, self.loc(node)))
        o = self.nonnull(o, '%s at %s' % (name, self.loc(node)))
        cls = o.cls or self.world.root_class(o.fam)
        if cls is not None:
            s = cls.find('setters', name)
            if s: self.call_func(s, [o, v], {}, self.loc(node)); return
            if cls.find('getters', name): raise SymRaise('AttributeError', 'read-only attribute ' + name)
        h = self.world.set_hooks.get((o.fam, name))
        if h and (self.bounds or self.lift_stamp is not None): raise OutOfSubset('%s is set in an iteration at %s' % (name, self.loc(node)))
        if h: h(self, o, v)
        else: self.setfield(o, name, v)
    def e_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower) if e.slice.lower else None
            hi = self.ev(e.slice.upper) if e.slice.upper else None
            st = self.ev(e.slice.step) if e.slice.step else None
            return self.world.ext.slice(self, o, lo, hi, st, self.loc(e))
        return self.getitem(o, self.ev(e.slice), e)
    def getitem(self, o, k, node): return self.world.ext.getitem(self, o, k, self.loc(node))
    def setitem(self, o, k, v, node): self.world.ext.setitem(self, o, k, v, self.loc(node))
    def e_Tuple(self, e): return tuple(self.elts(e.elts))
    def e_List(self, e):
        return self.plist_from(e.elts)
    def plist_from(self, es):
        if not any(isinstance(x, ast.Starred) for x in es): return PList(self.elts(es))
        out = PList([])
        for x in es:
            if isinstance(x, ast.Starred): self.world.ext.method(self, out, 'extend', [self.ev(x.value)], {}, '')
            else: self.world.ext.method(self, out, 'append', [self.ev(x)], {}, '')
        return out
    def e_Set(self, e): return PSet(self.elts(e.elts))
    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                k, s = self.iterate(self.ev(x.value))
                if k != 'concrete': raise OutOfSubset('starred symbolic sequence')
                out += s
            else: out.append(self.ev(x))
        return out
    def e_Dict(self, e):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v)
                if isinstance(src, PDict) and src.ref is None and src.fd is None: d.items.update(src.items)
                else: raise OutOfSubset('dict unpacking')
            else: self.world.ext.setitem(self, d, self.ev(k), self.ev(v), self.loc(e))
        return d
    def e_ListComp(self, e): return self.comp_value(e.elt, e.generators, 'list')
    def e_GeneratorExp(self, e): return self.comp_value(e.elt, e.generators, 'list')
    def e_SetComp(self, e): return self.comp_value(e.elt, e.generators, 'set')
    def comp_value(self, elt, gens, kind):
        fr = self.frames[-1]
        sub = Frame(fr.func, {}, fr.module, fr.cls, fr)
        acc = []
        self.with_frame(sub, lambda: self.comprehension(lambda: self.ev(elt), gens, 0, acc))
        if all(t == 'v' for t, _ in acc):
            items = [v for _, v in acc]
            return PList(items) if kind == 'list' else self.world.ext.mkset(self, items)
        p = PList([]); p.segs = [v if t == 's' else self.const_comp(v) for t, v in acc]
        if kind == 'set':
            if len(p.segs) != 1: raise OutOfSubset('set of mixed parts')
            c = p.segs[0]
            return Comp(c.var, c.guard, c.elem, c.facts, isset=True)
        return p
    def e_DictComp(self, e):
        fr = self.frames[-1]
        sub = Frame(fr.func, {}, fr.module, fr.cls, fr)
        acc = []
        self.with_frame(sub, lambda: self.comprehension(lambda: (self.ev(e.key), self.ev(e.value)), e.generators, 0, acc))
        d = PDict()
        if all(t == 'v' for t, _ in acc):
            for _, (k, v) in acc: self.world.ext.setitem(self, d, k, v, self.loc(e))
            return d
        if len(acc) != 1: raise OutOfSubset('dict comprehension of mixed parts')
        c = acc[0][1]
        d.fd = self.comp_to_fdict(c, self.loc(e))
        return d
    def comp_to_fdict(self, c, where):
        k, v = c.elem
        kt = self.type_of(k)
        kterm = self.unwrap(k, kt)
        # keys taken along an enumeration src(i) whose inverse is known (sorted sequences)
        if z3.is_app(kterm) and kterm.num_args() == 1 and kterm.arg(0).eq(c.var) and kterm.decl().name() in getattr(self, 'inverses', {}):
            idx = self.inverses[kterm.decl().name()]
            kv = self.reg.fresh_bound(kterm.sort(), 'key')
            i = idx(kv)
            sub = lambda e: z3.substitute(e, (c.var, i))
            fd = FDict(kt, kv, z3.And(sub(c.guard), kterm.decl()(i) == kv), subst(v, c.var, i)); fd.facts = [sub(f) for f in c.facts]
            return fd
        if kterm.sort() == c.var.sort():
            ok = kterm.eq(c.var)
            if not ok:
                save = self.pc
                self.pc = self.pc + [('f', c.guard)] + [('f', f) for f in c.facts]
                ok = self.valid(kterm == c.var)
                self.pc = save
            if ok:
                fd = FDict(kt, c.var, c.guard, v); fd.facts = c.facts
                return fd
        raise OutOfSubset('dict comprehension whose key is not the loop index at ' + where)
    def e_Lambda(self, e): return Closure(e, self.frames[-1].env, self.frames[-1])
    def e_IfExp(self, e):
        if self.branch(self.truth(self.ev(e.test), e)): return self.ev(e.body)
        return self.ev(e.orelse)
    def e_NamedExpr(self, e):
        v = self.ev(e.value); self.assign(e.target, v); return v
    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant): parts.append(x.value)
            else:
                v = self.ev(x.value)
                parts.append(Opq('fmt', [v, ast.unparse(x.format_spec) if x.format_spec else '']) if not isinstance(v, str) or x.format_spec else v)
        if all(isinstance(p, str) for p in parts): return ''.join(parts)
        return Opq('concat', parts)
    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1: return v
            if is_boolv(v) or not is_num(v) or True:
                t = self.truth(v, x)
                b = self.branch(t)
                if is_and and not b: return False if is_boolv(v) else v
                if not is_and and b: return True if is_boolv(v) else v
    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v, e)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, bool): v = int(v)
            if isinstance(v, (int, Fraction)): return -v
            if isinstance(v, z3.ArithRef): return -v
            if isinstance(v, float): return -v
            if isinstance(v, Opq): return Opq('neg', [v])
        if isinstance(e.op, ast.UAdd): return v
        raise OutOfSubset('unary operator at ' + self.loc(e))
    def e_BinOp(self, e):
        op = BINOPS.get(type(e.op))
        if op is None: raise OutOfSubset('operator at ' + self.loc(e))
        return self.binop(op, self.ev(e.left), self.ev(e.right), e)
    def binop(self, op, a, b, node):
        return self.world.ext.binop(self, op, a, b, self.loc(node), self.src(node))
    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r)
            c = self.compare(op, left, right, e)
            if i == len(e.ops) - 1 and res is None: return c
            if i == len(e.ops) - 1: return c
            if not self.branch(self.truth(c, e)): return False
            res = True
            left = right
    def compare(self, op, a, b, node): return self.world.ext.compare(self, type(op).__name__, a, b, self.loc(node))
    def truth(self, v, node=None):
        if isinstance(v, (bool, z3.BoolRef)): return v
        if v is None: return False
        if isinstance(v, (int, Fraction)): return v != 0
        if isinstance(v, z3.ArithRef): return v != 0
        if isinstance(v, str): return len(v) > 0
        if isinstance(v, tuple): return len(v) > 0
        if isinstance(v, XFloat): return z3.Or(v.nan, v.pinf, v.ninf, v.val != 0)
        if isinstance(v, (PList, PDict, PSet, Comp, FDict, DView, SlSlice)) or (isinstance(v, Obj) and (is_dict_type(v.fam) or is_list_type(v.fam) or v.fam == 'SL')):
            n = self.world.ext.length(self, v)
            return n > 0 if not isinstance(n, int) else n > 0
        if isinstance(v, Obj): return v.term != null_of(v.fam)
        if isinstance(v, Opq): return z3.Const('truth_' + stable(v.key()), z3.BoolSort())
        if isinstance(v, (BMeth, FuncInfo, Closure, ClassInfo)): return True
        raise OutOfSubset('truth value of %r' % (v,))
    def e_Call(self, e):
        # super().x(...)
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            fr = self.frames[-1]
            f = fr
            while f.cls is None and f.parent is not None: f = f.parent
            first = f.func.node.args.args[0].arg
            return SuperRef(f.env[first], f.cls)
        fn = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                k, s = self.iterate(self.ev(a.value))
                if k != 'concrete': raise OutOfSubset('starred argument')
                args += s
            else: args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value)
                if isinstance(v, PDict) and v.ref is None and v.fd is None: kw.update(v.items)
                else: raise OutOfSubset('** argument')
            else: kw[k.arg] = self.ev(k.value)
        return self.call(fn, args, kw, '%s at %s' % (self.src(e), self.loc(e)))
