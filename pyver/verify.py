"""Discharging the contracts of a property against the current source."""
import time, traceback
from fractions import Fraction
import z3
from .vals import *
from .source import *
from .interp import Interp, SymRaise, PathEnd
from .world import World
from .symspec import Sym
from .spec import A, Contract, Lemma
from .scan import Scan, scan
from . import solve

def mkarg(ip, w, name, t):
    if callable(t) and not isinstance(t, str): return t(ip)
    if isinstance(t, tuple) and t[0] == 'const': return t[1]
    if t in BASE:
        return z3.Const('arg_' + name, BASE[t])
    if t == 'str': return Opq('any', [name])
    if t.startswith('rss:'):
        c = w.prog.cls('logic.reward_schemes:' + t[4:])
        if c is None: raise OutOfSubset('class %s not found' % t[4:])
        o = Obj('Rss', z3.Const('arg_' + name, fam_sort('Rss')), c)
    elif t.startswith('agent:'):
        c = w.prog.cls('logic.stakeholder_profiles:' + t[6:])
        if c is None: raise OutOfSubset('class %s not found' % t[6:])
        o = Obj('Agent', z3.Const('arg_' + name, fam_sort('Agent')), c)
    elif t.startswith('opt:'):
        return Obj(t[4:], z3.Const('arg_' + name, fam_sort(t[4:])), w.exact_class(t[4:]), False)
    else:
        o = Obj(t, z3.Const('arg_' + name, fam_sort(t)), w.exact_class(t))
    ip.assume(o.term != null_of(o.fam))
    ip.assume(ip.alloc0(o.fam)(o.term))
    return o

def mval(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return float(v.as_fraction())
    if z3.is_algebraic_value(v): return float(v.approx(20).as_fraction())
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return str(v)

def bind_names(con, f):
    """contract parameter names -> positions (robust against renamed parameters)"""
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

def verify_contract(prog, con, group, config=None, timeout=10.0):
    t0 = time.time()
    out = dict(key=con.key, target=getattr(con, 'target', None), title=con.title, status='?', obligations=0, proved=0, trivial=0,
               failed=[], backends={}, paths=0, inlined=[], ext=[], contracts_used=[], assumed=[], reason=None, kind=type(con).__name__)
    try:
        if isinstance(con, Scan): scan(prog, con, out)
        elif isinstance(con, Lemma): _verify_lemma(prog, con, group, out, timeout, config)
        else: _verify(prog, con, group, out, timeout, config)
    except OutOfSubset as e:
        out['status'] = 'out-of-subset'; out['reason'] = str(e)
    except RecursionError as e:
        out['status'] = 'out-of-subset'; out['reason'] = 'recursion limit'
    except (TypeError, AttributeError, KeyError, z3.Z3Exception, AssertionError, IndexError, ValueError) as e:
        out['status'] = 'out-of-subset'; out['reason'] = 'translator: %s' % (traceback.format_exc(limit=-6),)
    out['seconds'] = round(time.time() - t0, 3)
    out['solver_seconds'] = round(solve.STATS['time'], 3)
    return out

def collect(ip, out, args=None):
    for k, o in ip.obls.items():
        out['obligations'] += 1
        if o['status'] == 'proved':
            out['proved'] += 1
            if o['trivial']: out['trivial'] += 1
            out['backends'][o['backend']] = out['backends'].get(o['backend'], 0) + 1
        else:
            rec = dict(name=o['name'], status=o['status'])
            if o['status'] == 'refuted' and args is not None:
                try:
                    m = o['info']
                    vals = {}
                    for n, v in args.items():
                        if is_z3(v): vals[n] = mval(m, v)
                        elif isinstance(v, Obj) and v.fam == 'Rss' and not m is None:
                            vals[n] = {'cls': v.cls.name if v.cls else None,
                                       **{fl: mval(m, z3.Select(ip.heap0[('Rss', fl)], v.term)) for (fam, fl) in ip.heap0 if fam == 'Rss'}}
                    rec['model'] = vals
                except Exception as e: rec['model'] = None
            elif o['status'] == 'unknown': rec['reason'] = str(o['info'])
            out['failed'].append(rec)
    out['inlined'] = sorted(ip.inlined); out['ext'] = sorted(ip.ext_used); out['contracts_used'] = sorted(ip.calls_seen)
    out['assumed'] = sorted(set(map(str, ip.assumed)))
    if out['status'] == '?':
        out['status'] = 'failed' if out['failed'] else ('proved' if out['obligations'] else 'empty')

def _verify_lemma(prog, con, group, out, timeout, config):
    w = World(prog, group, config)
    ip = Interp(prog, w, con); ip.timeout = con.timeout or timeout
    work = [[]]
    first = True
    while work:
        ip.reset_path(work.pop()); ip.pending = work
        try:
            args = {n: mkarg(ip, w, n, t) for n, t in con.params.items()}
            S = Sym(ip); a = A(args)
            ip.frames = [_frame(prog)]
            if con.requires:
                for n, c in con.requires(S, a): ip.assume(c)
            if first and not ip.feasible(z3.BoolVal(True)): raise OutOfSubset('vacuous precondition')
            first = False
            for n, c in con.ensures(S, a): ip.oblige('%s: %s' % (con.key, n), c, assume=False)
        except PathEnd: continue
        except SymRaise as e:
            ip.oblige('%s: no %s' % (con.key, e), z3.BoolVal(False))
        out['paths'] += 1
    collect(ip, out, args)

def _frame(prog):
    from .interp import Frame
    return Frame(None, {}, prog.module('logic.helper'))

def _verify(prog, con, group, out, timeout, config):
    f = prog.func(con.target)
    if f is None: raise OutOfSubset('function %s not found in the current source' % con.target)
    w = World(prog, group, config)
    if con.stubs: w.stubs.update(con.stubs)
    if con.config: con.config(w)
    ip = Interp(prog, w, con); ip.timeout = con.timeout or timeout
    work = [[]]
    first, normal, args = True, 0, {}
    while work:
        ip.reset_path(work.pop()); ip.pending = work
        out['paths'] += 1
        if out['paths'] > 400: raise OutOfSubset('too many paths')
        try:
            args = {n: mkarg(ip, w, n, t) for n, t in con.params.items()}
            a = A(args)
            S = Sym(ip)
            ip.frames = [_frame(prog)]
            if con.setup: con.setup(ip, S, a)
            if con.requires:
                for n, c in con.requires(S, a): ip.assume(c)
            ip.frames = []
            if first and not ip.feasible(z3.BoolVal(True)): raise OutOfSubset('vacuous precondition')
            first = False
            entry = dict(ip.heap)
            ip.ghost['entry'], ip.ghost['args'] = entry, a
            names = bind_names(con, f)
            pos, kw = [], {}
            vals = [(n, args[n]) for n in con.params if not n.startswith('ghost_')]
            if all(n in names for n, _ in vals): kw = dict(vals)
            else: pos = [v for _, v in vals]
            if f.cls is not None and 'self' in kw: pos = [kw.pop('self')] + pos
            res, exc = None, None
            try: res = con.driver(ip, f, a) if con.driver else ip.call_func(f, pos, kw)
            except SymRaise as e: exc = e
            old = dict(ip.heap0); old.update(entry)
            S2 = Sym(ip, old)
            ip.frames = [_frame(prog)]
            tag = con.key
            if exc is None:
                normal += 1
                for n, c in con.raises.items():
                    ip.oblige('%s: raises %s whenever it must' % (tag, n if isinstance(n, str) else '/'.join(n)), S2.Not(S2.old(lambda: c(S2, a))), assume=False)
                if con.value is not None:
                    ip.oblige('%s: result is the specified value' % tag, S2.eq(res, S2.old(lambda: con.value(S2, a))), assume=False)
                if con.ensures:
                    for n, c in con.ensures(S2, a, res): ip.oblige('%s: %s' % (tag, n), c, assume=False)
                if con.check_frame: frame(ip, con, old, tag)
            else:
                c = next((cc for n, cc in con.raises.items() if exc.exc == n or (isinstance(n, tuple) and exc.exc in n)), None)
                if c is None: ip.oblige('%s: no %s' % (tag, exc), z3.BoolVal(False), assume=False)
                else: ip.oblige('%s: raises %s only when it must' % (tag, exc.exc), S2.old(lambda: c(S2, a)), assume=False)
            ip.frames = []
        except PathEnd: continue
    if normal == 0 and not con.raises: raise OutOfSubset('no path returns')
    collect(ip, out, args)

def frame(ip, con, old, tag):
    mods = set(con.modifies)
    for k, v in ip.heap.items():
        if k in mods or (k[0], '*') in mods or k[1] == '$alive': continue
        o = old.get(k)
        if o is None or v.eq(o): continue
        fam = k[0]
        x = z3.Const('fr_' + fam, fam_sort(fam))
        ip.oblige('%s: leaves %s.%s of existing objects unchanged' % (tag, fam, k[1]),
                  z3.Implies(ip.alloc0(fam)(x), z3.Select(v, x) == z3.Select(o, x)), assume=False)
