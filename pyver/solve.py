"""Discharging verification conditions."""
import os, subprocess, tempfile, time
import z3
from .aggs import Instantiator

STATS = {'z3': 0, 'z3-lemmas': 0, 'cvc5': 0, 'time': 0.0, 'queries': 0}
CVC5 = '/usr/local/bin/cvc5'

def _quick(fs, timeout):
    """the SMT core with e-matching only: no model search for quantified formulas"""
    s = z3.SimpleSolver()
    s.set('timeout', int(timeout * 1000)); s.set('mbqi', False); s.set('auto_config', False)
    for f in fs: s.add(f)
    return s.check()

def _check(fs, timeout, **opts):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for k, v in opts.items(): s.set(k, v)
    for f in fs: s.add(f)
    r = s.check()
    return r, s

def cvc5_check(fs, timeout):
    s = z3.Solver()
    for f in fs: s.add(f)
    txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt); name = f.name
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--nl-cov', name], capture_output=True, text=True, timeout=timeout + 5)
        return p.stdout.strip().split('\n')[0]
    except Exception:
        return 'unknown'
    finally:
        os.unlink(name)

QUANT = {}       # id -> (expression, does it contain a quantifier?)
def has_quant(fs):
    for f in fs:
        c = QUANT.get(f.get_id())
        if c is None: c = QUANT[f.get_id()] = (f, has_quant_([f]))
        if c[1]: return True
    return False
def has_quant_(fs):
    seen = set()
    def go(e):
        if e.get_id() in seen: return False
        seen.add(e.get_id())
        if z3.is_quantifier(e): return True
        return any(go(c) for c in e.children())
    return any(go(f) for f in fs)

def first_ite(e):
    """an atomic condition of an outermost if-then-else within e"""
    seen = set()
    def atom(b):
        if z3.is_and(b) or z3.is_or(b) or z3.is_not(b) or z3.is_implies(b) or (z3.is_eq(b) and z3.is_bool(b.arg(0))) or (z3.is_app(b) and b.decl().kind() == z3.Z3_OP_ITE):
            for c in b.children():
                if not z3.is_true(c) and not z3.is_false(c): return atom(c)
        return b
    def go(e):
        if e.get_id() in seen or not z3.is_app(e): return None
        seen.add(e.get_id())
        if e.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(e):
            c = first_ite(e.arg(0))
            return c if c is not None else atom(e.arg(0))
        for c in e.children():
            r = go(c)
            if r is not None: return r
        return None
    return go(e)
def reads(e):
    """what is read from arrays within e, by array"""
    seen, out = set(), {}
    def go(e):
        if e.get_id() in seen or not z3.is_app(e): return
        seen.add(e.get_id())
        for c in e.children(): go(c)
        if z3.is_select(e) and e.num_args() == 2: out.setdefault(e.arg(0).get_id(), []).append(e)
    go(e)
    return out
def unify_reads(so, d):
    """entries of an array that are the same entry, as far as so tells, get one name"""
    for _ in range(4):
        sub = []
        for es in reads(d).values():
            for i, a in enumerate(es[:6]):
                for b in es[i + 1:6]:
                    so.push(); so.add(a.arg(1) != b.arg(1)); r = so.check(); so.pop()
                    if r == z3.unsat: sub.append((b, a) if len(str(a)) <= len(str(b)) else (a, b)); break
        if not sub: return d
        d = z3.substitute(d, *sub[:1])
    return d
def same_value(hyp, x, y, cases=8000, timeout=.5):
    """two numbers are equal: case by case over the conditions in them, as polynomials"""
    if not z3.is_arith(x): return False
    so = z3.SimpleSolver()
    so.set('timeout', int(timeout * 1000)); so.set('mbqi', False); so.set('auto_config', False)
    for f in hyp: so.add(f)
    left = [cases]
    t_end = time.time() + 40
    def go(d, depth=0):
        if depth in (0, 2, 4): d = unify_reads(so, d)
        d = z3.simplify(d, som=True)
        if z3.is_rational_value(d) or z3.is_int_value(d): return z3.is_true(z3.simplify(d == 0)) or so.check() == z3.unsat
        if left[0] <= 0 or time.time() > t_end: return False
        c = first_ite(d)
        if c is None:
            left[0] -= 1
            d2 = z3.simplify(unify_reads(so, d), som=True)
            if z3.is_rational_value(d2) and z3.is_true(z3.simplify(d2 == 0)): return True
            so.push(); so.add(d2 != 0); r = so.check(); so.pop()
            return r == z3.unsat
        for v in (True, False):
            so.push()
            so.add(c if v else z3.Not(c))
            left[0] -= 1
            try:
                if so.check() != z3.unsat and not go(z3.substitute(d, (c, z3.BoolVal(v))), depth + 1): return False
            finally: so.pop()
        return True
    return go(x - y)
def equate(reg, pc, left, right=None, depth=2, budget=None):
    """equalities between aggregates over the same elements: proved by showing, for an arbitrary index, that both have the
    same guard and the same summand (the congruence rule of the aggregates)"""
    out, done = [], set()
    if right is None: pairs = [(s, t) for i, s in enumerate(left) for t in left[i + 1:]]
    else:
        pairs = [(s, t) for s in left for t in right]
        rest = left + [t for t in right if not any(t.eq(x) for x in left)]
        pairs += [(s, t) for i, s in enumerate(rest) for t in rest[i + 1:]] if depth == 2 else []
    for s, t in pairs:
        ds, dt = reg.by_decl[s.decl().name()], reg.by_decl[t.decl().name()]
        if ds is dt or ds.kind != dt.kind or ds.var.sort() != dt.var.sort() or ds.elem.sort() != dt.elem.sort() or s.sort() != t.sort(): continue
        key = (min(s.get_id(), t.get_id()), max(s.get_id(), t.get_id()))
        if key in done or s.eq(t): continue
        done.add(key)
        if budget[0] <= 0: return out
        budget[0] -= 1
        reg.n += 1
        w = z3.Const('eqw!%d' % reg.n, ds.var.sort())
        g1, e1, f1 = reg.inst(s, w); g2, e2, f2 = reg.inst(t, w)
        goal = z3.And(g1 == g2, z3.Implies(g1, e1 == e2))
        hyp = list(pc) + out + f1 + f2
        if depth > 0:
            sub1, sub2 = list(reg.apps([g1, e1])), list(reg.apps([g2, e2]))
            if sub1 and sub2: hyp += [z3.Implies(z3.And(g1, g2), x) for x in equate(reg, hyp + [g1, g2], sub1, sub2, depth - 1, budget)]
        if _quick(hyp + [z3.Not(goal)], .5) == z3.unsat: out.append(s == t)
        elif _quick(hyp + [z3.Not(g1 == g2)], .5) == z3.unsat:
            if same_value(hyp + [g1], e1, e2): out.append(s == t)
        elif ds.kind in ('SUM', 'ISUM'):    # the elements in only one of them contribute 0
            z = z3.simplify(e1 - e1)
            if same_value(hyp, z3.If(g1, e1, z), z3.If(g2, e2, z)): out.append(s == t)
    return out

def skolem(reg, g):
    """goal -> (assumptions, goal without its outer universal quantifiers, their constants)"""
    hyp, cs = [], []
    while True:
        if z3.is_implies(g): hyp.append(g.arg(0)); g = g.arg(1)
        elif z3.is_quantifier(g) and g.is_forall():
            vs = []
            for i in range(g.num_vars()):
                reg.n += 1
                vs.append(z3.Const('sk!%d' % reg.n, g.var_sort(i)))
            cs += vs
            g = z3.substitute_vars(g.body(), *reversed(vs))
        else: return hyp, g, cs
def instances(f, c):
    """what a fact says of the element c"""
    if z3.is_and(f): return [x for y in f.children() for x in instances(y, c)]
    if z3.is_implies(f): return [z3.Implies(f.arg(0), x) for x in instances(f.arg(1), c)]
    if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == c.sort(): return [z3.substitute_vars(f.body(), c)]
    return []
def at_skolem(reg, pc, goal, timeout):
    """a universal goal for an arbitrary element: the facts about that element are instantiated first"""
    hyp, g, cs = skolem(reg, goal)
    if not cs or len(cs) > 2: return False
    fs = hyp + [x for f in pc for c in cs for x in instances(f, c)]
    ground = [f for f in pc if not has_quant([f])]
    if _quick(ground + fs + [z3.Not(g)], timeout) == z3.unsat: return True
    return _quick(list(pc) + fs + [z3.Not(g)], timeout) == z3.unsat

def prove(reg, pc, goal, timeout=10.0, rounds=3, want_model=True, cheap=False):
    """-> (status, model or reason, backend); status in proved / refuted / unknown"""
    t0 = time.time()
    STATS['queries'] += 1
    try:
        fs = list(pc) + [z3.Not(goal)]
        q = has_quant(fs)
        opts = {}
        inst = Instantiator(reg)
        lem = []
        if not reg.apps(fs): rounds = 0
        elif q and not reg.apps([goal]):       # first without the facts about aggregates
            few = [f for f in pc if not reg.apps([f])]
            if _quick(few + [z3.Not(goal)], 2.0) == z3.unsat:
                STATS['z3'] += 1
                return 'proved', None, 'z3'
        if q and at_skolem(reg, pc, goal, 2.0):
            STATS['z3'] += 1
            return 'proved', None, 'z3'
        last = None
        for r in range(rounds + 1):
            final = r == rounds
            if q and _quick(fs + lem, 1.0 if not final else timeout / 2) == z3.unsat:
                b = 'z3' if r == 0 else 'z3-lemmas'
                STATS[b] += 1
                return 'proved', None, b
            res, s = _check(fs + lem, timeout if final else min(2.0, timeout), **opts)
            if res == z3.unsat:
                b = 'z3' if r == 0 else 'z3-lemmas'
                STATS[b] += 1
                return 'proved', None, b
            last = (res, s)
            if final: break
            if r == 0:
                mine = list(reg.apps([goal])); ids = {y.get_id() for y in mine}
                rest = [x for x in reg.apps(pc) if x.get_id() not in ids]
                if z3.is_eq(goal): lem += equate(reg, pc, list(reg.apps([goal.arg(0)])), list(reg.apps([goal.arg(1)])) + rest, 2, [30])
                else: lem += equate(reg, pc, mine + rest, None, 2, [20])
            if r == 0 and lem and _quick(fs + lem, 1.0) == z3.unsat:
                STATS['z3-lemmas'] += 1
                return 'proved', None, 'z3-lemmas'
            new = inst.round(fs + lem)
            if not new:
                if res == z3.unknown and timeout > 2 and not cheap: 
                    res, s = _check(fs + lem, timeout, **opts)
                    last = (res, s)
                    if res == z3.unsat:
                        STATS['z3'] += 1
                        return 'proved', None, 'z3'
                if not lem: break
            lem += new
        res, s = last
        if res == z3.unknown and cheap: return 'unknown', 'not tried hard', 'z3'
        if res == z3.unknown:
            # second opinions
            if q:
                r2, s2 = _check(fs + lem, timeout, **{'smt.mbqi': False})
                if r2 == z3.unsat:
                    STATS['z3'] += 1
                    return 'proved', None, 'z3-ematching'
            if cvc5_check(fs + lem, timeout) == 'unsat':
                STATS['cvc5'] += 1
                return 'proved', None, 'cvc5'
            return 'unknown', s.reason_unknown(), 'z3+cvc5'
        return 'refuted', s.model() if want_model else None, 'z3'
    finally:
        STATS['time'] += time.time() - t0
