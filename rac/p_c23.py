from rac.base import *
import math
RULE = 'strings of every kind (whole, decimal, signed, exponents, blanks, underscores, infinities, not-a-number, words) for every numeric kind and option'
KINDS = {'positive_int': (int, lambda v: v > 0), 'non_negative_int': (int, lambda v: v >= 0), 'positive_float': (float, lambda v: math.isfinite(v) and v > 0),
         'non_negative_float': (float, lambda v: math.isfinite(v) and v >= 0), 'fraction': (float, lambda v: math.isfinite(v) and 0 <= v <= 1)}
OPTS = {'--n': 'positive_int', '--k': 'positive_int', '--a0': 'non_negative_float', '--cost_min': 'non_negative_float', '--cost_max': 'non_negative_float',
        '--extra_pool_cost_fraction': 'non_negative_float', '--absolute_utility_threshold': 'non_negative_float', '--relative_utility_threshold': 'non_negative_float',
        '--pareto_param': 'positive_float', '--inactive_stake_fraction': 'fraction', '--iterations_after_convergence': 'positive_int', '--max_iterations': 'positive_int', '--seed': 'non_negative_int'}
MULTI = {'--k', '--a0'}
def expect(kind, s):
    conv, ok = KINDS[kind]
    try: v = conv(s)
    except ValueError: return None
    return (v,) if ok(v) else None
@check
def value(c):
    import argparse, logic.helper as h
    w = expect(c['kind'], c['s'])
    try: g = (getattr(h, c['kind'])(c['s']),)
    except (argparse.ArgumentTypeError, ValueError): g = None
    need((g is None) == (w is None) and (g is None or (g[0] == w[0] and type(g[0]) is type(w[0]))), '%s(%r) gives %s, should give %s' % (c['kind'], c['s'], 'an error' if g is None else repr(g[0]), 'an error' if w is None else repr(w[0])))
@check
def option(c):
    import argparse, logic.helper as h
    p = argparse.ArgumentParser(); h.add_script_arguments(p)
    o = c['opt']; vals = c['vals']
    ws = [expect(OPTS[o], s) for s in vals]
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err): a = p.parse_args(['%s=%s' % (o, vals[0])] if len(vals) == 1 else [o] + vals)
        g = getattr(a, o[2:])
    except SystemExit as e:
        need(e.code == 2, 'exit code %r' % e.code); g = None
    want = None if any(w is None for w in ws) else ([w[0] for w in ws] if o in MULTI else ws[0][0])
    need(g == want and (g is None or type(g) is type(want)), '%s %s gives %s, should give %s' % (o, vals, 'a usage error' if g is None else repr(g), 'a usage error' if want is None else repr(want)))
@check
def profile(c):
    import argparse, logic.helper as h
    p = argparse.ArgumentParser(); h.add_script_arguments(p)
    ws = [expect('non_negative_float', s) for s in c['vals']]
    try:
        with contextlib.redirect_stderr(io.StringIO()): g = p.parse_args(['--agent_profile_distr'] + c['vals']).agent_profile_distr
    except SystemExit: g = None
    want = None if any(w is None for w in ws) else [w[0] for w in ws]
    need(g == want, '--agent_profile_distr %s gives %r, should give %r' % (c['vals'], g, want))
def gen(rng):
    b = rng.choice(['0', '1', '-1', '2', '0.0', '1.0', '0.5', '-0.5', '1e-3', '1e400', '-1e400', 'nan', '-nan', 'inf', '-inf', 'Infinity', '1e5', '1.0000000001', '0.9999999', '-0', '-0.0', '1_000', 'abc', '', ' 3 ', '0x10', '1e', '--', '3.0',
                    '1e-320', '-1e-320', '10000000000000000000000', 'True', 'None', '1,5', '\u0663', '+4', '+0.25', str(rng.randint(-5, 2000)), repr(rng.uniform(-1, 2)), repr(rng.random()), 'NaN', '1/2', '0.', '.5'])
    return b
def run(ctx):
    rng = ctx.rng; i = 0
    while ctx.more() and i < 20000:
        i += 1
        if i % 4 == 0:
            o = rng.choice(list(OPTS))
            vals = [gen(rng)] if o not in MULTI or rng.random() < .6 else [v for v in (gen(rng) for _ in range(3)) if not v.startswith('-')] or ['1']
            ctx.run('option', dict(opt=o, vals=vals))
        elif i % 40 == 1: ctx.run('profile', dict(vals=[(lambda s: '7' if s.startswith('-') else s)(gen(rng)) for _ in range(3)]))
        else: ctx.run('value', dict(kind=rng.choice(list(KINDS)), s=gen(rng)))
def candidates(ctx, cands):
    for c in cands:
        k = c['contract'].split('.')[-1]
        v = (c.get('model') or {}).get('value') if c.get('model') else None
        if k in KINDS:
            for s in ([repr(v), str(v)] if v is not None else []) + ['0', '1', '-1', 'nan', 'inf', '0.5', '2']: ctx.run('value', dict(kind=k, s=s))
