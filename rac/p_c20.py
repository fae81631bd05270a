from rac.metrics import *
RULE = 'dictionaries of values with ties and tie-breaking dictionaries, in random key order; rank metrics on generated states'
@check
def ranks(c):
    import logic.helper as h
    keys = c['keys']
    d = {k: v for k, v in zip(keys, c['vals'])}
    ts = [{k: v for k, v in zip(keys, t)} for t in c['ties']]
    d0, t0 = dict(d), [dict(t) for t in ts]
    r = h.calculate_ranks(d, *ts, **({} if c['ids'] is None else dict(rank_ids=c['ids'])))
    need(d == d0 and ts == t0, 'the arguments were changed')
    need(sorted(r.values()) == list(range(1, len(keys) + 1)) and set(r) == set(keys), 'ranks %r are not a permutation of 1..%d' % (r, len(keys)))
    for a in keys:
        for b in keys:
            ka, kb = (d[a],) + tuple(t[a] for t in ts), (d[b],) + tuple(t[b] for t in ts)
            if ka > kb: need(r[a] < r[b], '%r %r is ranked %d, %r %r is ranked %d' % (a, ka, r[a], b, kb, r[b]))
            elif ka == kb and a < b and c['ids'] is not False: need(r[a] < r[b], 'tie between %r and %r goes to the larger id' % (a, b))
@check
def metric(c): metric_case(c, [15, 16, 17, 18])
@check
def in_sim(kw): metric_sim(kw, [15, 16, 17, 18])
def run(ctx):
    rng = ctx.rng
    def ex():
        n = rng.choice([0, 1, 2, 3, 6, 12])
        v = lambda: rng.choice([0, 1, 1, 2, -1, 0.5, rng.random()])
        ctx.run('ranks', dict(keys=rng.sample(range(-20, 40), n), vals=[v() for _ in range(n)], ties=[[v() for _ in range(n)] for _ in range(rng.choice([0, 0, 1, 2]))], ids=rng.choice([None, True, False])))
    run_metrics(ctx, [15, 16, 17, 18], 'metric', 'in_sim', ex)
