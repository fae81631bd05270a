from rac.metrics import *
RULE = 'generated states; Gini by the double sum over all pairs, statistical distance by its definition'
@check
def metric(c): metric_case(c, [10, 22, 23, 'gk', 'gsk'])
@check
def gini_array(c):
    import logic.model_reporters as mr, numpy as np
    x = np.array(c['x'])
    g, w = mr.gini_coefficient(x), gini(c['x'])
    if w is not None: need(close(g, w), 'Gini of %r is %r, should be %r' % (c['x'], g, w))
    need(list(x) == c['x'], 'the array was changed')
@check
def in_sim(kw): metric_sim(kw, [10, 22, 23])
def run(ctx):
    rng = ctx.rng
    run_metrics(ctx, [10, 22, 23], 'metric', 'in_sim', lambda: ctx.run('gini_array', dict(x=[rng.choice([0, 1, 2, 3, rng.random() * 5]) for _ in range(rng.randint(1, 12))])))
