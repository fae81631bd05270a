from rac.metrics import *
RULE = 'generated states with ties and exact halves, and distributions before pools exist; smallest coalition by direct search'
@check
def metric(c): metric_case(c, [9])
@check
def prior(c):
    import logic.model_reporters as mr
    c['pools'] = None
    m = small(c)
    w = nakamoto([a[0] for a in c['agents']])
    g = mr.get_nakamoto_coefficient(m)
    if w is not None: need(g == w, 'before any pools the Nakamoto coefficient is reported as %r, should be %r' % (g, w))
@check
def in_sim(kw): metric_sim(kw, [9])
def run(ctx): run_metrics(ctx, [9], 'metric', 'in_sim', lambda: ctx.run('prior', gen_small(ctx.rng)))
