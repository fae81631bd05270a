from rac.metrics import *
RULE = 'every documented metric on generated states (no pools, one, many; ties; equal pools; any owner), against its documented definition; and as collected in simulations'
IDS = [1, 2, 3, 4, 5, 6, 7, 8, 12, 13, 14, 19, 20, 21, 24, 25, 26, 27, 28, 29, 30]
@check
def metric(c): metric_case(c, IDS + ([] if 11 not in NAMES else []))
@check
def ids(c):
    import logic.model_reporters as mr
    need(mr.REPORTER_IDS == NAMES, 'metric ids: %r' % {k: v for k, v in mr.REPORTER_IDS.items() if NAMES.get(k) != v})
    need(all(v in mr.ALL_MODEL_REPORTEERS for v in NAMES.values()), 'a documented metric has no reporter')
@check
def in_sim(kw): metric_sim(kw, IDS)
def run(ctx):
    ctx.run('ids', {})
    run_metrics(ctx, IDS, 'metric', 'in_sim')
