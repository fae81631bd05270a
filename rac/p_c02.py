from rac.base import *
from rac.scalar import *
RULE = 'arguments of every contract drawn from many magnitudes and from special values (0, saturation threshold, equal values); non-trivial: the case is new'
def run(ctx): run_scalars(ctx, 'C02')
def candidates(ctx, cands): scalar_candidates(ctx, 'C02', cands)
