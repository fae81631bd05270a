"""The specification language.  Scalar specifications are written once, against a back end S:
`pyver.symspec.Sym` gives them their meaning as z3 terms (proof), `Conc` evaluates them on floats with a
rounding tolerance (runtime contract checking of the real code, replay of solver counterexamples).
This module imports nothing but the standard library, so that it can be used next to the real code."""
import math

class Contract:
    """machine-checked specification of one function of /repo"""
    def __init__(self, key, target, params, ensures=None, requires=None, raises=None, value=None, returns=None,
                 modifies=(), loops=None, inline=False, gen=None, title='', setup=None, ghost=None, unroll=False,
                 pure=True, timeout=None, callmode=None, cls=None, wf=True, check_frame=True, result_type=None, tol=None, skip_rac=False, driver=None, stubs=None, config=None):
        self.stubs, self.config = stubs, config
        self.driver = driver
        self.key, self.target, self.params, self.title = key, target, params, title
        self.ensures, self.requires, self.raises = ensures, requires, raises or {}
        self.value, self.returns, self.modifies, self.loops = value, returns, modifies, loops
        self.inline, self.gen, self.setup, self.ghost, self.unroll = inline, gen, setup, ghost, unroll
        self.pure, self.timeout, self.callmode, self.cls, self.wf = pure, timeout, callmode, cls, wf
        self.check_frame, self.result_type, self.tol, self.skip_rac = check_frame, result_type, tol, skip_rac

class Lemma:
    """a consequence of contracts, proved from the specifications alone: for all params, requires => ensures"""
    def __init__(self, key, params, ensures, requires=None, title='', gen=None, timeout=None):
        self.key, self.params, self.ensures, self.requires, self.title, self.gen, self.timeout = key, params, ensures, requires, title, gen, timeout

class A:
    """argument record"""
    def __init__(self, d): self.__dict__.update(d)

class Conc:
    """concrete, tolerant semantics"""
    symbolic = False
    def __init__(self, rel=1e-9, abs_=1e-13): self.rel, self.abs = rel, abs_
    def c(self, s): return float(s)
    def tol(self, x, y): return self.abs + self.rel * max(abs(x), abs(y))
    def eq(self, x, y):
        if isinstance(x, int) and isinstance(y, int): return x == y
        if x == y: return True
        return abs(x - y) <= self.tol(x, y)
    def le(self, x, y): return x <= y + self.tol(x, y)
    def lt(self, x, y): return x < y + self.tol(x, y)
    def ge(self, x, y): return self.le(y, x)
    def gt(self, x, y): return self.lt(y, x)
    def xle(self, x, y): return x <= y          # exact comparisons
    def xlt(self, x, y): return x < y
    def xge(self, x, y): return x >= y
    def xgt(self, x, y): return x > y
    def iff(self, a, b): return bool(a) == bool(b)
    def implies(self, a, b):
        if not a: return True
        return b() if callable(b) else b
    def And(self, *a): return all(a)
    def Or(self, *a): return any(a)
    def Not(self, a): return not a
    def ite(self, c, a, b):
        v = a if c else b
        return v() if callable(v) else v
    def mn(self, *a): return min(a)
    def mx(self, *a): return max(a)
    def abs_(self, x): return abs(x)
    def div(self, a, b): return a / b if b != 0 else 0.0
    def pow(self, x, y): return x ** y
    def real(self, x): return float(x)
    def trunc(self, x): return int(x)
    def rss_reward(self, rss, pledge, stake): return rss.calculate_pool_reward(pool_pledge=pledge, pool_stake=stake)
    def rss_threshold(self, rss, pledge): return rss.get_pool_saturation_threshold(pledge)
    def get(self, o, field): return getattr(o, field)
    def new(self, o, field): return getattr(o, field)
    def nlist(self, x): return len(x)
