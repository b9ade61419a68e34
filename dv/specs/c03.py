"""Binomial table and Bernstein basis: every supported degree (n < 30), every k, symbolic real x. Complete, no bound."""
from specs.bnd import *
NMAX = 30
class Choose(BU):
    def __init__(s, n):
        BU.__init__(s, f'choose({n}, 0..{n})', 'choose', 'FastBinomialCoefficient', None, None, None); s.n = n
    def setup(s, ex, fn): s.fn = fn; return None, [LV(ex.new_cell(I(s.n), 'n')), LV(ex.new_cell(I(0), 'k'))]
    def post(s, ex, fn, ret):
        ex.oblige(f'choose({s.n},0) = 1', ex.read(ret) == 1, 'post')
        for k in range(1, s.n + 1):
            r = ex.exec_fn(fn, None, [LV(ex.new_cell(I(s.n), 'n')), LV(ex.new_cell(I(k), 'k'))])
            ex.oblige(f'choose({s.n},{k}) = {comb(s.n, k)}', ex.read(r) == comb(s.n, k), 'post')
BP = 'BernsteinPolynomial<double>'
def bp_eval(n):
    x = z3.Real('x')
    def post(ex, c, ret):
        ex.oblige('n+1 values', as_int(ret.len) == n + 1, 'post')
        for i, v in enumerate(ret.e[:n + 1]): ex.oblige(f'B_{i}^{n}(x) = C({n},{i}) x^{i} (1-x)^{n - i}', v == bern(n, i, x), 'post')
    return BU(f'BernsteinPolynomial::Evaluate degree {n}', 'Evaluate', BP, None, lambda ex, c: (None, [I(n), x], [0, 1]), post)
UNITS = [Choose(n) for n in range(NMAX)] + [bp_eval(n) for n in range(NMAX)]
ASSUME = ['degree below MAX_BINOMIAL_DEGREE = 30, the documented limit: every degree 0..29 is a separate proof with symbolic real x']
