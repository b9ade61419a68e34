"""Derivatives of the Bernstein basis: every degree n < 30, every order d <= n separately and all d > n with symbolic d; symbolic real x."""
from specs.bnd import *
from specs.c03 import BP, NMAX
def bp_der(n, d):
    x = z3.Real('x')
    def post(ex, c, ret):
        ex.oblige('n+1 values', as_int(ret.len) == n + 1, 'post')
        for i, v in enumerate(ret.e[:n + 1]): ex.oblige(f'(d/dx)^{d} B_{i}^{n}(x)', v == dbern(n, i, d, x), 'post')
    return BU(f'BernsteinPolynomial::EvaluateDerivative degree {n} order {d}', 'EvaluateDerivative', BP, None, lambda ex, c: (None, [I(n), x, I(d)], [0, 1, 2]), post)
def bp_der_high(n):
    x = z3.Real('x')
    def setup(ex, c):
        d = z3.Int('d'); ex.assume(d > n); return None, [I(n), x, d], [0, 1, 2]
    def post(ex, c, ret):
        ex.oblige('n+1 values', as_int(ret.len) == n + 1, 'post')
        for i, v in enumerate(ret.e[:n + 1]): ex.oblige(f'order above {n}: entry {i} is zero', v == 0, 'post')
    return BU(f'BernsteinPolynomial::EvaluateDerivative degree {n} every order above', 'EvaluateDerivative', BP, None, setup, post)
UNITS = [bp_der_high(n) for n in range(NMAX)] + sorted([bp_der(n, d) for n in range(NMAX) for d in range(n + 1)], key=lambda u: -len(u.name))
ASSUME = ['degree below MAX_BINOMIAL_DEGREE = 30, the documented limit: every degree 0..29 with every order 0..n is a separate proof with symbolic real x; orders above n symbolically']
