"""Derivatives of polynomial splines (bounded in degrees and orders)."""
from specs.bnd import *
CASES = {1: [((n,), (k,)) for n in range(0, 7) for k in range(0, n + 2)],
         2: [((a, b), (i, j)) for a, b in [(0, 1), (1, 1), (2, 1), (1, 3), (3, 2), (2, 2)] for i in range(0, a + 2) for j in range(0, b + 2)],
         3: [((1, 2, 1), o) for o in [(0, 0, 0), (1, 0, 0), (0, 2, 0), (0, 1, 1), (1, 1, 1), (1, 2, 1), (0, 0, 2), (1, 3, 0)]] + [((2, 1, 2), o) for o in [(2, 0, 1), (1, 1, 2), (2, 1, 2), (0, 0, 1)]] + [((0, 2, 3), o) for o in [(0, 1, 2), (0, 0, 3), (1, 0, 0), (0, 2, 1)]]}
PD = {1: [0, 2], 2: [0, 2], 3: [0, 3]}
def ordv(o): return ArrV([I(k) for k in o])
def evd(D, p, degs, o):
    xs = xi(D)
    def setup(ex, c):
        c['s'] = bspline(ex, D, p, 's', degs); return c['s'], [xpt(D), ordv(o)], ['this', 0, 1]
    def post(ex, c, ret): same(ex, 'mixed partial derivative of the spline map', ret, evspec(degs, sp_cps(c['s']), xs, o))
    return BU(f'EvaluateDerivative {ST(D, p)} degrees {degs} orders {o}', 'EvaluateDerivative', ST(D, p), [PTN(D), ARR(D)], setup, post)
def bfd(D, p, degs, o):
    xs = xi(D)
    def setup(ex, c): return bspline(ex, D, p, 's', degs), [xpt(D), ordv(o)], ['this', 0, 1]
    def post(ex, c, ret):
        ii = idxs(degs)
        ex.oblige('one value per control point', as_int(ret.len) == len(ii), 'post')
        for v, i in zip(ret.e, ii): ex.oblige(f'derivative basis function {i}', v == bernprod(degs, i, xs, o), 'post')
    return BU(f'BasisFunctionsDerivatives {ST(D, p)} degrees {degs} orders {o}', 'BasisFunctionsDerivatives', ST(D, p), [PTN(D), ARR(D)], setup, post)
def dspl(D, p, degs, o):
    xs = xi(D)
    def setup(ex, c):
        c['s'] = bspline(ex, D, p, 's', degs); return c['s'], [ordv(o)], ['this', 0]
    def post(ex, c, ret):
        nd = sp_degs(ret)
        if all(k <= n for k, n in zip(o, degs)): ok = wfb(ex, ret, 'derivative spline', [n - k for k, n in zip(o, degs)])
        else: ok = wfb(ex, ret, 'derivative spline')
        if ok: same(ex, 'derivative spline evaluates to the mixed partial derivative', evspec(nd, sp_cps(ret), xs), evspec(degs, sp_cps(c['s']), xs, o))
    return BU(f'DerivativeWRTParametricDimension {ST(D, p)} degrees {degs} orders {o}', 'DerivativeWRTParametricDimension', ST(D, p), [ARR(D)], setup, post)
UNITS = [f(D, p, degs, o) for D in CASES for p in PD[D] for degs, o in CASES[D] for f in (evd, bfd, dspl)]
from specs import g06
UNITS += g06.UNITS
LEAN = ['derivative1', 'derivative2', 'derivative3', 'stage_fd', 'falling', 'mp_zero', 'derivative_ps', 'basisd1', 'basisd2', 'basisd3', 'mp_basis', 'mp_zero_orders']
LEVEL = 'proof'
ASSUME = ['orders below 30 in a differentiated direction of the derivative spline (the binomial table); degrees below 30 for the derivative basis functions']
BOUNDED = ['additionally, as refuting obligations: 1-D degree 0..6 with every order up to degree+1, 2-D six degree pairs with every order pair up to degree+1, 3-D three tuples with selected orders; control points and position symbolic']
EXPLAIN = 'units "every degree": each in-place stage of the derivative spline writes the scaled forward difference at every visited position and leaves the positions it still has to read untouched (loop invariants, SMT), Lean stage_fd + derivative1/2/3: the result is the mixed partial derivative; orders above the degree give the zero spline (mp_zero); derivative basis functions are products of the univariate ones (C04) and EvaluateDerivative is their weighted sum (derivative_ps)'
