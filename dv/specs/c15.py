"""Derivatives of rational splines (bounded in degrees and orders)."""
from specs.rtl import *
CASES = {1: [((n,), (k,)) for n in range(0, 4) for k in range(0, 4)],
         2: [((a, b), o) for a, b in [(0, 1), (1, 1)] for o in [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2)] + ([(1, 1)] if a == 0 else [])],
         3: [((1, 0, 1), o) for o in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]]}
SPL = {1: [((n,), (k,)) for n in range(0, 3) for k in range(0, 3)], 2: [((a, b), o) for a, b in [(0, 1), (1, 1)] for o in [(0, 0), (1, 0), (0, 1)]], 3: [((1, 0, 1), o) for o in [(0, 0, 0), (1, 0, 0)]]}
PD = {1: [0, 2], 2: [0, 2], 3: [0, 3]}
def ordv(o): return ArrV([I(k) for k in o])
def evd(D, p, degs, o):
    xs = xi(D)
    def setup(ex, c): c['s'] = rspline(ex, D, p, 's', degs); ex.assume(den(c['s'], xs) != 0); return c['s'], [xpt(D), ordv(o)], ['this', 0, 1]
    return RU(f'EvaluateDerivative {RT(D, p)} degrees {degs} orders {o}', 'EvaluateDerivative', RT(D, p), [PTN(D), ARR(D)], setup, lambda ex, c, ret: same(ex, 'mixed partial derivative of the rational map', ret, mixed(c['s'], xs, o)))
def bfd(D, p, degs, o):
    """sum of derivative basis functions times projected control points: the basis of control point j is the derivative of the map with projected control points e_j"""
    xs = xi(D)
    def setup(ex, c): c['s'] = rspline(ex, D, p, 's', degs); ex.assume(den(c['s'], xs) != 0); return c['s'], [xpt(D), ordv(o)], ['this', 0, 1]
    def post(ex, c, ret):
        n = len(idxs(degs)); ws = sp_cps(wfn(c['s']))
        ex.oblige('one value per control point', as_int(ret.len) == n, 'post')
        for j, v in enumerate(ret.e[:n]):
            s = wsp(c['s']); e = RecV(s.t, dict(s.f)); e.f['control_points'] = CVec([ws[i] if i == j else R(0) for i in range(n)])
            ex.oblige(f'derivative basis function {j}', v == mixed(RecV(c['s'].t, {'weighted_spline_': e, 'weight_function_': wfn(c['s'])}), xs, o)[0], 'post')
    return RU(f'BasisFunctionsDerivatives {RT(D, p)} degrees {degs} orders {o}', 'BasisFunctionsDerivatives', RT(D, p), [PTN(D), ARR(D)], setup, post)
def dspl(D, p, degs, o):
    xs = xi(D)
    def setup(ex, c): c['s'] = rspline(ex, D, p, 's', degs); ex.assume(den(c['s'], xs) != 0); return c['s'], [ordv(o)], ['this', 0]
    def post(ex, c, ret): chkr(ex, ret, None, xs, mixed(c['s'], xs, o), 'derivative spline')
    return RU(f'DerivativeWRTParametricDimension {RT(D, p)} degrees {degs} orders {o}', 'DerivativeWRTParametricDimension', RT(D, p), [ARR(D)], setup, post)
UNITS = [f(D, p, degs, o) for D in CASES for p in PD[D] for degs, o in CASES[D] for f in (evd, bfd) if f is evd or p == PD[D][0]] + [dspl(D, p, degs, o) for D in SPL for p in PD[D] for degs, o in SPL[D]]
UNITS.sort(key=lambda u: -(u.name.count('D', 0, 1) * 0 + ('WRT' in u.name) * 5 + sum(int(ch) for ch in u.name if ch.isdigit())))
from specs import g15
UNITS += g15.UNITS
LEAN = ['mix_mul', 'rational_derivative1', 'rational_derivative2', 'rational_derivative3', 'last1', 'last2', 'last3', 'rec_combine', 'basis_numerator', 'basis_single', 'quotient_step', 'quotient_iter', 'mix_rev2', 'mix_rev3', 'derivative_ps']
LEVEL = 'proof'
ASSUME = ['orders below 30 per direction (the binomial table); degrees below 30', 'the derivative spline: every degree it passes through (they double with each order) below 30 per direction', 'contracts of the polynomial derivatives (C06), products (C10), differences (C09) and elevation (C07)']
BOUNDED = ['additionally, as refuting obligations: evaluation and basis 1-D degrees 0..3 with orders 0..3, 2-D (0,1) and (1,1) with first and unmixed second orders, 3-D (1,0,1) with first orders; derivative spline: 1-D 0..2 with orders 0..2, 2-D and 3-D first orders; weights, control points, position symbolic']
EXPLAIN = 'units "every degree, every order": EvaluateDerivative and BasisFunctionsDerivatives compute, for every lower order tuple, the generalised Leibniz recursion (loop invariants over the mixed-base numbering, SMT); Lean rational_derivative1/2/3: any family that satisfies it is the family of mixed partial derivatives (Frechet derivatives along the unit directions) of numerator/weight function, rec_combine + basis_numerator: the basis derivatives combine with projected control points to the same; derivative spline: each step is the quotient rule on the values at an arbitrary position (Lean quotient_step, quotient_iter), directions in any order (mix_rev)'
