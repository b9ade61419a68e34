"""Composition with a rational outer spline (bounded in the degrees)."""
from specs.rtl import *
from specs.c12 import Cube, inner, ival, IT, POLY, RAT
from specs.c13 import RP, RR, reject as reject13
def compose(ratin, D, p, degs, E, q, m):
    xs = xi(E)
    def setup(ex, c):
        c['o'] = rspline(ex, D, p, 'o', degs, pos=True); c['i'] = inner(ex, ratin, E, q, m, True)
        if ratin: ex.assume(den(c['i'], xs) != 0)
        ex.assume(den(c['o'], ival(ratin, c['i'], xs)) != 0)
        return c['o'], [c['i']], ['this', 0]
    def post(ex, c, ret):
        y = ival(ratin, c['i'], xs); d = den(c['o'], y)
        chkr(ex, ret, None, xs, [v / d for v in num(c['o'], y)], 'composition')
    u = BU(f'{RT(D, p)} degrees {degs} Compose {IT(ratin, E, q)} degrees {m}', 'Compose', RT(D, p), [IT(ratin, E, q)], setup, post, tu='comp.cpp')
    u.contracts = [Cube(True)]
    return u
def reject(ratin, D, p, degs, E, q, m):
    def setup(ex, c): return rspline(ex, D, p, 'o', degs, pos=True), [inner(ex, ratin, E, q, m, False)], []
    u = BU(f'{RT(D, p)} degrees {degs} Compose {IT(ratin, E, q)} degrees {m} outside the unit cube', 'Compose', RT(D, p), [IT(ratin, E, q)], setup, None, throws=True, tu='comp.cpp')
    u.contracts = [Cube(False)]
    return u
REJ = [(1, 0, (2,), 1, 0, (1,)), (1, 2, (1,), 2, 0, (1, 1)), (2, 2, (1, 1), 2, 2, (1, 0)), (3, 3, (1, 0, 1), 1, 3, (1,))]
UNITS = [compose(False, *a) for a in RP] + [compose(True, *a) for a in RR] + [reject(r, *a) for r in (False, True) for a in REJ] + [reject13(True, r, *a) for r in (False, True) for a in REJ]
UNITS.sort(key=lambda u: -sum(int(x) for x in u.name if x.isdigit()))
from specs import g12
UNITS += g12.RCOMP[False] + g12.RCOMP[True]
LEVEL = 'proof'
LEAN = ['compose', 'compose_poly', 'compose_ratio']
ASSUME = ['inner degree times the sum of the outer degrees, and every outer degree, below 30 (range of the tabulated binomial coefficients used by the product)']
BOUNDED = ['additionally, as refuting obligations: outer/inner degree combinations of total product degree up to 4 (polynomial inner) and 3 (rational inner); control points, weights (positive), position symbolic']
EXPLAIN = 'for every outer and inner degree: numerator and weight function of the result are the compositions of numerator and weight function of the outer spline (contracts proved in C12), all over the same power of the inner weight, which cancels (Lean compose_ratio); splines outside the unit cube are rejected exactly when the test of C11 fails, in every variant'
