"""Composition sensitivities (bounded in the degrees)."""
from specs.rtl import *
from specs.c12 import Cube, inner, ival, IT, POLY, RAT
def sens(rato, ratin, D, p, degs, E, q, m):
    xs = xi(E)
    def setup(ex, c):
        c['o'] = rspline(ex, D, p, 'o', degs, pos=True) if rato else bspline(ex, D, p, 'o', degs); c['i'] = inner(ex, ratin, E, q, m, True)
        y = ival(ratin, c['i'], xs)
        if ratin: ex.assume(den(c['i'], xs) != 0)
        if rato: ex.assume(den(c['o'], y) != 0)
        return c['o'], [c['i']], ['this', 0]
    def post(ex, c, ret):
        ii = idxs(degs); y = ival(ratin, c['i'], xs)
        ex.oblige('one spline per control point', as_int(ret.len) == len(ii), 'post')
        for j, r in enumerate(ret.e[:len(ii)]):
            exp = bernprod(degs, ii[j], y)
            if rato: exp = exp * sp_cps(wfn(c['o']))[j] / den(c['o'], y)
            if rato or ratin: chkr(ex, r, None, xs, [exp], f'sensitivity {ii[j]}')
            elif wfb(ex, r, f'sensitivity {ii[j]}'): same(ex, f'sensitivity {ii[j]}: value at every position', evspec(sp_degs(r), sp_cps(r), xs), [exp])
    u = BU(f'{IT(rato, D, p)} degrees {degs} ComposeSensitivity {IT(ratin, E, q)} degrees {m}', 'ComposeSensitivity', IT(rato, D, p), [IT(ratin, E, q)], setup, post, tu='comp.cpp')
    u.contracts = [Cube(True)]
    return u
def reject(rato, ratin, D, p, degs, E, q, m):
    def setup(ex, c): return (rspline(ex, D, p, 'o', degs, pos=True) if rato else bspline(ex, D, p, 'o', degs)), [inner(ex, ratin, E, q, m, False)], []
    u = BU(f'{IT(rato, D, p)} degrees {degs} ComposeSensitivity {IT(ratin, E, q)} degrees {m} outside the unit cube', 'ComposeSensitivity', IT(rato, D, p), [IT(ratin, E, q)], setup, None, throws=True, tu='comp.cpp')
    u.contracts = [Cube(False)]
    return u
RP = [a for a in POLY if sum(a[2]) * sum(a[5]) <= 4]; RR = [a for a in RAT if sum(a[2]) * sum(a[5]) <= 3]
UNITS = [sens(False, False, *a) for a in POLY] + [sens(False, True, *a) for a in RAT] + [sens(True, False, *a) for a in RP] + [sens(True, True, *a) for a in RR]
UNITS += [reject(o, r, *a) for o in (False, True) for r in (False, True) for a in [(1, 0, (2,), 1, 0, (1,)), (1, 2, (1,), 2, 0, (1, 1)), (2, 2, (1, 1), 2, 2, (1, 0))]]
UNITS.sort(key=lambda u: -sum(int(x) for x in u.name if x.isdigit()))
from specs import g12
UNITS += g12.PARTS[True] + g12.RCOMP[True]
LEVEL = 'proof'
LEAN = ['basis1', 'basis2', 'basis3', 'hbern_eq', 'hbasis1', 'hbasis2', 'hbasis3', 'compose', 'compose_poly', 'compose_ratio']
ASSUME = ['inner degree times the sum of the outer degrees, and every outer degree, below 30 (range of the tabulated binomial coefficients used by the product)']
BOUNDED = ['additionally, as refuting obligations: degree combinations as in C12 (polynomial outer) and those of total product degree up to 4 (rational outer); control points, weights, position symbolic']
EXPLAIN = 'for every outer and inner degree: entry k of the result is the product of the Bernstein splines at the digits of k, i.e. the outer basis function k at the inner value (Lean hbasis1..3), over the common denominator for rational inner or outer functions; the value is linear in the outer control points with these coefficients (C12, Lean compose), so they are the derivatives'
