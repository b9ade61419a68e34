"""Composition with a polynomial outer spline (bounded in the degrees)."""
from specs.rtl import *
# (outer D, outer p, outer degrees, inner D, inner p, inner degrees)
POLY = [(1, 0, (n,), 1, 0, (m,)) for n in range(0, 5) for m in range(0, 3)] + [(1, 0, (7,), 1, 0, (1,)), (1, 2, (6,), 1, 0, (1,)), (1, 0, (3,), 1, 0, (3,))] + \
       [(1, 2, (2,), 1, 0, (2,)), (1, 2, (1,), 2, 0, (1, 2)), (1, 2, (2,), 2, 0, (1, 1)), (1, 2, (3,), 2, 0, (1, 0)), (1, 2, (0,), 2, 0, (1, 1))] + \
       [(2, 0, d, 1, 2, (m,)) for d, m in [((0, 0), 1), ((1, 0), 2), ((0, 2), 1), ((1, 1), 2), ((2, 1), 1), ((1, 3), 1), ((2, 2), 1)]] + \
       [(2, 2, d, 2, 2, m) for d, m in [((1, 1), (1, 1)), ((2, 1), (1, 0)), ((1, 0), (2, 1)), ((0, 2), (0, 1))]] + [(2, 3, (1, 2), 1, 2, (1,))] + \
       [(3, 3, d, 1, 3, m) for d, m in [((1, 1, 1), (1,)), ((0, 1, 2), (1,)), ((2, 0, 1), (1,)), ((1, 0, 1), (2,))]] + [(3, 0, (1, 1, 1), 2, 3, (1, 0)), (3, 0, (1, 0, 2), 2, 3, (0, 1))]
RAT = [(1, 0, (n,), 1, 0, (m,)) for n in range(0, 4) for m in range(0, 3)] + [(1, 0, (7,), 1, 0, (1,)), (1, 2, (2,), 1, 0, (1,)), (1, 2, (1,), 2, 0, (1, 1)), (1, 2, (2,), 2, 0, (0, 1))] + \
      [(2, 0, d, 1, 2, (m,)) for d, m in [((0, 0), 1), ((1, 0), 2), ((1, 1), 1), ((2, 1), 1)]] + [(2, 2, (1, 1), 2, 2, (1, 0)), (2, 3, (1, 1), 1, 2, (1,)), (3, 3, (1, 0, 1), 1, 3, (1,)), (3, 0, (1, 1, 0), 2, 3, (0, 1))]
class Cube:
    """contract of FitsIntoUnitCube (C11): answers whether all projected control points lie in [0,1]; the answer is fixed by the unit's precondition"""
    def __init__(s, ans): s.ans = ans
    def match(s, f): return f.name == 'FitsIntoUnitCube'
    def apply(s, ex, fn, this, args): return z3.BoolVal(s.ans)
def inner(ex, rat, D, p, degs, fits):
    v = rspline(ex, D, p, 'i', degs, pos=True) if rat else bspline(ex, D, p, 'i', degs)
    inside = []
    if rat:
        for q, w in zip(sp_cps(wsp(v)), sp_cps(wfn(v))):
            for x in comps(q): inside.append(z3.And(x >= 0, x <= w))
    else:
        for q in sp_cps(v):
            for x in comps(q): inside.append(z3.And(x >= 0, x <= 1))
    ex.assume(inside if fits else z3.Not(z3.And(inside)))
    return v
def ival(rat_, v, xs): return rat(v, xs) if rat_ else evspec(sp_degs(v), sp_cps(v), xs)
def IT(rat, D, p): return RT(D, p) if rat else ST(D, p)
def compose(ratin, D, p, degs, E, q, m, group=False):
    xs = xi(E)
    def setup(ex, c):
        c['o'] = bspline(ex, D, p, 'o', degs); c['i'] = inner(ex, ratin, E, q, m, True)
        if ratin: ex.assume(den(c['i'], xs) != 0)
        c['g'] = CVec([c['i'], c['i']])
        return c['o'], [c['g'] if group else c['i']], ['this', 0]
    def post(ex, c, ret):
        if group: ex.oblige('one composition per member', as_int(ret.len) == 2, 'post'); ret = ret.e[1]
        y = ival(ratin, c['i'], xs)
        exp = evspec(degs, sp_cps(c['o']), y)
        if ratin: chkr(ex, ret, None, xs, exp, 'composition')
        else:
            nd = [k * sum(degs) for k in m]
            if wfb(ex, ret, 'composition', nd): same(ex, 'composition: value at every position', evspec(nd, sp_cps(ret), xs), exp)
    u = BU(f'{ST(D, p)} degrees {degs} Compose {"group of " if group else ""}{IT(ratin, E, q)} degrees {m}', 'Compose', ST(D, p), [f'vector<{IT(ratin, E, q)}>' if group else IT(ratin, E, q)], setup, post, tu='comp.cpp')
    u.contracts = [Cube(True)]
    return u
def reject(ratin, D, p, degs, E, q, m, fname='Compose'):
    def setup(ex, c): return bspline(ex, D, p, 'o', degs), [inner(ex, ratin, E, q, m, False)], []
    u = BU(f'{ST(D, p)} degrees {degs} {fname} {IT(ratin, E, q)} degrees {m} outside the unit cube', fname, ST(D, p), [IT(ratin, E, q)], setup, None, throws=True, tu='comp.cpp')
    u.contracts = [Cube(False)]
    return u
UNITS = [compose(False, *a) for a in POLY] + [compose(True, *a) for a in RAT] + [compose(False, *a, group=True) for a in POLY[::9]] + [reject(r, *a) for r in (False, True) for a in [(1, 0, (2,), 1, 0, (1,)), (1, 2, (1,), 2, 0, (1, 1)), (2, 2, (1, 1), 2, 2, (1, 0)), (3, 3, (1, 0, 1), 1, 3, (1,))]]
UNITS.sort(key=lambda u: -sum(int(x) for x in u.name if x.isdigit()))
from specs import g12
UNITS += g12.PARTS[False] + g12.GROUP
LEVEL = 'proof'
LEAN = ['ev_basis', 'partial_sum', 'ev_linear', 'basis1', 'basis2', 'basis3', 'hbern_eq', 'hbasis1', 'hbasis2', 'hbasis3', 'compose', 'compose_poly', 'compose_ratio']
ASSUME = ['inner degree times the sum of the outer degrees, and every outer degree, below 30 (range of the tabulated binomial coefficients used by the product)', 'the tables of powers u^k are the mathematical power (pow(x,0)=1, pow(x,k+1)=pow(x,k)*x)']
BOUNDED = ['additionally, as refuting obligations: degree combinations listed in specs/c12.py (outer 1-D degree 0..7, 2-D up to (2,2), 3-D up to (1,1,1); inner 1-D and 2-D); outer and inner control points, weights, position symbolic; members of a group: two']
EXPLAIN = 'for every outer and inner degree: the tables of Bernstein splines (powers, complementary powers, coefficients), the basis product and the accumulation over the outer control points are verified loop by loop against the contracts of product, difference, scaling, extraction, unit-cube test and index arithmetic; the sum is the outer spline at the inner value (Lean). The public compositions, the group form (any number of members) and the rational inner form (numerator and power of the weight function) are verified against these contracts'
