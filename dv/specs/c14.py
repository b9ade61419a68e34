"""Rational evaluation and construction (bounded in the degrees)."""
from specs.rtl import *
DEG = {1: [(n,) for n in range(0, 6)], 2: [(a, b) for a in range(3) for b in range(3)] + [(3, 1)], 3: [(0, 0, 0), (1, 0, 2), (2, 1, 1), (0, 1, 1)]}
PD = {1: [0, 2], 2: [0, 2], 3: [0, 3]}
def argx(D, form): return ([PTN(D)] if form == 'pt' else ['double'] * D)
def mkx(D, form): return [xpt(D)] if form == 'pt' else xi(D)
def ev(fname, D, p, degs, form):
    xs = xi(D)
    def setup(ex, c): c['s'] = rspline(ex, D, p, 's', degs); ex.assume(den(c['s'], xs) != 0); return c['s'], mkx(D, form), ['this'] + list(range(1 if form == 'pt' else D))
    return RU(f'{fname} {form} {RT(D, p)} degrees {degs}', fname, RT(D, p), argx(D, form), setup, lambda ex, c, ret: same(ex, 'numerator value / weight value', ret, rat(c['s'], xs)))
def basis(fname, D, p, degs, form):
    xs = xi(D); unw = fname.startswith('Unw')
    def setup(ex, c): c['s'] = rspline(ex, D, p, 's', degs); ex.assume(den(c['s'], xs) != 0); return c['s'], mkx(D, form), ['this'] + list(range(1 if form == 'pt' else D))
    def post(ex, c, ret):
        ii = idxs(degs); d = den(c['s'], xs)
        ex.oblige('one value per control point', as_int(ret.len) == len(ii), 'post')
        for v, i, w in zip(ret.e, ii, sp_cps(wfn(c['s']))): ex.oblige(f'basis function {i}', v == (bernprod(degs, i, xs) / d if unw else w * bernprod(degs, i, xs) / d), 'post')
        if len(ret.e) == len(ii) <= 9:
            if unw:
                for k in range(max(p, 1)): ex.oblige(f'combines with the weighted control points, component {k}', sumr(v * comps(q)[k] for v, q in zip(ret.e, sp_cps(wsp(c['s'])))) == rat(c['s'], xs)[k], 'lemma')
            else: ex.oblige('basis functions sum to one', sumr(ret.e) == 1, 'lemma')
    return RU(f'{fname} {form} {RT(D, p)} degrees {degs}', fname, RT(D, p), argx(D, form), setup, post)
def contrib(D, p, degs):
    xs = xi(D)
    def post(ex, c, ret):
        for d in range(D):
            ex.oblige(f'dimension {d}: degree+1 values', as_int(ret.e[d].len) == degs[d] + 1, 'post')
            for i, v in enumerate(ret.e[d].e[:degs[d] + 1]): ex.oblige(f'dimension {d}: Bernstein value {i}', v == bern(degs[d], i, xs[d]), 'post')
    return RU(f'BasisFunctionContributions {RT(D, p)} degrees {degs}', 'BasisFunctionContributions', RT(D, p), [PTN(D)], lambda ex, c: (rspline(ex, D, p, 's', degs), [xpt(D)], ['this', 0]), post)
def darr(degs): return ArrV([I(d) for d in degs])
def cpt(p, nm): return z3.Real(nm) if p == 0 else ArrV([z3.Real(f'{nm}.{k}') for k in range(p)])
def ctor(D, p, degs):
    """(degrees, points, weights)"""
    n = len(idxs(degs)); pts = [cpt(p, f'q{i}') for i in range(n)]; ws = [z3.Real(f'w{i}') for i in range(n)]
    def setup(ex, c): return ex.uninit(ptype(RT(D, p))), [darr(degs), CVec(pts), CVec(ws)], [0, 1, 2]
    def post(ex, c, ret):
        v = c['this']
        if wfr(ex, v, 'constructed spline', degs):
            for i in range(n):
                same(ex, f'weight {i}', sp_cps(wfn(v))[i], ws[i]); same(ex, f'weighted control point {i}', sp_cps(wsp(v))[i], [ws[i] * x for x in comps(pts[i])])
    return RU(f'constructor(degrees, points, weights) {RT(D, p)} degrees {degs}', f'RationalBezierSpline', RT(D, p), [None, None, None], setup, post, pred=lambda f: len(f.params) == 3)
def ctor_poly(D, p, degs):
    def setup(ex, c): c['s'] = bspline(ex, D, p, 's', degs); return ex.uninit(ptype(RT(D, p))), [c['s']], [0]
    def post(ex, c, ret):
        v = c['this']
        if wfr(ex, v, 'constructed spline', degs):
            for i in range(len(idxs(degs))): same(ex, f'weight {i}', sp_cps(wfn(v))[i], [R(1)]); same(ex, f'control point {i}', sp_cps(wsp(v))[i], sp_cps(c['s'])[i])
    return RU(f'constructor(polynomial spline) {RT(D, p)} degrees {degs}', 'RationalBezierSpline', RT(D, p), [ST(D, p)], setup, post)
def ctor_two(D, p, degs):
    def setup(ex, c): c['s'] = bspline(ex, D, p, 's', degs); c['w'] = bspline(ex, D, 0, 'w', degs); return ex.uninit(ptype(RT(D, p))), [c['s'], c['w']], [0, 1]
    def post(ex, c, ret):
        v = c['this']
        if wfr(ex, v, 'constructed spline', degs):
            for i in range(len(idxs(degs))): same(ex, f'weight {i}', sp_cps(wfn(v))[i], sp_cps(c['w'])[i]); same(ex, f'weighted control point {i}', sp_cps(wsp(v))[i], sp_cps(c['s'])[i])
    return RU(f'constructor(weighted spline, weight function) {RT(D, p)} degrees {degs}', 'RationalBezierSpline', RT(D, p), [ST(D, p), ST(D, 0)], setup, post)
def cpacc(D, p, degs, i, form):
    idx = idxs(degs)[i]
    def setup(ex, c): c['s'] = rspline(ex, D, p, 's', degs); return c['s'], ([darr(idx)] if form == 'arr' else [I(k) for k in idx]), ['this']
    def post(ex, c, ret): same(ex, 'projected control point', ret, [x / sp_cps(wfn(c['s']))[i] for x in comps(sp_cps(wsp(c['s']))[i])])
    return RU(f'ControlPoint {form} {RT(D, p)} degrees {degs} index {idx}', 'ControlPoint', RT(D, p), [ARR(D)] if form == 'arr' else [None] * D, setup, post, pred=None if form == 'arr' else (lambda f: ptype(C.ptypes(f)[0])[0] == 'int'))
UNITS = []
for D in DEG:
    for p in PD[D]:
        for degs in DEG[D]:
            UNITS += [ev('Evaluate', D, p, degs, 'pt'), ev('ForwardEvaluate', D, p, degs, 'pt'), basis('BasisFunctions', D, p, degs, 'pt'), basis('UnweightedBasisFunctions', D, p, degs, 'pt'), contrib(D, p, degs), ctor(D, p, degs), ctor_poly(D, p, degs), ctor_two(D, p, degs)]
            n = len(idxs(degs))
            if n > 1: UNITS += [cpacc(D, p, degs, i, form) for i in sorted({0, 1, n - 1}) for form in ('arr', 'sc')]
        for degs in DEG[D][1:3]: UNITS += [ev('Evaluate', D, p, degs, 'sc'), ev('ForwardEvaluate', D, p, degs, 'sc'), basis('BasisFunctions', D, p, degs, 'sc'), basis('UnweightedBasisFunctions', D, p, degs, 'sc')]
from specs import g14
UNITS += g14.UNITS + g14.CTORS
LEAN = ['forward_ps', 'rational_basis_sum', 'rational_basis_point', 'rational_unweighted_point']
LEVEL = 'proof'
ASSUME = ['degrees below MAX_BINOMIAL_DEGREE = 30 for the basis-function routes (the documented limit of the binomial table); no limit for Evaluate', 'contracts of the polynomial Evaluate, BasisFunctions and BasisFunctionContributions, proved in C05']
BOUNDED = ['additionally, as refuting obligations: degrees 1-D 0..5, 2-D 0..2 each and (3,1), 3-D four tuples; weights (non-zero, any sign), control points and position symbolic, weight function non-zero at the position']
EXPLAIN = 'units "every degree": Evaluate and ForwardEvaluate are the quotient of numerator and weight value, UnweightedBasisFunctions the polynomial basis over the weight value, BasisFunctions these times the weights, for all degrees (loop invariants, SMT, over the contracts of the polynomial evaluation); Lean rational_basis_sum, rational_basis_point, rational_unweighted_point: they sum to one and combine with the control points to the value; constructors: weights and weighted points as given, any number of points'
