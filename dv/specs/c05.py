"""Evaluation of polynomial splines on all routes (bounded in the degrees; complete in control points and position)."""
from specs.bnd import *
DEG = {1: [(n,) for n in range(0, 9)], 2: [(a, b) for a in range(4) for b in range(4)], 3: [(0, 0, 0), (1, 0, 2), (2, 1, 1), (1, 2, 2), (0, 3, 1), (1, 1, 3)]}
PD = {1: [0, 2], 2: [0, 2], 3: [0, 3]}
def ev(fname, D, p, degs, form):
    """form: 'pt' one parametric point, 'sc' separate scalars"""
    xs = xi(D)
    def setup(ex, c):
        c['s'] = bspline(ex, D, p, 's', degs)
        return c['s'], ([xpt(D)] if form == 'pt' else list(xs)), ['this'] + list(range(1 if form == 'pt' else D))
    def post(ex, c, ret):
        same(ex, 'value = sum of Bernstein products times control points', ret, evspec(degs, sp_cps(c['s']), xs))
    return BU(f'{fname} {form} {ST(D, p)} degrees {degs}', fname, ST(D, p), [PTN(D)] if form == 'pt' else ['double'] * D, setup, post)
def basis(D, p, degs, form):
    xs = xi(D)
    def setup(ex, c):
        return bspline(ex, D, p, 's', degs), ([xpt(D)] if form == 'pt' else list(xs)), ['this'] + list(range(1 if form == 'pt' else D))
    def post(ex, c, ret):
        ii = idxs(degs)
        ex.oblige('one value per control point', as_int(ret.len) == len(ii), 'post')
        for v, i in zip(ret.e, ii): ex.oblige(f'basis function {i}', v == bernprod(degs, i, xs), 'post')
    return BU(f'BasisFunctions {form} {ST(D, p)} degrees {degs}', 'BasisFunctions', ST(D, p), [PTN(D)] if form == 'pt' else ['double'] * D, setup, post)
def contrib(D, p, degs):
    xs = xi(D)
    def setup(ex, c): return bspline(ex, D, p, 's', degs), [xpt(D)], ['this', 0]
    def post(ex, c, ret):
        for d in range(D):
            ex.oblige(f'dimension {d}: degree+1 values', as_int(ret.e[d].len) == degs[d] + 1, 'post')
            for i, v in enumerate(ret.e[d].e[:degs[d] + 1]): ex.oblige(f'dimension {d}: Bernstein value {i}', v == bern(degs[d], i, xs[d]), 'post')
    return BU(f'BasisFunctionContributions {ST(D, p)} degrees {degs}', 'BasisFunctionContributions', ST(D, p), [PTN(D)], setup, post)
UNITS = []
for D in DEG:
    for p in PD[D]:
        for degs in DEG[D]:
            UNITS += [ev('Evaluate', D, p, degs, 'pt'), ev('ForwardEvaluate', D, p, degs, 'pt'), basis(D, p, degs, 'pt'), contrib(D, p, degs)]
        for degs in DEG[D][1:3]:
            UNITS += [ev('Evaluate', D, p, degs, 'sc'), ev('ForwardEvaluate', D, p, degs, 'sc'), basis(D, p, degs, 'sc')]
from specs import g05
UNITS += g05.UNITS
LEAN = ['evaluate1', 'evaluate2', 'evaluate3', 'basis1', 'basis2', 'basis3', 'forward_ps', 'partial_sum']
LEVEL = 'proof'
ASSUME = ['degrees below MAX_BINOMIAL_DEGREE = 30 for the basis-function routes (the documented limit of the binomial table); no limit for Evaluate']
BOUNDED = ['additionally, as refuting obligations: degrees 1-D 0..8, 2-D 0..3 each, 3-D six tuples up to 3; every control point and position symbolic']
EXPLAIN = 'units "every degree": Evaluate computes the tip of the de Casteljau triangles direction by direction, BasisFunctions the products of the Bernstein values in storage order, ForwardEvaluate their sum with the control points, for all degrees (loop invariants, SMT); Lean evaluate1..3, basis1..3, forward_ps: these are the tensor Bernstein sum'
