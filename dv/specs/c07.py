"""Order elevation (bounded in the degrees)."""
from specs.bnd import *
DEG = {1: [(n,) for n in range(0, 10)], 2: [(a, b) for a in range(4) for b in range(4)], 3: [(0, 0, 0), (1, 0, 2), (2, 1, 1), (1, 2, 2), (0, 3, 1), (1, 1, 3), (2, 2, 2)]}
PD = {1: [0, 2], 2: [0, 2], 3: [0, 3]}
def elev(D, p, degs, k):
    xs = xi(D)
    def setup(ex, c):
        c['s'] = bspline(ex, D, p, 's', degs); return c['s'], [I(k)], []
    def post(ex, c, ret):
        r = c['this']; nd = [n + (d == k) for d, n in enumerate(degs)]
        ret_this(ex, c)
        if wfb(ex, r, 'elevated spline', nd): same(ex, 'same value at every position', evspec(nd, sp_cps(r), xs), evspec(degs, sp_cps(c['s']), xs))
    return BU(f'OrderElevate {ST(D, p)} degrees {degs} dimension {k}', 'OrderElevateAlongParametricDimension', ST(D, p), [SZ], setup, post)
UNITS = [elev(D, p, degs, k) for D in DEG for p in PD[D] for degs in DEG[D] for k in range(D)]
from specs import g07
UNITS += g07.UNITS
LEAN = ['elevate']
LEVEL = 'proof'
BOUNDED = ['additionally, as refuting obligations: degrees 1-D 0..9, 2-D 0..3 each, 3-D seven tuples, every elevated dimension; control points and position symbolic']
EXPLAIN = 'units "every degree": the elevated control points have the closed form for all degrees, strides and groups (loop invariants, SMT); theorem elevate (Lean): that closed form defines the same function'
