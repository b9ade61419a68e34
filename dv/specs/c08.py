"""Splitting of polynomial splines (bounded in degrees and number of planes; planes, control points, position symbolic)."""
from specs.bnd import *
DEG = {1: [(n,) for n in range(0, 7)], 2: [(0, 2), (1, 1), (2, 1), (1, 3), (3, 2), (2, 2)], 3: [(0, 1, 2), (1, 2, 1), (2, 1, 1)]}
PD = {1: [0, 2], 2: [0, 2], 3: [0, 3]}
def reparam(xs, k, a, b): return [a + (b - a) * x if d == k else x for d, x in enumerate(xs)]
def parts_post(ex, ret, degs, s, xs, k, bounds):
    n = len(bounds) - 1
    ex.oblige('one spline per sub-interval', as_int(ret.len) == n, 'post')
    for i, r in enumerate(ret.e[:n]):
        if wfb(ex, r, f'part {i}', degs): same(ex, f'part {i} reproduces the original on its sub-interval', evspec(degs, sp_cps(r), xs), evspec(degs, sp_cps(s), reparam(xs, k, bounds[i], bounds[i + 1])))
def split1(D, p, degs, k, scalar=True):
    xs = xi(D); t = z3.Real('t')
    def setup(ex, c):
        ex.assume([t > 0, t < 1]); c['s'] = bspline(ex, D, p, 's', degs); return c['s'], [t, I(k)], ['this', 0, 1]
    return BU(f'SplitAtPosition {ST(D, p)} degrees {degs} dimension {k}', 'SplitAtPosition', ST(D, p), ['double', SZ], setup, lambda ex, c, ret: parts_post(ex, ret, degs, c['s'], xs, k, [R(0), t, R(1)]))
def splitn(D, p, degs, k, n):
    xs = xi(D); ts = [z3.Real(f't{i}') for i in range(n)]
    def setup(ex, c):
        b = [R(0)] + ts + [R(1)]
        ex.assume([a < z for a, z in zip(b, b[1:])]); c['s'] = bspline(ex, D, p, 's', degs); return c['s'], [CVec(list(ts)), I(k)], ['this', 0, 1]
    return BU(f'SplitAtPosition({n} planes) {ST(D, p)} degrees {degs} dimension {k}', 'SplitAtPosition', ST(D, p), ['vector<double>', SZ], setup, lambda ex, c, ret: parts_post(ex, ret, degs, c['s'], xs, k, [R(0)] + ts + [R(1)]), pred=None)
def reject1(D, p, degs, k):
    t = z3.Real('t')
    def setup(ex, c):
        ex.assume(z3.Or(t <= 0, t >= 1)); return bspline(ex, D, p, 's', degs), [t, I(k)], []
    return BU(f'SplitAtPosition {ST(D, p)} degrees {degs} dimension {k} outside (0,1)', 'SplitAtPosition', ST(D, p), ['double', SZ], setup, None, throws=True)
def rejectn(D, p, degs, k, n):
    ts = [z3.Real(f't{i}') for i in range(n)]
    def setup(ex, c):
        b = [R(0)] + ts + [R(1)]
        ex.assume(z3.Or([z3.Not(a < z) for a, z in zip(b, b[1:])])); return bspline(ex, D, p, 's', degs), [CVec(list(ts)), I(k)], []
    return BU(f'SplitAtPosition({n} planes) {ST(D, p)} degrees {degs} dimension {k} not increasing or outside', 'SplitAtPosition', ST(D, p), ['vector<double>', SZ], setup, None, throws=True)
UNITS = []
for D in DEG:
    for p in PD[D]:
        for degs in DEG[D]:
            for k in range(D):
                UNITS.append(split1(D, p, degs, k))
                if p == PD[D][-1]: UNITS += [splitn(D, p, degs, k, n) for n in ((0, 1, 2, 3) if sum(degs) < 4 else (0, 1, 2))]
        for k in range(D):
            UNITS.append(reject1(D, p, DEG[D][1], k))
            if p: UNITS += [rejectn(D, p, DEG[D][1], k, n) for n in (1, 2, 3)]
def dflt(D, p, degs, planes):
    """the splitting dimension omitted: the first one"""
    xs = xi(D); t = z3.Real('t')
    def setup(ex, c): ex.assume([t > 0, t < 1]); c['s'] = bspline(ex, D, p, 's', degs); return c['s'], [CVec([t]) if planes else t], ['this', 0]
    return BU(f'SplitAtPosition({"one plane" if planes else "position"}) {ST(D, p)} degrees {degs}, dimension omitted', 'SplitAtPosition', ST(D, p), ['vector<double>' if planes else 'double', SZ], setup, lambda ex, c, ret: parts_post(ex, ret, degs, c['s'], xs, 0, [R(0), t, R(1)]))
UNITS += [dflt(D, p, degs, f) for D, p, degs in ((1, 2, (2,)), (2, 2, (2, 1)), (3, 0, (1, 1, 1))) for f in (False, True)]
from specs import g08
UNITS += g08.UNITS
LEAN = ['split_left_rows', 'split_right_rows']
LEVEL = 'proof'
BOUNDED = ['additionally, as refuting obligations: degrees 1-D 0..6, 2-D six pairs, 3-D three tuples, every dimension; up to three planes; control points, planes and position symbolic']
EXPLAIN = 'units "every degree": both parts are the edges of the de Casteljau triangle for all degrees, strides, groups and planes (loop invariants, SMT); Lean split_left_rows/split_right_rows: these define the function on the sub-intervals; units "number of planes": the list version by the contract of the single split'
