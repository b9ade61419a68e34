"""Order elevation and splitting of rational splines (bounded in the degrees)."""
from specs.rtl import *
from specs.c08 import reparam
DEG = {1: [(n,) for n in range(0, 5)], 2: [(0, 2), (1, 1), (2, 1), (1, 3), (2, 2)], 3: [(0, 1, 2), (1, 2, 1), (2, 1, 1)]}
PD = {1: [0, 2], 2: [0, 2], 3: [0, 3]}
def elev(D, p, degs, k):
    xs = xi(D)
    def setup(ex, c): c['s'] = rspline(ex, D, p, 's', degs); ex.assume(den(c['s'], xs) != 0); return c['s'], [I(k)], []
    def post(ex, c, ret): ret_this(ex, c); chkr(ex, c['this'], [n + (d == k) for d, n in enumerate(degs)], xs, rat(c['s'], xs), 'elevated spline')
    return RU(f'OrderElevate {RT(D, p)} degrees {degs} dimension {k}', 'OrderElevateAlongParametricDimension', RT(D, p), [SZ], setup, post)
def parts(ex, ret, degs, s, xs, k, b):
    n = len(b) - 1
    ex.oblige('one spline per sub-interval', as_int(ret.len) == n, 'post')
    for i, r in enumerate(ret.e[:n]):
        y = reparam(xs, k, b[i], b[i + 1])
        chkr(ex, r, degs, xs, rat(s, y), f'part {i}')
def split1(D, p, degs, k):
    xs = xi(D); t = z3.Real('t')
    def setup(ex, c): ex.assume([t > 0, t < 1]); c['s'] = rspline(ex, D, p, 's', degs); return c['s'], [t, I(k)], ['this', 0, 1]
    return RU(f'SplitAtPosition {RT(D, p)} degrees {degs} dimension {k}', 'SplitAtPosition', RT(D, p), ['double', SZ], setup, lambda ex, c, ret: parts(ex, ret, degs, c['s'], xs, k, [R(0), t, R(1)]))
def splitn(D, p, degs, k, n):
    xs = xi(D); ts = [z3.Real(f't{i}') for i in range(n)]
    def setup(ex, c):
        b = [R(0)] + ts + [R(1)]; ex.assume([a < z for a, z in zip(b, b[1:])]); c['s'] = rspline(ex, D, p, 's', degs); return c['s'], [CVec(list(ts)), I(k)], ['this', 0, 1]
    return RU(f'SplitAtPosition({n} planes) {RT(D, p)} degrees {degs} dimension {k}', 'SplitAtPosition', RT(D, p), ['vector<double>', SZ], setup, lambda ex, c, ret: parts(ex, ret, degs, c['s'], xs, k, [R(0)] + ts + [R(1)]))
def reject1(D, p, degs, k):
    t = z3.Real('t')
    def setup(ex, c): ex.assume(z3.Or(t <= 0, t >= 1)); return rspline(ex, D, p, 's', degs), [t, I(k)], []
    return RU(f'SplitAtPosition {RT(D, p)} degrees {degs} dimension {k} outside (0,1)', 'SplitAtPosition', RT(D, p), ['double', SZ], setup, None, throws=True)
def rejectn(D, p, degs, k, n):
    ts = [z3.Real(f't{i}') for i in range(n)]
    def setup(ex, c):
        b = [R(0)] + ts + [R(1)]; ex.assume(z3.Or([z3.Not(a < z) for a, z in zip(b, b[1:])])); return rspline(ex, D, p, 's', degs), [CVec(list(ts)), I(k)], []
    return RU(f'SplitAtPosition({n} planes) {RT(D, p)} degrees {degs} dimension {k} not increasing or outside', 'SplitAtPosition', RT(D, p), ['vector<double>', SZ], setup, None, throws=True)
UNITS = []
for D in DEG:
    for p in PD[D]:
        for degs in DEG[D]:
            for k in range(D):
                UNITS += [elev(D, p, degs, k), split1(D, p, degs, k)]
                if p == PD[D][-1]: UNITS += [splitn(D, p, degs, k, n) for n in ((0, 1, 2, 3) if sum(degs) < 3 else (0, 1, 2) if sum(degs) < 4 else (0, 1))]
        for k in range(D):
            UNITS.append(reject1(D, p, DEG[D][1], k))
            if p: UNITS += [rejectn(D, p, DEG[D][1], k, n) for n in (1, 2, 3)]
def dflt(D, p, degs, planes):
    """the splitting dimension omitted: the first one"""
    xs = xi(D); t = z3.Real('t')
    def setup(ex, c): ex.assume([t > 0, t < 1]); c['s'] = rspline(ex, D, p, 's', degs); return c['s'], [CVec([t]) if planes else t], ['this', 0]
    return RU(f'SplitAtPosition({"one plane" if planes else "position"}) {RT(D, p)} degrees {degs}, dimension omitted', 'SplitAtPosition', RT(D, p), ['vector<double>' if planes else 'double', SZ], setup, lambda ex, c, ret: parts(ex, ret, degs, c['s'], xs, 0, [R(0), t, R(1)]))
UNITS += [dflt(D, p, degs, f) for D, p, degs in ((1, 2, (2,)), (2, 2, (2, 1)), (3, 0, (1, 1, 1))) for f in (False, True)]
from specs import g17
UNITS += g17.UNITS
LEAN = ['elevate', 'split_left_rows', 'split_right_rows']
LEVEL = 'proof'
BOUNDED = ['additionally, as refuting obligations: degrees 1-D 0..4, 2-D five pairs, 3-D three tuples, every dimension; up to three planes; weights, control points, planes and position symbolic']
ASSUME = ['contracts of the polynomial elevation and split, proved in C07 and C08']
EXPLAIN = 'units "every degree": numerator and weight function are refined in parallel by the contracts of the polynomial elevation (C07) and split (C08), degrees stay equal, the values agree at every position; units "number of planes": the list version by the contract of the single split, any number of planes (loop invariant)'
