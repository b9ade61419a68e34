"""Corners, unit-cube test, per-axis transforms (bounded in the degrees)."""
from specs.rtl import *
DEG = {1: [(0,), (1,), (2,), (4,)], 2: [(0, 0), (1, 0), (1, 1), (2, 1)], 3: [(0, 1, 0), (1, 1, 1)]}
PD = {1: [0, 2], 2: [0, 2], 3: [3]}
def mkpol(ex, D, p, degs): return bspline(ex, D, p, 's', degs)
def polpts(v): return [comps(q) for q in sp_cps(v)]
def ratpts(v): return [[x / w for x in comps(q)] for q, w in zip(sp_cps(wsp(v)), sp_cps(wfn(v)))]
def kind(rat):
    return (RT, lambda ex, D, p, degs: rspline(ex, D, p, 's', degs), ratpts, 'rat.cpp') if rat else (ST, mkpol, polpts, 'poly.cpp')
def corner(rat, which, D, p, degs):
    T, mk, pts, tu = kind(rat)
    def setup(ex, c): c['s'] = mk(ex, D, p, degs); return c['s'], [], ['this']
    def post(ex, c, ret):
        r = comps(ret); q = pts(c['s'])
        for k in range(len(r)):
            ex.oblige(f'component {k} bounds every control point', z3.And([(r[k] >= v[k]) if which == 'Maximum' else (r[k] <= v[k]) for v in q]), 'post')
            ex.oblige(f'component {k} is attained', z3.Or([r[k] == v[k] for v in q]), 'post')
    return BU(f'{which}Corner {T(D, p)} degrees {degs}', which + 'Corner', T(D, p), [], setup, post, tu=tu)
def cube(rat, D, p, degs):
    T, mk, pts, tu = kind(rat)
    def setup(ex, c): c['s'] = mk(ex, D, p, degs); return c['s'], [], ['this']
    def post(ex, c, ret): ex.oblige('true exactly when every component of every control point lies in [0,1]', ret == z3.And([z3.And(x >= 0, x <= 1) for v in pts(c['s']) for x in v]), 'post')
    return BU(f'FitsIntoUnitCube {T(D, p)} degrees {degs}', 'FitsIntoUnitCube', T(D, p), [], setup, post, tu=tu)
class CornerContract:
    """contract of Minimum/MaximumCorner (proved by the corner units): bounds every control point and is attained"""
    def match(s, f): return f.name in ('MaximumCorner', 'MinimumCorner')
    def apply(s, ex, fn, this, args):
        v = ex.read(this); q = polpts(v) if 'control_points' in v.f else ratpts(v)
        r = []
        memo = ex.__dict__.setdefault('corner_memo', {})
        for k in range(len(q[0])):
            m = fresh(z3.RealSort(), fn.name)
            for w in q: ex.assume(m >= w[k] if fn.name[1] == 'a' else m <= w[k])
            ex.assume(z3.Or([m == w[k] for w in q]))
            r.append(m)
        return r[0] if len(r) == 1 and isleaf(sp_cps(v if 'control_points' in v.f else wsp(v))[0]) else ArrV(r)
def fit(D, p, degs):
    """every axis assumed non-degenerate"""
    def setup(ex, c):
        c['s'] = bspline(ex, D, p, 's', degs); q = polpts(c['s'])
        for k in range(len(q[0])):
            for a in ('lo', 'hi'):
                m = z3.Real(f'{a}{k}'); c[a, k] = m
                ex.assume([(m <= v[k] if a == 'lo' else m >= v[k]) for v in q]); ex.assume(z3.Or([m == v[k] for v in q]))
            ex.assume(c['lo', k] < c['hi', k])
        return c['s'], [], []
    def post(ex, c, ret):
        ret_this(ex, c); q = polpts(c['s']); r = c['this']
        if not wfb(ex, r, 'result', degs): return
        n = polpts(r)
        for k in range(len(q[0])):
            lo, hi = c['lo', k], c['hi', k]
            for i in range(len(q)): ex.oblige(f'axis {k} control point {i}: affine map of [min,max] onto [0,1]', n[i][k] * (hi - lo) == q[i][k] - lo, 'post')
    u = BU(f'FitIntoUnitCube {ST(D, p)} degrees {degs}', 'FitIntoUnitCube', ST(D, p), [], setup, post)
    u.contracts = [CornerContract()]
    return u
def transp(D, p, degs, alias=None):
    """alias: both arguments are the spline's own control points"""
    def setup(ex, c):
        c['s'] = bspline(ex, D, p, 's', degs)
        if alias is None:
            c['a'], c['b'] = [z3.Real('a') if p == 0 else ArrV([z3.Real(f'a{k}') for k in range(p)]), z3.Real('b') if p == 0 else ArrV([z3.Real(f'b{k}') for k in range(p)])]
            return c['s'], [c['a'], c['b']], [0, 1]
        c['a'], c['b'] = sp_cps(c['s'])[alias[0]], sp_cps(c['s'])[alias[1]]
        return c['s'], [('this', (('f', 'control_points'), ('i', alias[0]))), ('this', (('f', 'control_points'), ('i', alias[1])))], []
    def post(ex, c, ret):
        ret_this(ex, c); r = c['this']
        if wfb(ex, r, 'result', degs):
            for i, (o, q) in enumerate(zip(sp_cps(c['s']), sp_cps(r))): same(ex, f'control point {i}: (value + shift) * scale', q, [(x + a) * b for x, a, b in zip(comps(o), comps(c['a']), comps(c['b']))])
    return BU(f'TransposeAndScale {ST(D, p)} degrees {degs}' + (f' with its own control points {alias}' if alias else ''), 'TransposeAndScale', ST(D, p), [PTN(p), PTN(p)], setup, post)
def extract(rat, D, p, degs, k):
    T, mk, pts, tu = kind(rat)
    def setup(ex, c): c['s'] = mk(ex, D, p, degs); return c['s'], [I(k)], ['this', 0]
    def post(ex, c, ret):
        s = wsp(c['s']) if rat else c['s']
        if wfb(ex, ret, 'extracted spline', degs):
            for i, (o, q) in enumerate(zip(sp_cps(s), sp_cps(ret))): same(ex, f'control point {i}', q, [comps(o)[k]])
    return BU(f'ExtractDimension {T(D, p)} degrees {degs} component {k}', 'ExtractDimension', T(D, p), [SZ], setup, post, tu=tu)
def extract_bad(D, p, degs):
    def setup(ex, c): k = z3.Int('k'); ex.assume(k >= max(p, 1)); return bspline(ex, D, p, 's', degs), [k], []
    return BU(f'ExtractDimension {ST(D, p)} component out of range', 'ExtractDimension', ST(D, p), [SZ], setup, None, throws=True)
UNITS = []
for D in DEG:
    for p in PD[D]:
        for degs in DEG[D]:
            n = len(idxs(degs))
            for r in (False, True):
                UNITS += [corner(r, w, D, p, degs) for w in ('Maximum', 'Minimum')]
                if n <= 6 and not (r and n > 4): UNITS.append(cube(r, D, p, degs))
                UNITS += [extract(r, D, p, degs, k) for k in range(max(p, 1))]
            if n > 1: UNITS.append(fit(D, p, degs))
            UNITS += [transp(D, p, degs)] + ([transp(D, p, degs, a) for a in [(0, 0), (0, n - 1), (n - 1, 0)]] if n > 1 else [])
        UNITS.append(extract_bad(D, p, DEG[D][0]))
from specs import g11
UNITS += g11.UNITS
LEVEL = 'proof'
BOUNDED = ['additionally, as refuting obligations: 1-D degree 0,1,2,4, 2-D up to (2,1), 3-D (0,1,0) and (1,1,1); control points, weights (non-zero), shifts and scales symbolic']
EXPLAIN = 'units "every degree": loop invariants over all control points (bound and ghost witness of attainment for the corners, map summaries for the transforms, SMT), the cube test and the fit by the contract of the corners; the arguments of transpose-and-scale may be control points of the spline itself'
