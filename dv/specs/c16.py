"""Arithmetic of rational splines (bounded in the degrees)."""
from specs.rtl import *
from specs.c09 import vadd, vsub, vneg, pt
from specs.c10 import vmul
PAIRS = {1: [((a,), (b,)) for a in range(0, 3) for b in range(0, 3)] + [((3,), (1,))], 2: [((0, 0), (0, 0)), ((1, 1), (1, 1)), ((1, 0), (0, 1)), ((1, 1), (0, 1)), ((2, 0), (1, 1))], 3: [((1, 0, 1), (1, 0, 1)), ((0, 1, 0), (1, 0, 0)), ((1, 0, 1), (0, 1, 0))]}
PD = {1: [0, 2], 2: [0, 2], 3: [0, 3]}
F = {'+': vadd, '-': vsub, '*': vmul}
def binary(op, D, p, q, da, db, wts):
    """wts: 'diff' independent weights, 'same' one weight function, 'poly' right operand is a polynomial spline converted, 'polyl' left"""
    xs = xi(D); inplace = op.endswith('=')
    def setup(ex, c):
        one = lambda d: RecV(bspline(ex, D, 0, 'u', d).t, dict(bspline(ex, D, 0, 'u', d).f, control_points=CVec([R(1)] * len(idxs(d)))))
        c['a'] = rspline(ex, D, p, 'a', da, one(da) if wts == 'polyl' else None)
        c['b'] = rspline(ex, D, q, 'b', db, wfn(c['a']) if wts == 'same' else one(db) if wts == 'poly' else None)
        ex.assume([den(c['a'], xs) != 0, den(c['b'], xs) != 0])
        return c['a'], [c['b']], [0] if inplace else ['this', 0]
    def post(ex, c, ret):
        if inplace: ret_this(ex, c)
        chkr(ex, c['this'] if inplace else ret, None, xs, F[op[0]](rat(c['a'], xs), rat(c['b'], xs)))
    return RU(f'{RT(D, p)} degrees {da} {op} {RT(D, q)} degrees {db} weights {wts}', 'operator' + op, RT(D, p), [RT(D, q)], setup, post)
def selfop(op, D, p, da):
    xs = xi(D); inplace = op.endswith('=')
    def setup(ex, c): c['a'] = rspline(ex, D, p, 'a', da); ex.assume(den(c['a'], xs) != 0); return c['a'], [('this', ())], [] if inplace else ['this']
    def post(ex, c, ret): chkr(ex, c['this'] if inplace else ret, None, xs, F[op[0]](rat(c['a'], xs), rat(c['a'], xs)))
    return RU(f'{RT(D, p)} degrees {da} {op} itself', 'operator' + op, RT(D, p), [RT(D, p)], setup, post)
def neg(D, p, da):
    xs = xi(D)
    def setup(ex, c): c['a'] = rspline(ex, D, p, 'a', da); ex.assume(den(c['a'], xs) != 0); return c['a'], [], ['this']
    return RU(f'unary minus {RT(D, p)} degrees {da}', 'operator-', RT(D, p), [], setup, lambda ex, c, ret: chkr(ex, ret, da, xs, vneg(rat(c['a'], xs))))
def scale(op, D, p, da):
    xs = xi(D); t = z3.Real('t'); inplace = op == '*='
    def setup(ex, c): c['a'] = rspline(ex, D, p, 'a', da); ex.assume(den(c['a'], xs) != 0); return c['a'], [t], [0] if inplace else ['this', 0]
    def post(ex, c, ret):
        if inplace: ret_this(ex, c)
        chkr(ex, c['this'] if inplace else ret, da, xs, [t * v for v in rat(c['a'], xs)])
    return RU(f'{RT(D, p)} degrees {da} {op} scalar', 'operator' + op, RT(D, p), ['double'], setup, post)
def scale_left(D, p, da):
    xs = xi(D); t = z3.Real('t')
    def setup(ex, c): c['a'] = rspline(ex, D, p, 'a', da); ex.assume(den(c['a'], xs) != 0); return None, [t, c['a']], [0, 1]
    return RU(f'scalar * {RT(D, p)} degrees {da}', 'operator*', None, ['double', RT(D, p)], setup, lambda ex, c, ret: chkr(ex, ret, da, xs, [t * v for v in rat(c['a'], xs)]), free=True)
def shift(op, D, p, da):
    xs = xi(D); inplace = op.endswith('=')
    def setup(ex, c): c['a'] = rspline(ex, D, p, 'a', da); c['v'] = pt(p); ex.assume(den(c['a'], xs) != 0); return c['a'], [c['v']], [0] if inplace else ['this', 0]
    def post(ex, c, ret):
        if inplace: ret_this(ex, c)
        chkr(ex, c['this'] if inplace else ret, da, xs, F[op[0]](rat(c['a'], xs), comps(c['v'])))
    return RU(f'{RT(D, p)} degrees {da} {op} point', 'operator' + op, RT(D, p), [PTN(p)], setup, post)
def shift_left(D, p, da):
    xs = xi(D)
    def setup(ex, c): c['a'] = rspline(ex, D, p, 'a', da); c['v'] = pt(p); ex.assume(den(c['a'], xs) != 0); return None, [c['v'], c['a']], [0, 1]
    return RU(f'point + {RT(D, p)} degrees {da}', 'operator+', None, [PTN(p), RT(D, p)], setup, lambda ex, c, ret: chkr(ex, ret, da, xs, vadd(comps(c['v']), rat(c['a'], xs))), free=True)
def alias(op, D, p, da, j):
    """the argument is one of the spline's own weighted control points"""
    xs = xi(D)
    def setup(ex, c): c['a'] = rspline(ex, D, p, 'a', da); ex.assume(den(c['a'], xs) != 0); return c['a'], [('this', (('f', 'weighted_spline_'), ('f', 'control_points'), ('i', j)))], []
    def post(ex, c, ret):
        v = comps(sp_cps(wsp(c['a']))[j]); a = rat(c['a'], xs)
        chkr(ex, c['this'], da, xs, [x * v[0] for x in a] if op[0] == '*' else F[op[0]](a, v))
    return RU(f'{RT(D, p)} degrees {da} {op} its own weighted control point {j}', 'operator' + op, RT(D, p), [PTN(p)], setup, post)
UNITS = []
for D in PAIRS:
    for p in PD[D]:
        for da, db in PAIRS[D]:
            ws = ['diff', 'poly', 'polyl'] + (['same'] if da == db else [])
            for w in ws:
                UNITS += [binary(op, D, p, p, da, db, w) for op in ('+', '-', '+=', '-=', '*')]
                if p: UNITS += [binary('*', D, 0, p, da, db, w), binary('*', D, p, 0, da, db, w)]
        for da in sorted({a for a, _ in PAIRS[D]}):
            UNITS += [selfop(op, D, p, da) for op in ('+', '-', '+=', '-=', '*')] + [neg(D, p, da), scale('*', D, p, da), scale('*=', D, p, da), scale_left(D, p, da)]
            UNITS += [shift(op, D, p, da) for op in ('+', '-', '+=', '-=')] + [shift_left(D, p, da)]
            n = len(idxs(da))
            for j in sorted({0, n - 1}): UNITS += [alias(op, D, p, da, j) for op in (('+=', '-=', '*=') if p == 0 else ('+=', '-='))]
from specs import g16
UNITS += g16.UNITS
LEAN = ['elevate', 'ev_linear', 'ev_congr', 'ev_smul', 'prod1', 'prod2', 'prod3', 'prod_ev']
LEVEL = 'proof'
BOUNDED = ['additionally, as refuting obligations: degrees 1-D every pair 0..2 and (3,1), 2-D five pairs, 3-D three pairs; weights (equal, different, all one), control points, scalars, shifts and positions symbolic']
ASSUME = ['sums of the operand degrees below MAX_BINOMIAL_DEGREE = 30 per dimension where two splines are combined (the documented limit of the binomial table)', 'contracts of the polynomial +, -, *, ==, scaling and negation on splines, proved in C09, C10 and C21']
EXPLAIN = 'units "every degree": the value of the result (numerator and weight function at the position) is the ratio of the operand values combined, from the contracts of the polynomial operations (C09, C10), on both paths (equal weight functions and common denominator), in place and not, operands aliasing the spline itself or its own weight included; the operands of the non-assigning forms are unchanged'
