"""Pointwise linear arithmetic on polynomial splines (bounded in the degrees)."""
from specs.bnd import *
PAIRS = {1: [((a,), (b,)) for a in range(0, 5) for b in range(0, 5)] + [((7,), (2,)), ((1,), (6,))],
         2: [((0, 0), (0, 0)), ((1, 2), (1, 2)), ((1, 2), (2, 1)), ((0, 3), (2, 1)), ((2, 2), (1, 0)), ((1, 0), (3, 2)), ((3, 1), (3, 2))],
         3: [((1, 0, 2), (1, 0, 2)), ((1, 2, 0), (0, 1, 1)), ((0, 1, 1), (2, 1, 0)), ((1, 1, 1), (1, 1, 2)), ((2, 1, 1), (1, 0, 1))]}
PD = {1: [0, 2], 2: [0, 2], 3: [0, 3]}
def vadd(a, b): return [x + y for x, y in zip(a, b)]
def vsub(a, b): return [x - y for x, y in zip(a, b)]
def vneg(a): return [-x for x in a]
def at(s, xs): return evspec(sp_degs(s), sp_cps(s), xs)
def chk(ex, r, degs, xs, exp, nm):
    if wfb(ex, r, nm, degs): same(ex, 'value at every position', at(r, xs), exp)
def binary(op, D, p, da, db):
    """a + b, a - b, a += b, a -= b"""
    xs = xi(D); inplace = op.endswith('=')
    def setup(ex, c):
        c['a'] = bspline(ex, D, p, 'a', da); c['b'] = bspline(ex, D, p, 'b', db)
        return c['a'], [c['b']], [0] if inplace else ['this', 0]
    def post(ex, c, ret):
        f = vadd if op[0] == '+' else vsub
        if inplace: ret_this(ex, c)
        chk(ex, c['this'] if inplace else ret, [max(x, y) for x, y in zip(da, db)], xs, f(at(c['a'], xs), at(c['b'], xs)), 'result')
    return BU(f'operator{op} {ST(D, p)} degrees {da} and {db}', 'operator' + op, ST(D, p), [ST(D, p)], setup, post)
def selfop(op, D, p, da):
    """s += s, s -= s"""
    xs = xi(D)
    def setup(ex, c): c['a'] = bspline(ex, D, p, 'a', da); return c['a'], [('this', ())], []
    def post(ex, c, ret):
        f = vadd if op[0] == '+' else vsub
        chk(ex, c['this'], da, xs, f(at(c['a'], xs), at(c['a'], xs)), 'result')
    return BU(f'operator{op} {ST(D, p)} degrees {da} with itself', 'operator' + op, ST(D, p), [ST(D, p)], setup, post)
def neg(D, p, da):
    xs = xi(D)
    def setup(ex, c): c['a'] = bspline(ex, D, p, 'a', da); return c['a'], [], ['this']
    return BU(f'unary minus {ST(D, p)} degrees {da}', 'operator-', ST(D, p), [], setup, lambda ex, c, ret: chk(ex, ret, da, xs, vneg(at(c['a'], xs)), 'result'))
def scale(op, D, p, da):
    xs = xi(D); t = z3.Real('t'); inplace = op == '*='
    def setup(ex, c): c['a'] = bspline(ex, D, p, 'a', da); return c['a'], [t], [0] if inplace else ['this', 0]
    def post(ex, c, ret):
        if inplace: ret_this(ex, c)
        chk(ex, c['this'] if inplace else ret, da, xs, [t * v for v in at(c['a'], xs)], 'result')
    return BU(f'operator{op} scalar {ST(D, p)} degrees {da}', 'operator' + op, ST(D, p), ['double'], setup, post)
def scale_left(D, p, da):
    xs = xi(D); t = z3.Real('t')
    def setup(ex, c): c['a'] = bspline(ex, D, p, 'a', da); return None, [t, c['a']], [0, 1]
    return BU(f'scalar * {ST(D, p)} degrees {da}', 'operator*', None, ['double', ST(D, p)], setup, lambda ex, c, ret: chk(ex, ret, da, xs, [t * v for v in at(c['a'], xs)], 'result'), free=True)
def pt(p): return z3.Real('v') if p == 0 else ArrV([z3.Real(f'v{k}') for k in range(p)])
def shift(op, D, p, da):
    xs = xi(D); inplace = op.endswith('=')
    def setup(ex, c): c['a'] = bspline(ex, D, p, 'a', da); c['v'] = pt(p); return c['a'], [c['v']], [0] if inplace else ['this', 0]
    def post(ex, c, ret):
        f = vadd if op[0] == '+' else vsub
        if inplace: ret_this(ex, c)
        chk(ex, c['this'] if inplace else ret, da, xs, f(at(c['a'], xs), comps(c['v'])), 'result')
    return BU(f'operator{op} point {ST(D, p)} degrees {da}', 'operator' + op, ST(D, p), [PTN(p)], setup, post)
def shift_left(op, D, p, da):
    xs = xi(D)
    def setup(ex, c): c['a'] = bspline(ex, D, p, 'a', da); c['v'] = pt(p); return None, [c['v'], c['a']], [0, 1]
    def post(ex, c, ret):
        f = vadd if op[0] == '+' else vsub
        chk(ex, ret, da, xs, f(comps(c['v']), at(c['a'], xs)), 'result')
    return BU(f'point {op} {ST(D, p)} degrees {da}', 'operator' + op, None, [PTN(p), ST(D, p)], setup, post, free=True)
def alias(op, D, p, da, j):
    """the argument is one of the spline's own control points (for *= : scalar splines)"""
    xs = xi(D)
    def setup(ex, c): c['a'] = bspline(ex, D, p, 'a', da); return c['a'], [('this', (('f', 'control_points'), ('i', j)))], []
    def post(ex, c, ret):
        v = comps(sp_cps(c['a'])[j]); a = at(c['a'], xs)
        chk(ex, c['this'], da, xs, vadd(a, v) if op[0] == '+' else vsub(a, v) if op[0] == '-' else [x * v[0] for x in a], 'result')
    return BU(f'operator{op} {ST(D, p)} degrees {da} with its own control point {j}', 'operator' + op, ST(D, p), [PTN(p)], setup, post)
UNITS = []
for D in PAIRS:
    for p in PD[D]:
        for da, db in PAIRS[D]: UNITS += [binary(op, D, p, da, db) for op in ('+', '-', '+=', '-=')]
        for da in sorted({a for a, _ in PAIRS[D]}):
            UNITS += [selfop(op, D, p, da) for op in ('+=', '-=')] + [neg(D, p, da), scale('*', D, p, da), scale('*=', D, p, da), scale_left(D, p, da)]
            UNITS += [shift(op, D, p, da) for op in ('+', '-', '+=', '-=')] + [shift_left(op, D, p, da) for op in ('+', '-')]
            n = len(idxs(da))
            for j in sorted({0, n // 2, n - 1}): UNITS += [alias(op, D, p, da, j) for op in (('+=', '-=', '*=') if p == 0 else ('+=', '-='))]
from specs import g09
UNITS += g09.UNITS
LEAN = ['ev_linear', 'ev_const', 'ev_congr', 'elevate']
LEVEL = 'proof'
BOUNDED = ['additionally, as refuting obligations: degrees 1-D every pair 0..4 and two larger pairs, 2-D seven pairs of tuples, 3-D five pairs; control points, scalars, shift and position symbolic']
EXPLAIN = 'units "every degree" / "every pair of degrees": the control points are the affine combination for all degrees (the elevation loops by the contract of the elevation, C07; loop invariants and map summaries, SMT); Lean ev_linear: then so are the values; the argument may be one of the control points of the spline itself'
