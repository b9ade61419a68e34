"""Arithmetic of rational splines for every pair of degrees: common-denominator formulas over the contracts of the polynomial operations."""
from specs.gh import *
from specs.c01 import mk_rat
from specs import vl
from specs.g09 import valid, mx
from specs.g12 import Scale, ScaleC, Minus
from specs.g17 import PARTS, req, TY
from specs.g14 import xs_
A, W = PARTS
Z, RS = z3.IntSort(), z3.RealSort()
class Plus(Minus):
    """spline + spline"""
    fname = 'operator+'; proved = 'C09, units "operator+, every pair of degrees"'; sg = 1; inpl = False; const = True
    def go(s, ex, Dp, v, a, this, args):
        b = a[0]; wf(ex, v, 'left operand', 'pre'); wf(ex, b, 'right operand', 'pre')
        if b.t != v.t: raise Unsupported('operands of different types')
        dg = [x if z3.eq(simp(x), simp(y)) else mx(x, y) for x, y in zip(v.f['degrees'].e, b.f['degrees'].e)]
        r = vl.fresh_spline(ex, *Dp, dg, 'sum')
        for x, y, z in zip(vl.ev(r, s.xs), vl.ev(v, s.xs), vl.ev(b, s.xs)): ex.assume(x == y + s.sg * z)
        if s.inpl: ex.write(this, r); return this
        return r
class MinusC(Plus): 
    """spline - spline"""
    fname = 'operator-'; sg = -1; proved = 'C09, units "operator-, every pair of degrees"'
class PlusA(Plus):
    """+= spline"""
    fname = 'operator+='; const = None; inpl = True; proved = 'C09, units "operator+=, every pair of degrees"'
class MinusA(PlusA):
    """-= spline"""
    fname = 'operator-='; sg = -1; proved = 'C09, units "operator-=, every pair of degrees"'
class Neg(vl.VC):
    """unary minus"""
    fname = 'operator-'; pts = []; const = True; proved = 'C09, units "unary minus, every degree"'
    def __init__(s, xs): s.xs = xs
    def go(s, ex, Dp, v, a, this, args):
        wf(ex, v, 'operand', 'pre'); r = vl.fresh_spline(ex, *Dp, v.f['degrees'].e, 'negated')
        for x, y in zip(vl.ev(r, s.xs), vl.ev(v, s.xs)): ex.assume(x == -y)
        return r
class Eq(vl.VC):
    """operator==: the same degrees and control points; hence the same value (Lean ev_congr)"""
    fname = 'operator=='; const = True; proved = 'C16, units "operator==, every degree"'
    def __init__(s, xs): s.xs = xs
    def go(s, ex, Dp, v, a, this, args):
        b = a[0]
        if b.t != v.t: raise Unsupported('comparison of different types')
        dv, db = v.f['degrees'].e, b.f['degrees'].e
        if all(z3.eq(simp(x), simp(y)) for x, y in zip(dv + arrs(v), db + arrs(b))): return z3.BoolVal(True)
        from val import _ctr
        _ctr[0] += 1; e = z3.Bool(f'equal!{_ctr[0]}')
        ex.assume(z3.Implies(e, z3.And([x == y for x, y in zip(dv, db)] + [x == y for x, y in zip(vl.ev(v, s.xs), vl.ev(b, s.xs))])))
        return e
def equal(D, p):
    """operator== of polynomial splines"""
    st = {}; k = z3.Int('k')
    def setup(ex, s): a, b = st['a'], st['b'] = mk_spline(ex, D, p, 'a'), mk_spline(ex, D, p, 'b'); return a, [b]
    def post(ex, s, ret, th):
        r = ex.read(ret); a, b = st['a'], st['b']; dg = a.f['degrees'].e
        for d, (x, y) in enumerate(zip(dg, b.f['degrees'].e)): ex.oblige(f'equal only with equal degrees {d}', z3.Implies(r, x == y), 'post')
        same = z3.And([x == y for x, y in zip(dg, b.f['degrees'].e)])
        for c, (x, y) in enumerate(zip(arrs(a), arrs(b))): ex.oblige(f'equal only with equal control points, component {c}', z3.Implies(z3.And(r, 0 <= k, k < ncp(dg)), x[k] == y[k]), 'post')
        ex.oblige('the same spline is equal', z3.Implies(z3.And(same, *[x == y for x, y in zip(arrs(a), arrs(b))]), r), 'post')
        eq_spline(ex, 'operand unchanged', th, a, 'frame')
    t = ptype(spline_t(D, p))[1]
    return GU(f'operator== {name(D, p)}, every degree', 'operator==', D, p, None, 1, setup, post, const=True, pred=lambda f: (tname(ptype(C.ptypes(f)[0])) or '') == t)
def RT(D, p): return f'RationalBezierSpline<{D}, {PT(p)}, double>'
def norm(t): return (t or '').replace(' ', '')
def rpred(types):
    want = [norm(tname(ptype(t))) for t in types]
    def ok(f):
        try: return [norm(tname(ptype(t))) for t in C.ptypes(f)] == want
        except Exception: return False
    return ok
def contracts(xs): return [vl.Mul(xs), Plus(xs), MinusC(xs), PlusA(xs), MinusA(xs), Neg(xs), Scale(xs), ScaleC(xs), Eq(xs)]
def nd(v, xs): return vl.ev(v.f[A], xs), vl.ev(v.f[W], xs)[0]
def result(ex, s, st, r, want, xs):
    """r is a valid rational spline whose value is want = [(numerator, denominator)] per component, stated without division"""
    valid(ex, 'result, numerator', r.f[A], r.f[A].f['degrees'].e)
    for d, (x, y) in enumerate(zip(r.f[A].f['degrees'].e, r.f[W].f['degrees'].e)): ex.oblige(f'matching degree {d}', x == y, 'post')
    wf(ex, r.f[W], 'result, weight function')
    n, w = nd(r, xs)
    ex.oblige('weight function of the result does not vanish', w != 0, 'post')
    ex.oblige('number of components', len(n) == len(want), 'post')
    for c, (x, (p, q)) in enumerate(zip(n, want)): ex.oblige(f'value at every position, component {c}', x * q == p * w, 'post')
def binary(op, D, p, q, same=False):
    """same: the right operand is *this"""
    st = {}; xs = xs_(D); inplace = op.endswith('=')
    class BU(GU):
        def setup(s, ex, fn):
            r = super().setup(ex, fn)
            return (s.this, [s.this]) if same else r
    def setup(ex, s):
        a = st['a'] = mk_rat(ex, D, p, 'a'); b = st['b'] = a if same else mk_rat(ex, D, q, 'b')
        for x, y in zip(a.f[A].f['degrees'].e, b.f[A].f['degrees'].e): ex.assume(x + y < 30)
        st['v'], st['w'] = nd(a, xs), nd(b, xs); ex.assume([st['v'][1] != 0, st['w'][1] != 0])
        return a, [a if same else b]
    def want():
        (n, d), (m, e) = st['v'], st['w']
        if op == '*':
            if len(n) > 1 and len(m) > 1: return [(sum((x * y for x, y in zip(n, m)), RV(0)), d * e)]
            return [(x * y, d * e) for x in n for y in m]
        sg = 1 if op[0] == '+' else -1
        return [(x * e + sg * y * d, d * e) for x, y in zip(n, m)]
    def post(ex, s, ret, th):
        r = th if inplace else ex.read(ret)
        if inplace: ex.oblige('returns *this', isinstance(ret, LV) and ret.cell is s.this.cell and not ret.path, 'post')
        result(ex, s, st, r, want(), xs)
        if not inplace: req(ex, 'left operand unchanged', th, st['a'])
        if not same: req(ex, 'right operand unchanged', ex.read(s.args_[0]), st['b'])
    class BU2(BU):
        def setup(s, ex, fn): t, a = super().setup(ex, fn); s.args_ = a; return t, a
    u = BU2(f'operator{op} {name(D, p, True)} with {"itself" if same else name(D, q, True)}, every pair of degrees', 'operator' + op, D, p, None, 1, setup, post, contracts=contracts(xs), pred=rpred([RT(D, q)]), rat=True)
    u.strip_wrap = True
    return u
def unary(op, fname, D, p, inplace=False, free=False, alias=None):
    """op: scale / + / - / neg; alias: the argument is an own (weighted) control point or weight"""
    st = {}; xs = xs_(D)
    class PU(GU):
        no_auto = False
        def select(s, P):
            if not free: return super().select(P)
            ok = rpred([arg, RT(D, p)])
            return [f for f in P.fns.values() if f.name == fname and f.body is not None and len(f.params) == 2 and ok(f)]
        def setup(s, ex, fn):
            r = super().setup(ex, fn)
            if alias:
                j = z3.Int('j'); ex.assume([0 <= j, j < ncp(st['a'].f[A].f['degrees'].e)])
                src = st['a'].f[alias]; st['t'] = [a[j] for a in arrs(src)]
                return s.this, [s.this.ext(('f', alias)).ext(('f', 'control_points')).ext(('v', j))]
            return r
    arg = 'double' if op == 'scale' else PT(p)
    def setup(ex, s):
        a = st['a'] = mk_rat(ex, D, p, 'a'); st['v'] = nd(a, xs); ex.assume(st['v'][1] != 0)
        if op == 'neg': return a, []
        v = z3.Real('v') if op == 'scale' or p == 0 else ArrV([z3.Real(f'v{c}') for c in range(p)]); st['t'] = comps(v)
        return (None, [v, a]) if free else (a, [v])
    def post(ex, s, ret, th):
        a = st['a']; r = th if inplace else ex.read(ret); n, d = st['v']; dg = a.f[A].f['degrees'].e
        if inplace: ex.oblige('returns *this', isinstance(ret, LV) and ret.cell is s.this.cell and not ret.path, 'post')
        if op in '+-':
            # the control points are combined with the weights point by point: Lean ev_linear
            sg = 1 if op == '+' else -1
            for c, (o, x) in enumerate(zip(arrs(r.f[A]), arrs(a.f[A]))): vl.linear(ex, f'component {c}', dg, xs, o, [(RV(1), x), (sg * st['t'][c], arrs(a.f[W])[0])])
            vl.linear(ex, 'weights', dg, xs, arrs(r.f[W])[0], [(RV(1), arrs(a.f[W])[0])])
            for q in PARTS: degs_are(ex, f'result ({q})', r.f[q], dg)
            want = [(x + sg * t * d, d) for x, t in zip(n, st['t'])]
        else: want = [((-x if op == 'neg' else st['t'][0] * x), d) for x in n]
        result(ex, s, st, r, want, xs)
        if not inplace and not free: req(ex, 'operand unchanged', th, a)
    nm = {'scale': 'scalar', 'neg': ''}.get(op, 'point')
    u = PU(f'{nm + " " if free else ""}{fname} {"" if free else nm}{" (own " + ("weight" if alias == W else "weighted control point") + ")" if alias else ""} {name(D, p, True)}, every degree', fname, D, p, None, (0 if op == 'neg' else 1) + (1 if free else 0), setup, post, contracts=contracts(xs), pred=None if free else rpred([] if op == 'neg' else [arg]), rat=True)
    return u
UNITS = []
for D, p in TY:
    UNITS += [equal(D, p)] + [binary(op, D, p, p, s) for op in ('+', '-', '+=', '-=', '*') for s in ((False, True) if op != '*' else (False,))]
    if p: UNITS += [binary('*', D, p, 0), binary('*', D, 0, p)]
    UNITS += [unary('scale', 'operator*=', D, p, True), unary('scale', 'operator*', D, p), unary('scale', 'operator*', D, p, free=True), unary('scale', 'operator*=', D, p, True, alias=W),
              unary('+', 'operator+=', D, p, True), unary('-', 'operator-=', D, p, True), unary('+', 'operator+', D, p), unary('-', 'operator-', D, p), unary('+', 'operator+', D, p, free=True), unary('neg', 'operator-', D, p),
              unary('+', 'operator+=', D, p, True, alias=A), unary('-', 'operator-=', D, p, True, alias=A)]
    if p == 0: UNITS += [unary('scale', 'operator*=', D, p, True, alias=A)]
