"""Value layer: contracts of the spline operations in terms of the function a spline denotes, for every degree.
EV(D)(degrees, control-point component array, position) is the value of that component (Lean: Bez.ev); a caller is verified against these contracts only.
Each contract is the postcondition of a unit (closed form of the control points, SMT) composed with a Lean theorem (closed form -> function)."""
from specs.gh import *
from specs.bnd import SZ
Z, RS = z3.IntSort(), z3.RealSort()
AR = z3.ArraySort(Z, RS)
def EV(D): return z3.Function(f'ev{D}', *([Z] * D), AR, *([RS] * D), RS)
def ev(sp, xs):
    """values of the components of a spline at xs"""
    dg = sp.f['degrees'].e
    return [EV(len(dg))(*dg, a, *xs) for a in arrs(sp)]
def evpt(sp, xs):
    e = ev(sp, xs); return e[0] if isleaf(sp.f['control_points'].elem) else ArrV(e)
_n = [0]
def fresh_spline(ex, D, p, degs, nm='new'):
    from val import _ctr
    _ctr[0] += 1
    return mk_spline(ex, D, p, f'{nm}!{_ctr[0]}', degs, assume=False)
def dim_of(rec_t):
    """(D, p) of a polynomial spline type"""
    m = re.match(r'BezierSpline<(\d+), (double|Point<(\d+), double>), double>$', rec_t)
    if not m: raise Unsupported('contract on ' + rec_t)
    return int(m.group(1)), int(m.group(3) or 0)
class VC:
    """contract of a member function (matched by name, class and parameter types)"""
    fname = ''; pts = None; const = None
    def match(s, f):
        if f.name != s.fname or f.rec is None or f.body is None or not s.rec_ok(crec(f)): return False
        if s.const is not None and f.const != s.const: return False
        if s.pts is not None:
            try: ts = [tname(ptype(t)) for t in C.ptypes(f)]
            except Exception: return False
            if len(ts) != len(s.pts) or any(w is not None and not re.fullmatch(w, t) for t, w in zip(ts, s.pts)): return False
        return True
    def rec_ok(s, r): return re.match(r'BezierSpline<\d+, (double|Point<\d+, double>), double>$', r)
    def apply(s, ex, fn, this, args):
        ex.lemmas_used.add(f'contract {s.fname} ({s.proved})')
        return s.go(ex, dim_of(crec(fn)), ex.read(this) if this is not None else None, [ex.read(a) for a in args], this, args)
def wf_pre(ex, v, nm):
    """class invariant of an operand at a call (precondition)"""
    wf(ex, v, nm, 'pre')
class Fixed(VC):
    def __init__(s, xs): s.xs = xs
class Split1(VC):
    """SplitAtPosition(double, dimension): two parts of the same degrees; values by reparametrisation, for every position along the direction"""
    fname = 'SplitAtPosition'; pts = ['double', None]; proved = 'C08, units "every degree" + Lean split_left, split_right'
    def __init__(s, F, total=False): s.F = F; s.total = total      # F(array, s): value along the split direction, everything else fixed
    def go(s, ex, Dp, v, a, this, args):
        t, pd = a
        if s.total:
            if not ex.decide(z3.And(t > 0, t < 1)): raise ThrowE('split position outside (0,1)')
        ex.oblige('split position inside (0,1)', z3.And(t > 0, t < 1), 'pre'); wf_pre(ex, v, 'operand of the split')
        if as_int(pd) is None: raise Unsupported('split direction')
        r = [fresh_spline(ex, *Dp, v.f['degrees'].e, 'part') for _ in (0, 1)]
        u = z3.Real('u!')
        for o, x, y in zip(arrs(v), arrs(r[0]), arrs(r[1])):
            ex.assume(z3.ForAll([u], s.F(x, u) == s.F(o, u * t), patterns=[s.F(x, u)]))
            ex.assume(z3.ForAll([u], s.F(y, u) == s.F(o, t + u * (1 - t)), patterns=[s.F(y, u)]))
        return CVec(r)
class Fixpos:
    """base of the contracts that speak about the values at the given positions"""
class Elevate(VC):
    """OrderElevateAlongParametricDimension(d): degree d plus one, the same function (at xs)"""
    fname = 'OrderElevateAlongParametricDimension'; proved = 'C07, units "every degree" + Lean elevate'
    def __init__(s, xs): s.xs = xs
    def go(s, ex, Dp, v, a, this, args):
        pd = as_int(a[0])
        if pd is None: raise Unsupported('elevated dimension')
        wf_pre(ex, v, 'operand of the elevation')
        if not 0 <= pd < Dp[0]: raise Unsupported('elevated dimension out of range')
        dg = list(v.f['degrees'].e); dg[pd] = dg[pd] + 1
        r = fresh_spline(ex, *Dp, dg, 'elevated')
        for x, y in zip(ev(r, s.xs), ev(v, s.xs)): ex.assume(x == y)
        ex.write(this, r)
        return this
def linear(ex, nm, degs, xs, out, terms, const=None):
    """out[k] = sum of c*array[k] over terms (+ const) for every control point k  |-  the values add up the same way (Lean ev_linear)"""
    k = z3.Int('cp!'); D = len(degs)
    e = sum((c * a[k] for c, a in terms), RV(0)) + (const if const is not None else 0)
    ex.oblige(nm + ': control points', z3.Implies(z3.And(0 <= k, k < ncp(degs)), out[k] == e), 'post')
    f = EV(D)
    ex.assume(f(*degs, out, *xs) == sum((c * f(*degs, a, *xs) for c, a in terms), RV(0)) + (const if const is not None else 0))
    ex.lemmas_used.add('Lean ev_linear')
class Mul(VC):
    """product of two splines: degrees add up, values multiply (at xs)"""
    fname = 'operator*'; const = True; proved = 'C10, units "every pair of degrees" + Lean prod_ev'
    def __init__(s, xs): s.xs = xs
    def match(s, f): return super().match(f) and len(f.params) == 1 and 'BezierSpline' in (tname(ptype(C.ptypes(f)[0])) or '')
    def go(s, ex, Dp, v, a, this, args):
        b = a[0]; D, p = Dp; q = len(arrs(b)) if not isleaf(b.f['control_points'].elem) else 0
        wf(ex, v, 'left factor', 'pre'); wf(ex, b, 'right factor', 'pre')
        dg = [simp(x + y) for x, y in zip(v.f['degrees'].e, b.f['degrees'].e)]
        for d in dg: ex.oblige('degree of the product in the supported range', d < 30, 'pre')
        P, Q = ev(v, s.xs), ev(b, s.xs)
        r = fresh_spline(ex, D, 0 if p and q else max(p, q), dg, 'product')
        V = [sum((x * y for x, y in zip(P, Q)), RV(0))] if p and q else [x * y for x in P for y in Q]
        for x, y in zip(ev(r, s.xs), V): ex.assume(x == y)
        return r
PW = z3.Function('pow', RS, Z, RS)
class Raise(VC):
    """RaisePower(k) of a scalar spline: degrees k times as high, the k-th power of the value (at xs)"""
    fname = 'RaisePower'; proved = 'C10, unit "RaisePower, every degree and power"'
    def __init__(s, xs, bound=None): s.xs = xs; s.bound = bound
    def rec_ok(s, r): return re.match(r'BezierSpline<\d+, double, double>$', r)
    def go(s, ex, Dp, v, a, this, args):
        k = a[0]; wf(ex, v, 'base', 'pre')
        if s.bound is not None: ex.oblige('recursion ends', z3.And(0 <= k, k < s.bound), 'variant')
        dg = [poly.norm_int(k * d) for d in v.f['degrees'].e]
        for d in dg: ex.oblige('degree of the power in the supported range', d < 30, 'pre')
        r = fresh_spline(ex, Dp[0], 0, dg, 'power')
        ex.assume(ev(r, s.xs)[0] == PW(ev(v, s.xs)[0], k))
        return r
