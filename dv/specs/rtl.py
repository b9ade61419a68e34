"""helpers for rational splines (bounded units)"""
from specs.bnd import *
def RT(D, p): return tname(ptype(f'RationalBezierSpline<{D}, {PT(p)}, double>'))
def rspline(ex, D, p, nm, degs, weights=None, pos=False):
    t = ptype(RT(D, p)); r = ex.rec_of(t)
    if {x for x, *_ in r.fields} != {'weighted_spline_', 'weight_function_'}: raise Unsupported('rational spline fields changed')
    w = weights or bspline(ex, D, 0, nm + 'w', degs)
    for x in sp_cps(w): ex.assume(x > 0 if pos else x != 0)
    return RecV(t[1], {'weighted_spline_': bspline(ex, D, p, nm, degs), 'weight_function_': w})
def wsp(v): return v.f['weighted_spline_']
def wfn(v): return v.f['weight_function_']
def num(v, xs, ders=None): return evspec(sp_degs(wsp(v)), sp_cps(wsp(v)), xs, ders)
def den(v, xs, ders=None): return evspec(sp_degs(wfn(v)), sp_cps(wfn(v)), xs, ders)[0]
def rat(v, xs): d = den(v, xs); return [n / d for n in num(v, xs)]
def wfr(ex, v, nm, degs=None):
    a = wfb(ex, wsp(v), nm + ' numerator', degs); b = wfb(ex, wfn(v), nm + ' weight function', degs)
    eq = sp_degs(wsp(v)) == sp_degs(wfn(v)); ex.oblige(f'{nm}: numerator and weight function have equal degrees', eq, 'invariant')
    return a and b and eq
def chkr(ex, v, degs, xs, exp, nm='result'):
    if wfr(ex, v, nm, degs): same(ex, nm + ': value at every position', rat(v, xs), exp)
def mixed(v, xs, o):
    """mixed partial derivative of num/den: Leibniz recursion from f*w = A (independent of the code's ordering)"""
    from itertools import product as ip
    D = len(o); f = {}
    for k in sorted(ip(*[range(x + 1) for x in o]), key=lambda t: (sum(t), t)):
        acc = num(v, xs, list(k))
        for j in ip(*[range(x + 1) for x in k]):
            if j == k: continue
            c = 1
            for a, b in zip(k, j): c *= comb(a, b)
            wd = den(v, xs, [a - b for a, b in zip(k, j)])
            acc = [a - R(c) * wd * fj for a, fj in zip(acc, f[j])]
        d = den(v, xs)
        f[k] = [a / d for a in acc]
    return f[tuple(o)]
class RU(BU):
    def __init__(s, *a, **k):
        k.setdefault('tu', 'rat.cpp'); super().__init__(*a, **k)
