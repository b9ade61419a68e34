import z3, re
from drv import *
from val import *
from sym import simp, as_int, idiv, imod, euclid, ThrowE
import poly

I = z3.IntVal
def rec(fn): return C.rec_name(fn.rec) if fn.rec else ''
def crec(fn): return tname(ptype(rec(fn))) if fn.rec else ''

def find(P, name, rec_re=None, sig=None, nparams=None, const=None, pred=None):
    out = []
    for f in P.fns.values():
        if f.name != name or f.body is None: continue
        if rec_re is not None and (f.rec is None or not re.search(rec_re, crec(f))): continue
        if sig is not None and not re.search(sig, f.type): continue
        if nparams is not None and len(f.params) != nparams: continue
        if const is not None and f.type.rstrip().endswith('const') != const: continue
        if pred and not pred(f): continue
        out.append(f)
    return out

def PT(p): return 'double' if p == 0 else f'Point<{p}, double>'
def spline_t(D, p): return f'BezierSpline<{D}, {PT(p)}, double>'

def prod(xs):
    r = I(1)
    for x in xs: r = r * x
    return r
def offsets(degs):
    o = [I(1)]
    for d in degs[:-1]: o.append(poly.norm_int(o[-1] * (d + 1)))
    return o
def ncp(degs): return poly.norm_int(prod([d + 1 for d in degs]))

def mk_spline(ex, D, p, name, degs=None, assume=True):
    """well-formed symbolic spline value: class invariant as polynomial expressions of the degrees"""
    if degs is None: degs = [z3.Int(f'{name}.p{d}') for d in range(D)]
    if assume:
        for d in degs: ex.assume(d >= 0)
    t = ptype(spline_t(D, p))
    r = ex.rec_of(t)
    need = {'degrees', 'index_offsets', 'number_of_control_points', 'control_points'}
    have = {n for n, *_ in r.fields}
    if not need <= have: raise Unsupported('spline fields changed: ' + str(have))
    et = ptype(PT(p))
    f = {'degrees': ArrV(degs), 'index_offsets': ArrV(offsets(degs)), 'number_of_control_points': ncp(degs),
         'control_points': VecV(ncp(degs), ex.symb_lift(et, f'{name}.cp', 1))}
    for n in have - need: raise Unsupported('unexpected spline field ' + n)
    return RecV(t[1], f)
def wf(ex, s, nm, kind='invariant'):
    """class invariant as obligations"""
    degs = s.f['degrees'].e
    o = offsets(degs)
    for d in range(len(degs)):
        ex.oblige(f'{nm}: index_offsets[{d}] = product of lower counts', s.f['index_offsets'].e[d] == o[d], kind)
    ex.oblige(f'{nm}: number_of_control_points = product of (degree+1)', s.f['number_of_control_points'] == ncp(degs), kind)
    ex.oblige(f'{nm}: control_points.size() = number_of_control_points', s.f['control_points'].len == ncp(degs), kind)

def comps(v):
    """list of component leaves of a scalar or Point value"""
    return [v] if isleaf(v) else list(v.e)
def eqv(a, b):
    if isleaf(a):
        if a.sort() != b.sort(): a, b = coerce(a, z3.RealSort()), coerce(b, z3.RealSort())
        return a == b
    return z3.And([x == y for x, y in zip(comps(a), comps(b))])
def lin(*terms):
    """sum of coeff*value over components"""
    n = len(comps(terms[0][1]))
    out = []
    for k in range(n):
        t = None
        for c, v in terms:
            x = c * comps(v)[k]; t = x if t is None else t + x
        out.append(t)
    return out[0] if isleaf(terms[0][1]) else ArrV(out)
