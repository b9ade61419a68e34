"""Bounded units: every loop runs concretely for a fixed degree tuple; all control points, positions, weights, scalars stay symbolic.
Decided by exact polynomial / rational-function identity. Labelled bounded: complete in the reals, bounded in the degrees."""
from specs.common import *
from math import comb
from itertools import product as iproduct
R = z3.RealVal
def pw_(x, n):
    r = R(1)
    for _ in range(n): r = x if z3.is_rational_value(r) and r.as_long() == 1 else r * x
    return r
_pw = {}
def pw(x, n):
    k = (x.get_id(), n)
    if k not in _pw: _pw[k] = (x, pw_(x, n))
    return _pw[k][1]
def mulr(*xs):
    r = None
    for x in xs:
        if z3.is_rational_value(x) and x.numerator_as_long() == x.denominator_as_long(): continue
        r = x if r is None else r * x
    return R(1) if r is None else r
_memo = {}
def memo(f):
    """spec functions share sub-terms (the key term is kept alive, so its id stays unique)"""
    def g(*a):
        k = (f.__name__, a[:-1], a[-1].get_id())
        if k not in _memo: _memo[k] = (a[-1], f(*a))
        return _memo[k][1]
    return g
@memo
def bern(n, i, x): return mulr(R(comb(n, i)), pw(x, i), pw(1 - x, n - i))
@memo
def dbern(n, i, d, x):
    """d-th derivative of the Bernstein polynomial, from the definition B_i^n' = n (B_{i-1}^{n-1} - B_i^{n-1})"""
    if i < 0 or i > n: return R(0)
    if d == 0: return bern(n, i, x)
    if n == 0: return R(0)
    return R(n) * (dbern(n - 1, i - 1, d - 1, x) - dbern(n - 1, i, d - 1, x))
def idxs(degs): return [tuple(reversed(t)) for t in iproduct(*[range(d + 1) for d in reversed(degs)])]
def sumr(xs):
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]: r = r + x
    return r
def bernprod(degs, idx, xs, ders=None):
    ders = ders or [0] * len(degs)
    return mulr(*[dbern(n, i, d, x) for n, i, d, x in zip(degs, idx, ders, xs)])
def evspec(degs, cps, xs, ders=None):
    """list of components of sum_i B_i(x) cp_i"""
    n = len(comps(cps[0]))
    ws = [bernprod(degs, i, xs, ders) for i in idxs(degs)]
    return [sumr(w * comps(c)[k] for w, c in zip(ws, cps)) for k in range(n)]

def bspline(ex, D, p, nm, degs, wt=None):
    n = 1
    for d in degs: n *= d + 1
    t = ptype(spline_t(D, p)); r = ex.rec_of(t)
    if {x for x, *_ in r.fields} != {'degrees', 'index_offsets', 'number_of_control_points', 'control_points'}: raise Unsupported('spline fields changed')
    o = [1]
    for d in degs[:-1]: o.append(o[-1] * (d + 1))
    mk = lambda i: z3.Real(f'{nm}.{i}') if p == 0 else ArrV([z3.Real(f'{nm}.{i}.{k}') for k in range(p)])
    return RecV(t[1], {'degrees': ArrV([I(d) for d in degs]), 'index_offsets': ArrV([I(x) for x in o]), 'number_of_control_points': I(n), 'control_points': CVec([mk(i) for i in range(n)])})
def ints(v): return [as_int(x) for x in v.e]
def sp_degs(v): return ints(v.f['degrees'])
def sp_cps(v): return v.f['control_points'].e
def wfb(ex, v, nm, degs=None):
    """concrete class invariant (degrees, offsets, counts, storage length)"""
    d = sp_degs(v); o = [1]
    for x in d[:-1]: o.append(o[-1] * (x + 1))
    n = o[-1] * (d[-1] + 1)
    ok = ints(v.f['index_offsets']) == o and as_int(v.f['number_of_control_points']) == n and len(sp_cps(v)) == n
    ex.oblige(f'{nm}: consistent spline', ok, 'invariant')
    if degs is not None: ex.oblige(f'{nm}: degrees', d == list(degs), 'post')
    return ok and (degs is None or d == list(degs))
def same(ex, nm, got, exp, kind='post'):
    g, e = comps(got) if not isinstance(got, list) else got, exp if isinstance(exp, list) else comps(exp)
    if len(g) != len(e): ex.oblige(nm + ': component count', False, kind); return
    for k, (x, y) in enumerate(zip(g, e)): ex.oblige(f'{nm}, component {k}' if len(g) > 1 else nm, x == y, kind)
def unchanged(ex, nm, a, b):
    if a is b: ex.oblige(f'{nm} unchanged', True, 'frame'); return
    la, lb = list(leaves(a)), list(leaves(b))
    ok = len(la) == len(lb) and all(pa == pb for (pa, _), (pb, _) in zip(la, lb))
    ex.oblige(f'{nm} unchanged', z3.And([x == y for (_, x), (_, y) in zip(la, lb)]) if ok else False, 'frame')

PARAMS = {}
class BU(Unit):
    cvec = True; refute = True; real_div = False
    def __init__(s, name, fname, rec, ptypes_, setup, post, const=None, free=False, throws=None, pred=None, tu='poly.cpp'):
        s.name = name; s.fname = fname; s.recn = rec; s.pts = ptypes_; s._setup = setup; s._post = post; s.const = const; s.free = free; s.throws = throws; s.pred = pred; s.tu = tu
    def select(s, P):
        out = []
        for f in P.fns.values():
            if f.name != s.fname or f.body is None: continue
            if (f.rec is None) != (s.recn is None) and not s.free: continue
            if s.recn is not None and (f.rec is None or crec(f) != s.recn): continue
            if s.const is not None and f.const != s.const: continue
            if s.pts is not None:
                try: ts = [tname(ptype(t)) for t in C.ptypes(f)]
                except Exception: continue
                if len(ts) != len(s.pts) or any(w is not None and t != w for t, w in zip(ts, s.pts)): continue
            if s.pred and not s.pred(f): continue
            out.append(f)
        return out
    def setup(s, ex, fn):
        s.ctx = {}
        this, args, keep = s._setup(ex, s.ctx)
        mk = lambda v, nm: v if isinstance(v, LV) else LV(ex.new_cell(v, nm))
        s.this_lv = mk(this, 'this') if this is not None else None
        al = []
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a[0] == 'this': al.append(LV(s.this_lv.cell, s.this_lv.path + a[1]))
            else: al.append(mk(a, f'arg{i}'))
        s.args_lv = al
        s.keep = []
        if 'this' in keep and s.this_lv is not None: s.keep.append(('operand *this', s.this_lv, ex.read(s.this_lv)))
        for i, lv in enumerate(al):
            if i in keep: s.keep.append((f'operand {i}', lv, ex.read(lv)))
        return s.this_lv, list(al)
    def post(s, ex, fn, ret):
        if s.throws: ex.oblige('must be rejected with an error', False, 'raises'); return
        s.ctx['this'] = ex.read(s.this_lv) if s.this_lv is not None else None
        s.ctx['ret_lv'] = ret; s.ctx['this_lv'] = s.this_lv
        s._post(ex, s.ctx, ex.read(ret) if ret is not None else None)
        for nm, lv, v in s.keep: unchanged(ex, nm, ex.read(lv), v)
    def on_throw(s, ex, fn):
        if s.throws: ex.oblige('rejected with an error', True, 'raises')
        else: ex.oblige('must not raise', False, 'raises')
def ret_this(ex, c):
    r = c['ret_lv']; ex.oblige('returns *this', isinstance(r, LV) and r.cell is c['this_lv'].cell and r.path == c['this_lv'].path, 'post')
def xi(D, nm='x'): return [z3.Real(f'{nm}{d}') for d in range(D)]
def xpt(D, nm='x'):
    x = xi(D, nm); return ArrV(x)
SZ = 'unsigned long'
def ARR(D): return f'array<unsigned long, {D}>'
def PTN(p): return 'double' if p == 0 else f'Point<{p}, double>'
def ST(D, p): return tname(ptype(spline_t(D, p)))
