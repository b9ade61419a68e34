"""Corners, unit-cube tests and per-axis transforms for every degree."""
from specs.gh import *
from specs.c01 import mk_rat
from specs import vl
from specs.g10 import L2G
from specs.g09 import valid
K = z3.Int('kk'); Z, RS = z3.IntSort(), z3.RealSort()
def pts(v, k):
    """components of the (projected) control point k"""
    if 'control_points' in v.f: return [a[k] for a in arrs(v)]
    w = arrs(v.f['weight_function_'])[0]
    return [a[k] / w[k] for a in arrs(v.f['weighted_spline_'])]
def poly_(v): return v if 'control_points' in v.f else v.f['weighted_spline_']
def same_operand(ex, th, v):
    if 'control_points' in v.f: return eq_spline(ex, 'operand unchanged', th, v, 'frame')
    for q in ('weighted_spline_', 'weight_function_'): eq_spline(ex, 'operand unchanged: ' + q, th.f[q], v.f[q], 'frame')
def mk(ex, rat, D, p):
    v = mk_rat(ex, D, p, 's') if rat else mk_spline(ex, D, p, 's')
    if rat:
        w = arrs(v.f['weight_function_'])[0]
        ex.assume(all_(K, z3.Implies(z3.And(0 <= K, K < ncp(poly_(v).f['degrees'].e)), w[K] != 0), w[K]))
    ex.assume(ncp(poly_(v).f['degrees'].e) < 2 ** 31)
    q = offsets(poly_(v).f['degrees'].e) + [ncp(poly_(v).f['degrees'].e)]
    for a, b in zip(q, q[1:]): lem(ex, 'counts positive', z3.And(a >= 1, z3.Implies(a >= 1, b >= 1)))
    return v
def comb(nm, D, p, rat): return nm + ' ' + name(D, p, rat) + ', every degree'
def corner(rat, which, D, p):
    st = {}; nm = which.lower(); big = which == 'Maximum'
    nc = max(p, 1)
    W = [z3.Function(f'attained at {c}', Z, Z) for c in range(nc)]
    def setup(ex, s):
        v = st['v'] = mk(ex, rat, D, p); st['N'] = ncp(poly_(v).f['degrees'].e); ex.assume([w(1) == 0 for w in W])
        return v, []
    def cur(S): return comps(S.v(nm))
    def inv(S):
        i = S.v('i'); out = [('index', z3.And(1 <= i, i <= st['N']))]; q = pts(st['v'], K)
        for c, m in enumerate(cur(S)):
            le = (q[c] <= m) if big else (q[c] >= m)
            a = arrs(poly_(st['v']))[c]
            out.append((f'bounds the points so far, component {c}', all_(K, z3.Implies(z3.And(0 <= K, K < i), le), a[K])))
            w = W[c](i); out.append((f'attained, component {c}', z3.And(0 <= w, w < i, m == pts(st['v'], w)[c])))
        return out
    def body(S):
        i = S.v('i'); q = pts(st['v'], i)
        for c, m in enumerate(cur(S)): S.ex.assume(W[c](i + 1) == z3.If((q[c] > m) if big else (q[c] < m), i, W[c](i)))
    def post(ex, s, ret, th):
        r = comps(ex.read(ret)); k = z3.Int('k'); ex.assume([0 <= k, k < st['N']]); q = pts(st['v'], k)
        for c in range(nc):
            ex.oblige(f'bounds every control point, component {c}', (q[c] <= r[c]) if big else (q[c] >= r[c]), 'post')
            w = W[c](st['N']); ex.oblige(f'attained, component {c}', z3.And(0 <= w, w < st['N'], r[c] == pts(st['v'], w)[c]), 'post')
        same_operand(ex, th, st['v'])
    return GU(comb(which + 'Corner', D, p, rat), which + 'Corner', D, p, None, 0, setup, post, {0: LoopSpec(inv, variant=lambda S: st['N'] - S.v('i'), lem_body=lambda S: (body(S), None)[1])}, const=True, rat=rat, contracts=[L2G()])
class Corner:
    """contract of MinimumCorner / MaximumCorner: bounds every control point, attained at some control point"""
    def __init__(s): s.val, s.wit = {}, {}
    def match(s, f): return f.name in ('MaximumCorner', 'MinimumCorner') and f.rec is not None and f.body is not None and not f.params
    def apply(s, ex, fn, this, args):
        ex.lemmas_used.add('contract Minimum/MaximumCorner (C11, units "every degree")')
        v = ex.read(this); P = poly_(v); N = ncp(P.f['degrees'].e); wf(ex, P, 'operand', 'pre'); big = fn.name[1] == 'a'
        leafy = isleaf(P.f['control_points'].elem); nc = len(arrs(P))
        m = [fresh(RS, fn.name) for _ in range(nc)]; w = [fresh(Z, fn.name + ' at') for _ in range(nc)]
        for c in range(nc):
            q = pts(v, K)[c]
            ex.assume(all_(K, z3.Implies(z3.And(0 <= K, K < N), (q <= m[c]) if big else (q >= m[c])), arrs(P)[c][K]))
            ex.assume([0 <= w[c], w[c] < N, m[c] == pts(v, w[c])[c]])
        s.val[fn.name], s.wit[fn.name] = m, w
        return m[0] if leafy else ArrV(m)
def cube(rat, D, p):
    st = {}; cc = Corner(); nc = max(p, 1)
    def setup(ex, s):
        cc.val.clear(); v = st['v'] = mk(ex, rat, D, p); st['N'] = ncp(poly_(v).f['degrees'].e); return v, []
    def post(ex, s, ret, th):
        r = ex.read(ret); k = z3.Int('k'); ins = lambda k: z3.And([z3.And(x >= 0, x <= 1) for x in pts(st['v'], k)]); ok = z3.And(0 <= k, k < st['N'])
        ex.oblige('true: every control point lies in the unit cube', z3.Implies(z3.And(r, ok), ins(k)), 'post')
        ws = [w for l in cc.wit.values() for w in l]
        ex.oblige('false: some control point lies outside', z3.Implies(z3.Not(r), z3.Or([z3.And(0 <= w, w < st['N'], z3.Not(ins(w))) for w in ws])), 'post')
        same_operand(ex, th, st['v'])
    return GU(comb('FitsIntoUnitCube', D, p, rat), 'FitsIntoUnitCube', D, p, None, 0, setup, post, const=True, rat=rat, contracts=[cc])
class PU(GU): no_auto = False
def transp(D, p, alias=False):
    st = {}
    class TU(PU):
        def setup(s, ex, fn):
            r = super().setup(ex, fn)
            if not alias: return r
            a, b = z3.Ints('own1 own2'); N = ncp(st['s'].f['degrees'].e); ex.assume([0 <= a, a < N, 0 <= b, b < N])
            st['a'], st['b'] = [[x[j] for x in arrs(st['s'])] for j in (a, b)]
            return s.this, [s.this.ext(('f', 'control_points')).ext(('v', j)) for j in (a, b)]
    def setup(ex, s):
        st['s'] = mk_spline(ex, D, p, 's')
        v = [z3.Real(n) if p == 0 else ArrV([z3.Real(f'{n}{k}') for k in range(p)]) for n in 'ab']
        st['a'], st['b'] = comps(v[0]), comps(v[1])
        return st['s'], v
    def post(ex, s, ret, th):
        o = st['s']; dg = o.f['degrees'].e
        ex.oblige('returns *this', isinstance(ret, LV) and ret.cell is s.this.cell and not ret.path, 'post')
        valid(ex, 'result', th, dg); k = z3.Int('k'); ex.assume([0 <= k, k < ncp(dg)])
        for c, (x, y) in enumerate(zip(arrs(th), arrs(o))): ex.oblige(f'(value + shift) * scale, component {c}', x[k] == (y[k] + st['a'][c]) * st['b'][c], 'post')
    return TU(comb('TransposeAndScale' + (' by own control points' if alias else ''), D, p, False), 'TransposeAndScale', D, p, None, 2, setup, post)
def fit(D, p):
    st = {}; cc = Corner(); nc = max(p, 1)
    def setup(ex, s): cc.val.clear(); st['s'] = mk_spline(ex, D, p, 's'); return st['s'], []
    def post(ex, s, ret, th):
        o = st['s']; dg = o.f['degrees'].e
        ex.oblige('returns *this', isinstance(ret, LV) and ret.cell is s.this.cell and not ret.path, 'post')
        valid(ex, 'result', th, dg); k = z3.Int('k'); ex.assume([0 <= k, k < ncp(dg)])
        for c, (x, y) in enumerate(zip(arrs(th), arrs(o))):
            lo, hi = cc.val['MinimumCorner'][c], cc.val['MaximumCorner'][c]
            ex.oblige(f'affine map of [min,max] onto [0,1], component {c}', z3.Implies(lo < hi, x[k] * (hi - lo) == y[k] - lo), 'post')
    return PU(comb('FitIntoUnitCube', D, p, False), 'FitIntoUnitCube', D, p, None, 0, setup, post, contracts=[cc])
def extract(rat, D, p, bad=False):
    st = {}
    class XU(PU): pass
    def mk1(c):
        def setup(ex, s):
            v = st['v'] = mk(ex, rat, D, p)
            if not bad: return v, [I(c)]
            k = z3.Int('component'); ex.assume(k >= max(p, 1)); return v, [k]
        def post(ex, s, ret, th):
            r = ex.read(ret); P = poly_(st['v']); dg = P.f['degrees'].e; valid(ex, 'extracted spline', r, dg); k = z3.Int('k'); ex.assume([0 <= k, k < ncp(dg)])
            ex.oblige('the component of every control point', arrs(r)[0][k] == arrs(P)[c][k], 'post'); same_operand(ex, th, st['v'])
        return PU(comb(f'ExtractDimension {"out of range" if bad else c}', D, p, rat), 'ExtractDimension', D, p, None, 1, setup, post, const=True, rat=rat, throws=bad)
    return [mk1(c) for c in ([0] if bad else range(max(p, 1)))]
TY = [(D, p) for D in (1, 2, 3) for p in (0, 3 if D == 3 else 2)]
RTY = [(D, p) for D, p in TY if not (D == 3 and p == 0)]
UNITS = []
for rat in (False, True):
    for D, p in RTY if rat else TY:
        UNITS += [corner(rat, w, D, p) for w in ('Maximum', 'Minimum')] + [cube(rat, D, p)] + extract(rat, D, p) + extract(rat, D, p, True) + ([] if rat else [transp(D, p), transp(D, p, True), fit(D, p)])
