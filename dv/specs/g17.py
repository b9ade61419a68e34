"""Rational elevation and splitting for every degree: the numerator and the weight function by the contracts of the polynomial operations."""
from specs.gh import *
from specs.c01 import mk_rat
from specs import vl
from specs.g09 import xs_, valid
from specs.g08 import FD
K = z3.Int('kk'); U = z3.Real('u')
TY = [(D, p) for D in (1, 2, 3) for p in (0, 3 if D == 3 else 2)]
PARTS = ('weighted_spline_', 'weight_function_')
def rdim(rec_t):
    m = re.match(r'RationalBezierSpline<(\d+), (double|Point<(\d+), double>), double>$', rec_t)
    if not m: raise Unsupported('contract on ' + rec_t)
    return int(m.group(1)), int(m.group(3) or 0)
def fresh_rat(ex, D, p, degs, nm, degs_w=None):
    return RecV(ptype(f'RationalBezierSpline<{D}, {PT(p)}, double>')[1], {'weighted_spline_': vl.fresh_spline(ex, D, p, degs, nm + '.A'), 'weight_function_': vl.fresh_spline(ex, D, 0, degs if degs_w is None else degs_w, nm + '.w')})
def rvalid(ex, nm, r, dg):
    for q in PARTS: valid(ex, f'{nm}, {"numerator" if q[6] == "e" else "weight function"}', r.f[q], dg)
def rwf(ex, nm, v):
    for q in PARTS: wf(ex, v.f[q], nm, 'pre')
def req(ex, nm, a, b, kind='frame'):
    for q in PARTS: eq_spline(ex, f'{nm} ({q})', a.f[q], b.f[q], kind)
def rarrs(v): return arrs(v.f[PARTS[0]]) + arrs(v.f[PARTS[1]])
def elevate(D, p, pd):
    st = {}; xs = xs_(D)
    def setup(ex, s): v = st['v'] = mk_rat(ex, D, p, 's'); return v, [I(pd)]
    def post(ex, s, ret, th):
        v = st['v']; dg = list(v.f[PARTS[0]].f['degrees'].e); dg[pd] = dg[pd] + 1
        ex.oblige('returns *this', isinstance(ret, LV) and ret.cell == s.this.cell and not ret.path, 'post')
        rvalid(ex, 'elevated spline', th, dg)
        for q in PARTS:
            for c, (x, y) in enumerate(zip(vl.ev(th.f[q], xs), vl.ev(v.f[q], xs))): ex.oblige(f'value unchanged ({q}), component {c}', x == y, 'post')
    return GU(f'OrderElevate({pd}) {name(D, p, True)}, every degree', 'OrderElevateAlongParametricDimension', D, p, None, 1, setup, post, contracts=[vl.Elevate(xs)], rat=True)
t = z3.Real('t')
def split(D, p, pd):
    st = {}
    def setup(ex, s): v = st['v'] = mk_rat(ex, D, p, 's'); ex.assume([t > 0, t < 1]); return v, [t, I(pd)]
    def post(ex, s, ret, th):
        r = ex.read(ret); v = st['v']; dg = v.f[PARTS[0]].f['degrees'].e
        pr = parts_of(r, 2); ex.oblige('two parts', pr is not None, 'post')
        if pr is not None:
            for i, (e, f) in enumerate(zip(pr, (lambda u: u * t, lambda u: t + u * (1 - t)))):
                rvalid(ex, f'part {i}', e, dg)
                for c, (x, o) in enumerate(zip(rarrs(e), rarrs(v))): ex.oblige(f'part {i} is the operand on its sub-interval, component {c}', FD(x, U) == FD(o, f(U)), 'post')
        req(ex, 'operand unchanged', th, v)
    return GU(f'SplitAtPosition({pd}) {name(D, p, True)}, every degree', 'SplitAtPosition', D, p, r'\(const double', 2, setup, post, contracts=[vl.Split1(FD)], rat=True)
def reject1(D, p, pd):
    def setup(ex, s): ex.assume(z3.Or(t <= 0, t >= 1)); return mk_rat(ex, D, p, 's'), [t, I(pd)]
    return GU(f'SplitAtPosition({pd}) {name(D, p, True)} outside (0,1), every degree', 'SplitAtPosition', D, p, r'\(const double', 2, setup, None, contracts=[vl.Split1(FD, total=True)], rat=True, throws=True)
class RSplit1(vl.Split1):
    """SplitAtPosition(double, dimension) of a rational spline: units of this file"""
    proved = 'C17, units "SplitAtPosition, every degree"'
    def rec_ok(s, r): return re.match(r'RationalBezierSpline<\d+, (double|Point<\d+, double>), double>$', r)
    def apply(s, ex, fn, this, args):
        ex.lemmas_used.add(f'contract {s.fname} ({s.proved})')
        D, p = rdim(crec(fn)); v = ex.read(this); x, pd = [ex.read(a) for a in args]
        if s.total:
            if not ex.decide(z3.And(x > 0, x < 1)): raise ThrowE('split position outside (0,1)')
        ex.oblige('split position inside (0,1)', z3.And(x > 0, x < 1), 'pre'); rwf(ex, 'operand of the split', v)
        if as_int(pd) is None: raise Unsupported('split direction')
        dg = v.f[PARTS[0]].f['degrees'].e
        ex.oblige('matching degrees', z3.And([a == b for a, b in zip(dg, v.f[PARTS[1]].f['degrees'].e)]), 'pre')
        r = [fresh_rat(ex, D, p, dg, 'part') for _ in (0, 1)]; u = z3.Real('u!')
        for o, a, b in zip(rarrs(v), rarrs(r[0]), rarrs(r[1])):
            ex.assume(z3.ForAll([u], FD(a, u) == FD(o, u * x), patterns=[FD(a, u)]))
            ex.assume(z3.ForAll([u], FD(b, u) == FD(o, x + u * (1 - x)), patterns=[FD(b, u)]))
        return CVec(r)
def leafs(sp): return sp.f['degrees'].e + sp.f['index_offsets'].e + [sp.f['number_of_control_points'], sp.f['control_points'].len]
def planes(D, p, pd):
    st = {}
    def b(k): return z3.If(k == 0, RV(0), z3.If(k == st['m'] + 1, RV(1), st['pl'][k - 1]))
    def setup(ex, s):
        v = mk_rat(ex, D, p, 's'); st['v'] = v
        st['m'] = m = z3.Int('m'); ex.assume([m >= 0, m < 2 ** 31])
        st['pl'] = pl = z3.Array('planes', z3.IntSort(), z3.RealSort()); k = z3.Int('k!')
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(pl[k] > 0, pl[k] < 1)), patterns=[pl[k]]))
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k + 1 < m), pl[k] < pl[k + 1]), patterns=[pl[k]]))
        ex.assume(z3.Implies(m >= 2, pl[0] < pl[m - 1]))      # increasing: transitive
        return v, [VecV(m, pl), I(pd)]
    MID = z3.Function('position in part', z3.IntSort(), z3.RealSort(), z3.RealSort()); REM = z3.Function('position in remainder', z3.IntSort(), z3.RealSort(), z3.RealSort())
    def dmid(ex, k): ex.assume(z3.ForAll([U], MID(k, U) == b(k) + U * (b(k + 1) - b(k)), patterns=[MID(k, U)]))
    def drem(ex, k): ex.assume(z3.ForAll([U], REM(k, U) == st['pl'][k - 1] + U * (1 - st['pl'][k - 1]), patterns=[REM(k, U)]))
    def shape(e, k):
        """degrees, counts, sizes of the element k"""
        return [x[k] == y for q in PARTS for x, y in zip(leafs(e.f[q]), leafs(st['v'].f[q]))]
    def inv(S):
        v = st['v']; i = S.v('i_split'); rv = S.v('return_value'); R = S.v('split_spline').e[1]
        out = [('split index', z3.And(1 <= i, i <= st['m'])), ('parts so far', rv.len == i)]
        out += [('remainder has the degrees', z3.And([x == y for q in PARTS for x, y in zip(leafs(R.f[q]), leafs(v.f[q]))]))]
        for c, (x, o) in enumerate(zip(rarrs(R), rarrs(v))): out.append((f'remainder, component {c}', z3.ForAll([U], FD(x, U) == FD(o, REM(i, U)), patterns=[FD(x, U)])))
        for n, g in enumerate(shape(rv.elem, K)): out.append((f'parts: degrees and sizes {n}', all_(K, z3.Implies(z3.And(0 <= K, K < i), g), g.arg(0))))
        for c, (x, o) in enumerate(zip(rarrs(rv.elem), rarrs(v))):
            out.append((f'parts: values, component {c}', z3.ForAll([K, U], z3.Implies(z3.And(0 <= K, K < i), FD(x[K], U) == FD(o, MID(K, U))), patterns=[FD(x[K], U)])))
        return out
    def init(S):
        ex = S.ex; i = S.v('i_split'); t = st['pl'][i - 1]; dmid(ex, i - 1); drem(ex, i)
        lem(ex, 'position in the first part', z3.ForAll([U], U * t == MID(i - 1, U), patterns=[MID(i - 1, U)]))
    def body(S):
        i = S.v('i_split'); a, c = st['pl'][i - 1], st['pl'][i]; ex = S.ex
        q = (c - a) / (1 - a); lem(ex, 'planes in order', z3.And(0 < a, a < c, c < 1)); lem(ex, 'relative position', z3.And(q * (1 - a) == c - a))
        lem(ex, 'relative position positive', z3.Implies(q <= 0, -q * (1 - a) >= 0)); lem(ex, 'relative position below one', z3.Implies(q >= 1, (q - 1) * (1 - a) >= 0))
        lem(ex, 'relative position inside', z3.And(0 < q, q < 1))
        dmid(ex, i); drem(ex, i); drem(ex, i + 1)
        lem(ex, 'position in the new part', z3.ForAll([U], REM(i, U * q) == MID(i, U), patterns=[MID(i, U)]))
        lem(ex, 'position in the new remainder', z3.ForAll([U], REM(i, q + U * (1 - q)) == REM(i + 1, U), patterns=[REM(i + 1, U)]))
    def post(ex, s, ret, th):
        r = ex.read(ret); v = st['v']; k = z3.Int('part'); u = z3.Real('pos')
        if isinstance(r, CVec):
            ex.oblige('number of parts', I(len(r.e)) == st['m'] + 1, 'post')
            for e in r.e: req(ex, 'no plane: the spline itself', e, v, 'post')
            return
        ex.oblige('number of parts', r.len == st['m'] + 1, 'post')
        ex.assume(z3.And(0 <= k, k < r.len)); dmid(ex, k); drem(ex, st['m'])
        for n, g in enumerate(shape(r.elem, k)): ex.oblige(f'part: degrees, counts and sizes as the operand {n}', g, 'post')
        if as_int(r.len) is None: lem(ex, 'last part', z3.ForAll([U], REM(st['m'], U) == b(st['m']) + U * (1 - b(st['m']))))
        for c, (x, o) in enumerate(zip(rarrs(r.elem), rarrs(v))):
            ex.oblige(f'no plane: the operand itself, component {c}', z3.Implies(st['m'] == 0, x[k] == o), 'post')
            ex.oblige(f'part k is the operand on [t_k, t_k+1], component {c}', z3.Implies(st['m'] > 0, FD(x[k], u) == FD(o, b(k) + u * (b(k + 1) - b(k)))), 'post')
        req(ex, 'operand unchanged', th, v)
    g = GU(f'SplitAtPosition(planes, {pd}) {name(D, p, True)}, every degree and number of planes', 'SplitAtPosition', D, p, r'\(const (std::)?vector', 2, setup, post, {0: LoopSpec(inv, variant=lambda S: st['m'] - S.v('i_split'), lem_body=lambda S: (body(S), None)[1], lem_init=lambda S: (init(S), None)[1])}, rat=True)
    g.contracts = [RSplit1(FD)]
    return g
def rejectn(D, p, pd):
    """planes not strictly increasing inside (0,1)"""
    st = {}
    def setup(ex, s):
        st['m'] = m = z3.Int('m'); ex.assume([m >= 1, m < 2 ** 31]); w = z3.Int('w')
        st['pl'] = pl = z3.Array('planes', z3.IntSort(), z3.RealSort())
        ex.assume(z3.Or(z3.And(0 <= w, w < m, z3.Or(pl[w] <= 0, pl[w] >= 1)), z3.And(0 <= w, w + 1 < m, pl[w] >= pl[w + 1])))
        return mk_rat(ex, D, p, 's'), [VecV(m, pl), I(pd)]
    def inv(S):
        i = S.v('i_split'); pl = st['pl']; R = S.v('split_spline').e[1]
        return [('index', z3.And(1 <= i, i <= st['m'])), ('planes so far inside', all_(K, z3.Implies(z3.And(0 <= K, K < i), z3.And(pl[K] > 0, pl[K] < 1)), pl[K])),
                ('remainder', z3.And([x == y for q in PARTS for x, y in zip(leafs(R.f[q]), leafs(S.this.f[q]))])),
                ('planes so far increase', all_(K, z3.Implies(z3.And(0 <= K, K + 1 < i), pl[K] < pl[K + 1]), pl[K]))]
    def end(S):
        i = S.v('i_split') - 1; a, c = st['pl'][i - 1], st['pl'][i]; q = (c - a) / (1 - a); ex = S.ex
        lem(ex, 'relative position', z3.And(a < 1, q * (1 - a) == c - a))
        lem(ex, 'accepted position: below one', z3.Implies(q < 1, (1 - q) * (1 - a) > 0)); lem(ex, 'accepted position: above zero', z3.Implies(q > 0, q * (1 - a) > 0))
    return GU(f'SplitAtPosition(planes, {pd}) {name(D, p, True)} not increasing inside (0,1), every degree and number of planes', 'SplitAtPosition', D, p, r'\(const (std::)?vector', 2, setup, None,
              {0: LoopSpec(inv, variant=lambda S: st['m'] - S.v('i_split'), lem_end=lambda S: (end(S), None)[1])}, contracts=[RSplit1(FD, total=True)], throws=True, rat=True)
UNITS = [f(D, p, pd) for D, p in TY for pd in range(D) for f in (elevate, split)] + [planes(D, p, D - 1) for D, p in TY] + [reject1(D, p, 0) for D, p in TY] + [rejectn(D, p, D - 1) for D, p in TY]
