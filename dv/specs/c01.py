"""C01: class invariant and index layout, all degrees (symbolic), every parametric dimension instantiated."""
from specs.common import *
j = z3.Int('jj')
def eq_spline(ex, nm, a, b, kind='post'):
    for d in range(len(b.f['degrees'].e)): ex.oblige(f'{nm}: degrees[{d}]', a.f['degrees'].e[d] == b.f['degrees'].e[d], kind)
    for d in range(len(b.f['degrees'].e)): ex.oblige(f'{nm}: index_offsets[{d}]', a.f['index_offsets'].e[d] == b.f['index_offsets'].e[d], kind)
    ex.oblige(f'{nm}: number_of_control_points', a.f['number_of_control_points'] == b.f['number_of_control_points'], kind)
    eq_vec(ex, nm + ': control_points', a.f['control_points'], b.f['control_points'], kind)
def eq_vec(ex, nm, a, b, kind='post'):
    ex.oblige(nm + ' size', a.len == b.len, kind)
    ex.oblige(nm + ' elements', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < b.len), eqv(vsel(a, j), vsel(b, j)))), kind)
def degs_are(ex, nm, s, dg):
    for d, x in enumerate(dg): ex.oblige(f'{nm}: degree {d} as requested', s.f['degrees'].e[d] == x, 'post')
def mk_rat(ex, D, p, nm):
    t = ptype(f'RationalBezierSpline<{D}, {PT(p)}, double>'); r = ex.rec_of(t)
    if {x for x, *_ in r.fields} != {'weighted_spline_', 'weight_function_'}: raise Unsupported('rational spline fields changed')
    dg = [z3.Int(f'{nm}.p{d}') for d in range(D)]
    return RecV(t[1], {'weighted_spline_': mk_spline(ex, D, p, nm + '.A', dg), 'weight_function_': mk_spline(ex, D, 0, nm + '.w', dg, assume=False)})
def nonneg(ex, xs):
    for x in xs: ex.assume(x >= 0)
class SU(Unit):
    """unit on a (rational) spline method. setup: (ex, self) -> (this value or None, [arg values]); post: (ex, self, ret, this-after)"""
    def __init__(s, label, fname, D, p, sig, nparams, setup, post, rat=False, const=None, ctor=False, pred=None):
        s.name = label; s.fname = fname; s.D = D; s.p = p; s.sig = sig; s.np = nparams; s._setup = setup; s._post = post; s.rat = rat; s.cst = const; s.ctor = ctor; s.pred = pred
        if rat: s.tu = 'rat.cpp'
    def rectype(s): return ptype(f'RationalBezierSpline<{s.D}, {PT(s.p)}, double>' if s.rat else spline_t(s.D, s.p))[1]
    def select(s, P):
        out = []
        for f in P.fns.values():
            if f.name != s.fname or f.rec is None or crec(f) != s.rectype(): continue
            if f.body is None and not f.defaulted: continue
            if s.np is not None and len(f.params) != s.np: continue
            if s.sig and not re.search(s.sig, f.type): continue
            if s.cst is not None and f.type.rstrip().endswith('const') != s.cst: continue
            if s.pred and not s.pred(f): continue
            out.append(f)
        return out
    def setup(s, ex, fn):
        tv, args = s._setup(ex, s)
        t = ('rec', s.rectype())
        if s.ctor: tv = ex.uninit(t)
        s.pre = tv; s.argv = args
        s.this = LV(ex.new_cell(tv, 'this')) if tv is not None else None
        return s.this, [LV(ex.new_cell(a, f'arg{i}')) for i, a in enumerate(args)]
    def post(s, ex, fn, ret): s._post(ex, s, ret, ex.read(s.this))
def darr(nm, D): return ArrV([z3.Int(f'{nm}{d}') for d in range(D)])
def pvec(ex, nm, n, p): return VecV(n, ex.symb_lift(ptype(PT(p)), nm, 1))
UNITS = []
def add(*a, **k): UNITS.append(SU(*a, **k))
def flat(v, i): return poly.norm_int(sum((o * x for o, x in zip(offsets(v), i)), I(0)))
def name(D, p, rat=False): return ('Rational' if rat else '') + f'BezierSpline<{D},{"scalar" if p == 0 else str(p) + "D"}>'
def valid_index(ex, dg, i):
    """range of a multi-index; its flat position is within the count (lemma, proved as unit 'layout lemma')"""
    for d, x in zip(dg, i): ex.assume(z3.And(0 <= x, x <= d)); ex.assume(x < 2 ** 31)
    ex.assume(z3.And(0 <= flat(dg, i), flat(dg, i) < ncp(dg), ncp(dg) < 2 ** 31))
    o = offsets(dg)           # each offset and each partial sum is at most the position / the count (lemma)
    for d in range(len(dg)): ex.assume(z3.And(1 <= o[d], o[d] <= ncp(dg), 0 <= o[d] * i[d], o[d] * i[d] <= flat(dg, i)))
    for d in range(2, len(dg)): ex.assume(sum(o[k] * i[k] for k in range(d)) <= flat(dg, i))
class Layout(Unit):
    """the specification functions themselves: flat is a bijection between multi-indices and positions"""
    tu = 'poly.cpp'
    def __init__(s, D): s.D = D; s.name = f'layout lemma, {D} dimension(s)'
    def lemma(s, ex):
        D = s.D
        n = [z3.Int(f'n{d}') for d in range(D)]; i = [z3.Int(f'i{d}') for d in range(D)]
        for a, b in zip(n, i): ex.assume(z3.And(a >= 0, 0 <= b, b <= a))
        k = [z3.Int(f'k{d}') for d in range(D)]
        for a, b in zip(n, k): ex.assume(z3.And(0 <= b, b <= a))
        # from the last dimension down: Horner step x = i_d + (n_d+1) r with 0 <= r < M (r, M arbitrary)
        for d in range(D - 1):
            r, q, M = z3.Int('r'), z3.Int('q'), z3.Int('M'); w = n[d] + 1
            H = z3.And(0 <= r, r < M, M >= 1, 0 <= q, q < M)
            def step(nm, g): ex.oblige(f'step {d}: {nm}', z3.Implies(H, g), 'lemma'); ex.assume(z3.Implies(H, g))
            step('product bounds', z3.And(w * r >= 0, w * (M - 1 - r) >= 0, w * M >= w, w * M >= M, w * r >= r))
            step('position within the count', z3.And(0 <= i[d] + w * r, i[d] + w * r < w * M))
            step('distinct multi-indices have distinct positions', z3.Implies(i[d] + w * r == k[d] + w * q, z3.And(i[d] == k[d], r == q)))
        lo, N = i[-1], n[-1] + 1
        for d in range(D - 2, -1, -1): lo = i[d] + (n[d] + 1) * lo; N = (n[d] + 1) * N
        ex.oblige('Horner form is the flat position', lo == flat(n, i), 'lemma')
        ex.oblige('Horner count is the count', N == ncp(n), 'lemma')
        o = offsets(n)
        P = [I(1)]
        for x in n: 
            ex.oblige(f'count of {len(P)} dimension(s) positive', P[-1] * (x + 1) >= P[-1], 'lemma'); ex.assume(P[-1] * (x + 1) >= P[-1]); P.append(P[-1] * (x + 1))
        for d in range(D):
            ex.oblige(f'offset {d} is the count of the lower dimensions', o[d] == P[d], 'lemma')
            ex.oblige(f'contribution {d} non-negative', P[d] * i[d] >= 0, 'lemma')
        ex.oblige('position is the sum of the contributions', flat(n, i) == sum((P[d] * i[d] for d in range(D)), I(0)), 'lemma')
        ex.oblige('count is the last product', ncp(n) == P[-1], 'lemma')
for D in (1, 2, 3): UNITS.append(Layout(D))
def digit_hints(ex, i, dg):
    """i div (a b) = (i div a) div b and its range, as proved lemmas over the division facts"""
    if len(dg) < 2: return
    def lem(nm, g): ex.oblige('division lemma: ' + nm, g, 'lemma'); ex.assume(g)
    o = offsets(dg)
    for d in range(1, len(dg)):
        P, a, b = o[d], o[d - 1], dg[d - 1] + 1
        lem(f'offset {d} positive', z3.And(P >= 1, a >= 1, b >= 1, P == a * b))
        ex.assume(euclid(i, a)); ex.assume(euclid(i, P))
        q1, r0, q2, r2 = idiv(i, a), imod(i, a), idiv(i, P), imod(i, P)
        ex.assume(euclid(q1, b)); c, r1 = idiv(q1, b), imod(q1, b)
        lem(f'{d}: two-step remainder bound', z3.And(a * (b - 1 - r1) >= 0, a * r1 >= 0))
        s_ = a * r1 + r0
        lem(f'{d}: two-step quotient', i == P * c + s_)
        lem(f'{d}: remainder in range', z3.And(0 <= s_, s_ < P))
        lem(f'{d}: separation', z3.And(z3.Implies(c - q2 >= 1, P * (c - q2) >= P), z3.Implies(q2 - c >= 1, P * (q2 - c) >= P)))
        lem(f'{d}: quotient of the product', c == q2)
    P, N = o[-1], dg[-1] + 1
    lem('last quotient in range', z3.Implies(idiv(i, P) >= N, P * (idiv(i, P) - N) >= 0))
    lem('last digit', z3.And(idiv(i, P) < N, idiv(i, P) >= 0))
    ex.assume(euclid(idiv(i, P), N))
    lem('last digit needs no reduction', imod(idiv(i, P), N) == idiv(i, P))
for D in (1, 2, 3):
    for p in (0, 3 if D == 3 else 2):
        nm = name(D, p)
        T = spline_t(D, p)
        # ---- constructors, copies, degree changes establish / keep the class invariant
        def su(ex, s): a = darr('g', s.D); nonneg(ex, a.e); return None, [a]
        def po(ex, s, ret, th): degs_are(ex, 'constructed', th, s.argv[0].e); wf(ex, th, 'constructed')
        add(f'{nm}(degrees)', 'BezierSpline', D, p, r'\(const std::array', 1, su, po, ctor=True)
        def su(ex, s):
            a = darr('g', s.D); nonneg(ex, a.e); return None, [a, pvec(ex, 'pts', ncp(a.e), s.p)]
        def po(ex, s, ret, th):
            degs_are(ex, 'constructed', th, s.argv[0].e); wf(ex, th, 'constructed'); eq_vec(ex, 'control points as given', th.f['control_points'], s.argv[1])
        add(f'{nm}(degrees, points)', 'BezierSpline', D, p, '', 2, su, po, ctor=True)
        def su(ex, s): return None, [mk_spline(ex, s.D, s.p, 'o')]
        def po(ex, s, ret, th): eq_spline(ex, 'copy', th, s.argv[0])
        add(f'{nm}(copy)', 'BezierSpline', D, p, r'\(const (bezman::)?BezierSpline', 1, su, po, ctor=True)
        def su(ex, s): return mk_spline(ex, s.D, s.p, 's'), [mk_spline(ex, s.D, s.p, 'o')]
        def po(ex, s, ret, th): eq_spline(ex, 'assigned', th, s.argv[0])
        for sig, k in ((r'\(const', 'copy'), (r'&&\)', 'move')): add(f'{nm}::operator=({k})', 'operator=', D, p, sig, 1, su, po)
        def su(ex, s):
            t = ex.rec_of(ptype(spline_t(s.D, s.p))); a = darr('g', s.D); nonneg(ex, a.e)
            return mk_spline(ex, s.D, s.p, 's'), [a]
        def po(ex, s, ret, th):
            degs_are(ex, 'updated', th, s.argv[0].e); wf(ex, th, 'updated')
        add(f'{nm}::UpdateDegrees', 'UpdateDegrees', D, p, '', 1, su, po)
        # ---- conversions
        def su(ex, s):
            v = mk_spline(ex, s.D, s.p, 's'); i = z3.Int('i'); ex.assume(z3.And(i >= 0, i < ncp(v.f['degrees'].e))); return v, [i]
        def po(ex, s, ret, th):
            ret = ex.read(ret); dg = s.pre.f['degrees'].e; digit_hints(ex, s.argv[0], dg)
            for d in range(s.D): ex.oblige(f'digit {d} in range', z3.And(ret.e[d] >= 0, ret.e[d] <= dg[d]), 'post')
            ex.oblige('recomposes to the position', s.argv[0] == sum(x * o for x, o in zip(ret.e, offsets(dg))), 'post')
            eq_spline(ex, 'unchanged', th, s.pre, 'frame')
        add(f'{nm}::LocalToGlobalIndex', 'LocalToGlobalIndex', D, p, '', 1, su, po); UNITS[-1].timeout = 30
        def su(ex, s):
            v = mk_spline(ex, s.D, s.p, 's'); a = darr('i', s.D); valid_index(ex, v.f['degrees'].e, a.e); return v, [a]
        def po(ex, s, ret, th):
            dg = s.pre.f['degrees'].e; i = s.argv[0].e; r = ex.read(ret)
            ex.oblige('first dimension fastest', r == flat(dg, i), 'post'); eq_spline(ex, 'unchanged', th, s.pre, 'frame')
        add(f'{nm}::GlobalToLocalIndex', 'GlobalToLocalIndex', D, p, '', 1, su, po)
        # ---- accessors
        def at(ex, s, ret, th, i, fld=(), vecf='control_points'):
            """ret is a reference to the control point at flat(i) of the spline stored at fld"""
            sp = s.pre
            for f in fld: sp = sp.f[f]
            dg = sp.f['degrees'].e
            ok = isinstance(ret, LV) and ret.cell is s.this.cell and ret.path[:-1] == tuple(('f', f) for f in fld) + (('f', vecf),) and len(ret.path) and ret.path[-1][0] == 'v'
            ex.oblige('designates an element of the control-point vector of *this', ok, 'post')
            if ok: ex.oblige('at the flat position of the index', ret.path[-1][1] == flat(dg, i), 'post')
        def idx(s): return s.argv[0].e if len(s.argv) == 1 and isinstance(s.argv[0], ArrV) else list(s.argv)
        def su_arr(ex, s):
            v = mk_spline(ex, s.D, s.p, 's'); a = darr('i', s.D); valid_index(ex, v.f['degrees'].e, a.e); return v, [a]
        def su_var(ex, s):
            v = mk_spline(ex, s.D, s.p, 's'); a = darr('i', s.D); valid_index(ex, v.f['degrees'].e, a.e)
            return v, list(a.e)
        def po(ex, s, ret, th): at(ex, s, ret, th, idx(s)); eq_spline(ex, 'unchanged', th, s.pre, 'frame')
        for c in (False, True):
            add(f'{nm}::ControlPoint(array){" const" if c else ""}', 'ControlPoint', D, p, r'\(const std::array', 1, su_arr, po, const=c)
            add(f'{nm}::ControlPoint(indices){" const" if c else ""}', 'ControlPoint', D, p, r'\(const int', D, su_var, po, const=c)
        def su0(ex, s): return mk_spline(ex, s.D, s.p, 's'), []
        def po(ex, s, ret, th):
            eq_vec(ex, 'returned', ex.read(ret), s.pre.f['control_points'])
            ex.oblige('refers to the stored vector', isinstance(ret, LV) and ret.cell is s.this.cell and ret.path == (('f', 'control_points'),), 'post')
        for c in (False, True): add(f'{nm}::GetControlPoints{" const" if c else ""}', 'GetControlPoints', D, p, '', 0, su0, po, const=c)
        def po(ex, s, ret, th):
            r = ex.read(ret)
            for d in range(s.D): ex.oblige(f'degree {d}', r.e[d] == s.pre.f['degrees'].e[d], 'post')
        for c in (False, True): add(f'{nm}::GetDegrees{" const" if c else ""}', 'GetDegrees', D, p, '', 0, su0, po, const=c)
        def po(ex, s, ret, th): ex.oblige('product of (degree+1)', ex.read(ret) == ncp(s.pre.f['degrees'].e), 'post')
        add(f'{nm}::GetNumberOfControlPoints', 'GetNumberOfControlPoints', D, p, '', 0, su0, po)
        # ---- rational
        nm = name(D, p, True)
        W, F = 'weighted_spline_', 'weight_function_'
        def wfr(ex, th, dg, kind):
            for f in (W, F): degs_are(ex, f, th.f[f], dg); wf(ex, th.f[f], f)
        def su(ex, s): a = darr('g', s.D); nonneg(ex, a.e); return None, [a]
        def po(ex, s, ret, th): wfr(ex, th, s.argv[0].e, 'constructed')
        add(f'{nm}(degrees)', 'RationalBezierSpline', D, p, r'\(const std::array', 1, su, po, rat=True, ctor=True)
        def su(ex, s):
            a = darr('g', s.D); nonneg(ex, a.e); return None, [a, pvec(ex, 'pts', ncp(a.e), s.p), pvec(ex, 'ws', ncp(a.e), 0)]
        def po(ex, s, ret, th):
            wfr(ex, th, s.argv[0].e, 'constructed')
            eq_vec(ex, 'weights as given', th.f[F].f['control_points'], s.argv[2])
            a = th.f[W].f['control_points']; b = s.argv[1]; w = s.argv[2]
            ex.oblige('weighted points are point * weight', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < b.len), eqv(vsel(a, j), lin((vsel(w, j), vsel(b, j)))))), 'post')
        add(f'{nm}(degrees, points, weights)', 'RationalBezierSpline', D, p, '', 3, su, po, rat=True, ctor=True)
        def su(ex, s): return None, [mk_spline(ex, s.D, s.p, 'o')]
        def po(ex, s, ret, th):
            wfr(ex, th, s.argv[0].f['degrees'].e, ''); eq_spline(ex, 'numerator', th.f[W], s.argv[0])
            w = th.f[F].f['control_points']
            ex.oblige('all weights one', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < w.len), vsel(w, j) == 1)), 'post')
        add(f'{nm}(polynomial)', 'RationalBezierSpline', D, p, r'\(const (bezman::)?BezierSpline', 1, su, po, rat=True, ctor=True)
        def su(ex, s): v = mk_rat(ex, s.D, s.p, 'o'); return None, [v.f[W], v.f[F]]
        def po(ex, s, ret, th): eq_spline(ex, 'numerator', th.f[W], s.argv[0]); eq_spline(ex, 'weight function', th.f[F], s.argv[1])
        add(f'{nm}(numerator, weight function)', 'RationalBezierSpline', D, p, '', 2, su, po, rat=True, ctor=True)
        def su(ex, s): return None, [mk_rat(ex, s.D, s.p, 'o')]
        def po(ex, s, ret, th):
            for f in (W, F): eq_spline(ex, f, th.f[f], s.argv[0].f[f])
        add(f'{nm}(copy)', 'RationalBezierSpline', D, p, r'\(const (bezman::)?RationalBezierSpline', 1, su, po, rat=True, ctor=True)
        def su(ex, s): return mk_rat(ex, s.D, s.p, 's'), [mk_rat(ex, s.D, s.p, 'o')]
        for sig, k in ((r'\(const', 'copy'), (r'&&\)', 'move')): add(f'{nm}::operator=({k})', 'operator=', D, p, sig, 1, su, po, rat=True)
        def su(ex, s): a = darr('g', s.D); nonneg(ex, a.e); return mk_rat(ex, s.D, s.p, 's'), [a]
        def po(ex, s, ret, th): wfr(ex, th, s.argv[0].e, 'updated')
        add(f'{nm}::UpdateDegrees', 'UpdateDegrees', D, p, '', 1, su, po, rat=True)
        def keep(ex, s, th):
            for f in (W, F): eq_spline(ex, f'unchanged {f}', th.f[f], s.pre.f[f], 'frame')
        def rarr(ex, s):
            v = mk_rat(ex, s.D, s.p, 's'); a = darr('i', s.D); valid_index(ex, v.f[W].f['degrees'].e, a.e); return v, [a]
        def rvar(ex, s):
            v = mk_rat(ex, s.D, s.p, 's'); a = darr('i', s.D); valid_index(ex, v.f[W].f['degrees'].e, a.e); return v, list(a.e)
        for fn_, fld in (('WeightedControlPoint', W), ('Weight', F)):
            def po(ex, s, ret, th, fld=fld): at(ex, s, ret, th, idx(s), (fld,)); keep(ex, s, th)
            for c in (False, True):
                add(f'{nm}::{fn_}(array){" const" if c else ""}', fn_, D, p, r'\(const std::array', 1, rarr, po, rat=True, const=c)
                add(f'{nm}::{fn_}(indices){" const" if c else ""}', fn_, D, p, r'\(const int', D, rvar, po, rat=True, const=c)
        def pos(f):
            def su(ex, s):
                v, a = f(ex, s); dg = v.f[W].f['degrees'].e; i = a[0].e if isinstance(a[0], ArrV) else a
                ex.assume(vsel(v.f[F].f['control_points'], flat(dg, i)) != 0); return v, a
            return su
        def po(ex, s, ret, th):
            dg = s.pre.f[W].f['degrees'].e; k = flat(dg, idx(s)); w = vsel(s.pre.f[F].f['control_points'], k); a = vsel(s.pre.f[W].f['control_points'], k)
            ex.oblige('projected point = weighted point / weight at that position', z3.And([x * w == y for x, y in zip(comps(ex.read(ret)), comps(a))]), 'post')
        add(f'{nm}::ControlPoint(array)', 'ControlPoint', D, p, r'\(const std::array', 1, pos(rarr), po, rat=True)
        add(f'{nm}::ControlPoint(indices)', 'ControlPoint', D, p, r'\(const int', D, pos(rvar), po, rat=True)
        def r0(ex, s): return mk_rat(ex, s.D, s.p, 's'), []
        for fn_, fld in (('GetWeightedControlPoints', W), ('GetWeights', F)):
            def po(ex, s, ret, th, fld=fld):
                eq_vec(ex, 'returned', ex.read(ret), s.pre.f[fld].f['control_points'])
                ex.oblige('refers to the stored vector', isinstance(ret, LV) and ret.cell is s.this.cell and ret.path == (('f', fld), ('f', 'control_points')), 'post')
            for c in (False, True): add(f'{nm}::{fn_}{" const" if c else ""}', fn_, D, p, '', 0, r0, po, rat=True, const=c)
        for fn_, fld in (('GetNumeratorSpline', W), ('GetWeightFunctionSpline', F)):
            def po(ex, s, ret, th, fld=fld): eq_spline(ex, 'returned', ex.read(ret), s.pre.f[fld])
            add(f'{nm}::{fn_}', fn_, D, p, '', 0, r0, po, rat=True)
        def po(ex, s, ret, th):
            r = ex.read(ret)
            for d in range(s.D): ex.oblige(f'degree {d}', r.e[d] == s.pre.f[W].f['degrees'].e[d], 'post')
        add(f'{nm}::GetDegrees const', 'GetDegrees', D, p, '', 0, r0, po, rat=True, const=True)
        def po(ex, s, ret, th): ex.oblige('product of (degree+1)', ex.read(ret) == ncp(s.pre.f[W].f['degrees'].e), 'post')
        add(f'{nm}::GetNumberOfControlPoints', 'GetNumberOfControlPoints', D, p, '', 0, r0, po, rat=True)
        def su(ex, s):
            v = mk_rat(ex, s.D, s.p, 's'); i = z3.Int('i'); ex.assume(z3.And(i >= 0, i < ncp(v.f[W].f['degrees'].e))); return v, [i]
        def po(ex, s, ret, th):
            ret = ex.read(ret); dg = s.pre.f[W].f['degrees'].e; digit_hints(ex, s.argv[0], dg)
            for d in range(s.D): ex.oblige(f'digit {d} in range', z3.And(ret.e[d] >= 0, ret.e[d] <= dg[d]), 'post')
            ex.oblige('recomposes to the position', s.argv[0] == sum(x * o for x, o in zip(ret.e, offsets(dg))), 'post')
        add(f'{nm}::LocalToGlobalIndex', 'LocalToGlobalIndex', D, p, '', 1, su, po, rat=True); UNITS[-1].timeout = 30
        def po(ex, s, ret, th): ex.oblige('first dimension fastest', ex.read(ret) == flat(s.pre.f[W].f['degrees'].e, s.argv[0].e), 'post')
        add(f'{nm}::GlobalToLocalIndex', 'GlobalToLocalIndex', D, p, '', 1, rarr, po, rat=True)

ASSUME = ['fewer than 2^31 control points (the variadic ControlPoint accumulates the position in 32 bits)',
          'std::vector size constructor, resize and copy; std::array and compiler-generated copy/move have their standard meaning']
