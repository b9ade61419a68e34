"""Composition for every outer and inner degree (product of the degree sums in the supported range), by the contracts of the operations it uses."""
from specs.gh import *
from specs import vl
from specs.c01 import mk_rat
from specs.g10 import L2G, Choose, CH
from specs.g09 import valid
K = z3.Int('kk'); Z, RS = z3.IntSort(), z3.RealSort()
PW = vl.PW
class Cube(vl.VC):
    """FitsIntoUnitCube(): some truth value (C11 says which)"""
    fname = 'FitsIntoUnitCube'; proved = 'C11, units "every degree"'
    def __init__(s, fits): s.fits = fits; s.seen = []
    def rec_ok(s, r): return re.match(r'(Rational)?BezierSpline<', r)
    def apply(s, ex, fn, this, args):
        ex.lemmas_used.add('contract FitsIntoUnitCube (C11)'); s.seen.append(ex.read(this)); return s.fits
def poly_(v): return v if 'control_points' in v.f else v.f['weighted_spline_']
class Extract(vl.VC):
    """ExtractDimension(c): scalar spline of the same degrees, the component c (of the numerator) of the value"""
    fname = 'ExtractDimension'; proved = 'C11, units "ExtractDimension, every degree"'
    def __init__(s, xs): s.xs = xs
    def rec_ok(s, r): return re.match(r'(Rational)?BezierSpline<', r)
    def apply(s, ex, fn, this, args):
        ex.lemmas_used.add(f'contract {s.fname} ({s.proved})')
        v = poly_(ex.read(this)); c = as_int(ex.read(args[0]))
        if c is None: raise Unsupported('extracted component')
        ex.oblige('component inside', 0 <= c < len(arrs(v)), 'pre'); wf(ex, v, 'operand of the extraction', 'pre')
        dg = v.f['degrees'].e; r = vl.fresh_spline(ex, len(dg), 0, dg, 'extracted')
        ex.assume(vl.ev(r, s.xs)[0] == vl.ev(v, s.xs)[c]); return r
class Scale(vl.VC):
    """operator*=(double): values scaled"""
    fname = 'operator*='; pts = ['double']; proved = 'C09, units "*= scalar, every degree"'
    def __init__(s, xs): s.xs = xs
    def go(s, ex, Dp, v, a, this, args):
        wf(ex, v, 'scaled spline', 'pre'); t = coerce(a[0], RS)
        r = vl.fresh_spline(ex, *Dp, v.f['degrees'].e, 'scaled')
        for x, y in zip(vl.ev(r, s.xs), vl.ev(v, s.xs)): ex.assume(x == t * y)
        ex.write(this, r); return this
class RevMinus:
    """scalar - spline"""
    def __init__(s, xs): s.xs = xs
    def match(s, f):
        if f.name != 'operator-' or f.body is None or len(f.params) != 2: return False
        try: ts = [tname(ptype(t)) for t in C.ptypes(f)]
        except Exception: return False
        return ts[0] == 'double' and re.match(r'BezierSpline<\d+, double, double>$', ts[1] or '') is not None
    def apply(s, ex, fn, this, args):
        ex.lemmas_used.add('contract point - spline (C09, units "point - ..., every degree")')
        t, v = [ex.read(a) for a in args]; wf(ex, v, 'subtracted spline', 'pre'); t = coerce(t, RS)
        dg = v.f['degrees'].e; r = vl.fresh_spline(ex, len(dg), 0, dg, 'difference')
        ex.assume(vl.ev(r, s.xs)[0] == t - vl.ev(v, s.xs)[0]); return r
class Minus(vl.VC):
    """spline - spline"""
    fname = 'operator-'; const = True; proved = 'C09, units "operator-, every pair of degrees"'
    def __init__(s, xs): s.xs = xs
    def match(s, f): return super().match(f) and len(f.params) == 1 and 'BezierSpline' in (tname(ptype(C.ptypes(f)[0])) or '')
    def go(s, ex, Dp, v, a, this, args):
        b = a[0]; wf(ex, v, 'minuend', 'pre'); wf(ex, b, 'subtrahend', 'pre')
        dg = [x if z3.eq(x, y) else z3.If(x < y, y, x) for x, y in zip(v.f['degrees'].e, b.f['degrees'].e)]
        r = vl.fresh_spline(ex, *Dp, dg, 'difference')
        for x, y, z in zip(vl.ev(r, s.xs), vl.ev(v, s.xs), vl.ev(b, s.xs)): ex.assume(x == y - z)
        return r
class MulAs(vl.Mul):
    """product, its degrees written as one of the candidates and its factors' values as known (equalities are obligations)"""
    def __init__(s, xs, cand, vals): super().__init__(xs); s.cand = cand; s.vals = vals
    def go(s, ex, Dp, v, a, this, args):
        dg = [simp(x + y) for x, y in zip(v.f['degrees'].e, a[0].f['degrees'].e)]
        kn = next((c for c in s.cand() if not ex.feasible(z3.Not(z3.And([x == y for x, y in zip(dg, c)])))), None)
        r = super().go(ex, Dp, v, a, this, args)
        if kn is None: return r
        for x, y in zip(dg, kn): lem(ex, 'degree of the product', x == y)
        q = vl.fresh_spline(ex, Dp[0], 0 if isleaf(r.f['control_points'].elem) else len(arrs(r)), kn, 'product')
        for x, y in zip(vl.ev(q, s.xs), vl.ev(r, s.xs)): ex.assume(x == y)
        pq = s.vals(ex, vl.ev(v, s.xs)[0], vl.ev(a[0], s.xs)[0])
        if pq is not None: ex.assume(vl.ev(q, s.xs)[0] == pq)
        return q
def HV(D): return z3.Function(f'homogeneous value {D}', *([Z] * D), vl.AR, *([RS] * (D + 1)), RS)
def BP(D): return z3.Function(f'homogeneous basis product {D}', *([Z] * D), Z, *([RS] * (D + 1)), RS)
def inner_values(v, xs):
    """components of the numerator, weight"""
    return vl.ev(poly_(v), xs), (vl.ev(v.f['weight_function_'], xs)[0] if 'control_points' not in v.f else RV(1))
class Num(vl.VC):
    """ComposeNumeratorSpline / ComposeNumeratorSensitivity, and the public Compose / ComposeSensitivity with a polynomial inner function: values as in the units (Lean compose1..3)"""
    const = True; proved = 'C12, C13 units "every degree"'
    def __init__(s, xs, names, fits=None): s.xs = xs; s.names = names; s.fits = fits; s.seen = []
    def match(s, f):
        if f.name not in s.names or f.rec is None or f.body is None or not s.rec_ok(crec(f)) or len(f.params) != 1: return False
        try: return re.match(r'(Rational)?BezierSpline<', tname(ptype(C.ptypes(f)[0]))) is not None
        except Exception: return False
    def apply(s, ex, fn, this, args): s.fn = fn.name; ex.lemmas_used.add(f'contract {fn.name} ({s.proved})'); return s.go(ex, dim_(crec(fn)), ex.read(this), [ex.read(a) for a in args], this, args)
    def go(s, ex, Dp, o, a, this, args):
        D, p = Dp; v = a[0]; P = poly_(v); E = len(P.f['degrees'].e); pub = 'Numerator' not in s.fn; s.seen.append(v)
        if pub and 'control_points' not in v.f: raise Unsupported('contract of the public composition: polynomial inner functions only')
        if pub and s.fits is not None and not ex.decide(s.fits): raise ThrowE('inner function outside the unit cube')
        if not pub: ex.oblige('the inner function was tested', s.fits is None or s.fits, 'pre')
        wf(ex, o, 'outer function', 'pre'); wf(ex, P, 'inner function', 'pre')
        if P is not v: wf(ex, v.f['weight_function_'], 'inner function, weights', 'pre')
        n = o.f['degrees'].e; sm = simp(sum(n[1:], n[0])); nd = [poly.norm_int(x * sm) for x in P.f['degrees'].e]
        for x in n: ex.oblige('outer degree in the supported range', x < 30, 'pre')
        for x in nd: ex.oblige('degree of the composition in the supported range', x < 30, 'pre')
        u, w = inner_values(v, s.xs)
        if 'Sensitivity' not in s.fn:
            r = vl.fresh_spline(ex, E, p, nd, 'composed')
            for x, y in zip(vl.ev(r, s.xs), arrs(o)): ex.assume(x == HV(D)(*n, y, *u, w))
            return r
        from val import _ctr
        _ctr[0] += 1
        e = ex.symb_lift(ptype(spline_t(E, 0)), f'sensitivities!{_ctr[0]}', 1); f = e.f; N = ncp(n); g = lambda z: z3.Implies(z3.And(0 <= K, K < N), z)
        for x, y in list(zip(f['degrees'].e, nd)) + list(zip(f['index_offsets'].e, offsets(nd))) + [(f['number_of_control_points'], ncp(nd)), (f['control_points'].len, ncp(nd))]:
            ex.assume(all_(K, g(x[K] == y), x[K]))
        c = comps(f['control_points'].elem)[0]
        ex.assume(all_(K, g(vl.EV(E)(*nd, c[K], *s.xs) == BP(D)(*n, K, *u, w)), c[K]))
        return VecV(N, e)
def dim_(t): return vl.dim_of(t)
def compose(ratin, D, p, E, sens=False, part=False):
    st = {}; xs = [z3.Real(f'x{e}') for e in range(E)]; q = 0 if D == 1 else D
    fits = z3.Bool('inner function fits into the unit cube'); nc = 1 if sens else max(p, 1)
    KM = [z3.Function(f'degree of power, direction {e}', Z, Z) for e in range(E)]
    MO = [z3.Function(f'monomial {d}', Z, RS) for d in range(D)]; HB = [z3.Function(f'basis {d}', Z, RS) for d in range(D)]
    ACC = [z3.Function(f'partial sum {c}', Z, RS) for c in range(nc)]
    NC = [None, None] + [z3.Function(f'product of {e}', *([Z] * e), Z) for e in (2, 3)]
    PP = [z3.Function(f'basis product, directions up to {d}', Z, RS) for d in range(D)]; PROD = PP[D - 1]
    def setup(ex, s):
        st.clear(); cube.seen.clear(); num.seen.clear()
        o = st['o'] = mk_spline(ex, D, p, 'o')
        v = st['i'] = mk_rat(ex, E, q, 'i') if ratin else mk_spline(ex, E, q, 'i')
        n = st['n'] = o.f['degrees'].e; m = st['m'] = poly_(v).f['degrees'].e
        st['N'] = ncp(n); sm = st['s'] = simp(sum(n[1:], n[0])); st['nd'] = [poly.norm_int(x * sm) for x in m]
        for x in n: ex.assume(x < 30)
        for x in m:
            ex.assume(poly.norm_int(x * sm) < 30)
            for y in n: ex.assume(poly.norm_int(x * y) >= 0)
            ex.assume(z3.Implies(sm >= 1, x < 30))
        ex.assume([st['N'] >= 1, st['N'] <= 27000])
        st['u'] = vl.ev(poly_(v), xs); w = st['w'] = vl.ev(v.f['weight_function_'], xs)[0] if ratin else RV(1)
        st['v'] = [w - x for x in st['u']]
        st['val'] = [HV(D)(*n, a, *st['u'], w) for a in arrs(o)]
        ex.assume(z3.ForAll([K], PROD(K) == BP(D)(*n, K, *st['u'], w), patterns=[BP(D)(*n, K, *st['u'], w)]))
        for a, v_ in zip(ACC, st['val']): ex.assume(a(st['N']) == v_)
        ex.lemmas_used.add(f'Lean compose{D} (the sum over the outer control points is the homogeneous value)')
        for d in range(D):
            for x in (st['u'][d], st['v'][d]): ex.assume(PW(x, I(0)) == 1)
        for k in (I(0),): ex.assume([f(k) == 0 for f in KM])
        for a in ACC: ex.assume(a(0) == 0)
        return o, [v]
    def ncf(dg): return simp(dg[0] + 1) if E == 1 else NC[E](*dg)
    def offf(dg): return [I(1), simp(dg[0] + 1), NC[2](dg[0], dg[1]) if E == 3 else None][:E]
    def defs(ex, dg):
        """products of the counts for these degrees"""
        if E == 1: return
        ex.assume(NC[E](*dg) == ncp(dg))
        if E == 3: ex.assume(NC[2](dg[0], dg[1]) == offsets(dg)[2])
    def deg(k): return [f(k) for f in KM]
    def B(S, d): return S.v('bernstein_basis_splines').e[d]
    def dim(S): return as_int(S.v('i_outer_parametric_dimension'))
    def entries(S, d, nm, lo, hi, dg, val):
        """entries lo <= K < hi: degrees dg(K), well formed, value val(K)"""
        return entr(B(S, d), nm, lo, hi, dg, val)
    def entr(v, nm, lo, hi, dg, val):
        f = v.elem.f; out = []; g = z3.And(lo <= K, K < hi)
        def add(n, e, pat): out.append((f'{nm}: {n}', all_(K, z3.Implies(g, e), pat)))
        D_ = [x[K] for x in f['degrees'].e]
        for e in range(E): add(f'degree {e}', D_[e] == dg(K)[e], D_[e])
        for e, o in enumerate(offf(D_)): add(f'offset {e}', f['index_offsets'].e[e][K] == o, f['index_offsets'].e[e][K])
        for n, x in (('count', f['number_of_control_points'][K]), ('size', f['control_points'].len[K])): add(n, x == ncf(D_), x)
        a = comps(f['control_points'].elem)[0][K]
        add('value', vl.EV(E)(*dg(K), a, *xs) == val(K), a)
        return out
    def inst(S, d, j, dg=None):
        """the entry j is read: its degrees, products of its counts"""
        f = B(S, d).elem.f; D_ = [simp(x[j]) for x in f['degrees'].e]; defs(S.ex, D_)
        for x, y in zip(D_, dg or []): lem(S.ex, 'degree of the entry', x == y)
    def spl(S, nm, v, dg, val):
        return [(f'{nm}: degree {e}', x == y) for e, (x, y) in enumerate(zip(v.f['degrees'].e, dg))] + \
            [(f'{nm}: offset {e}', x == y) for e, (x, y) in enumerate(zip(v.f['index_offsets'].e, offf(v.f['degrees'].e)))] + \
            [(f'{nm}: count', v.f['number_of_control_points'] == ncf(v.f['degrees'].e)), (f'{nm}: size', v.f['control_points'].len == ncf(v.f['degrees'].e)),
             (f'{nm}: value', vl.EV(E)(*dg, arrs(v)[0], *xs) == val)]
    def i_(S): return S.v('i_ctps_in_par_dim')
    def full(S, d): return entries(S, d, f'direction {d}', I(0), st['n'][d] + 1, lambda k: deg(st['n'][d]), lambda k: HB[d](k)) + [(f'direction {d}: length', B(S, d).len == st['n'][d] + 1)]
    def prev(S): return sum([full(S, d) for d in range(dim(S))], [])
    def P1(d): return lambda k: PW(st['u'][d], k)
    def inv0(S):
        d = dim(S); i = i_(S); n = st['n'][d]
        return prev(S) + [('power', z3.And(1 <= i, i <= n + 1)), ('length', B(S, d).len == n + 1)] + entries(S, d, 'powers', I(0), i, deg, P1(d)) + \
            spl(S, 'running power', S.v('extracted_dimension_multiple'), deg(i - 1), PW(st['u'][d], i - 1))
    def unit(S, nm):
        v = S.v(nm); vl.linear(S.ex, 'constant one', v.f['degrees'].e, xs, arrs(v)[0], [], RV(1)); defs(S.ex, v.f['degrees'].e)
    def init0(S): unit(S, 'extracted_dimension_multiple'); inst(S, dim(S), I(0))
    def powdeg(S, i):
        """0 <= degree of the i-th power <= degree of the n-th, for 0 <= i <= n"""
        ex = S.ex; d = dim(S); n = st['n'][d]
        for f, m in zip(KM, st['m']):
            ex.assume([f(i) == poly.norm_int(i * m), f(n) == poly.norm_int(n * m)]); prodnn(ex, i, m); prodnn(ex, simp(n - i), m)
            lem(ex, 'degree of the power', z3.And(0 <= f(i), f(i) <= f(n), f(n) <= poly.norm_int(m * st['s']), f(n) < 30))
    def body0(S):
        ex = S.ex; i = i_(S); d = dim(S); u = st['u'][d]; j = simp(i - 1)
        powdeg(S, i)
        for f, m in zip(KM, st['m']): ex.assume([f(j) == poly.norm_int(j * m)])
        ex.assume(PW(u, i) == PW(u, j) * u); defs(ex, deg(i)); defs(ex, deg(j))
        defs(ex, S.v('extracted_dimension_multiple').f['degrees'].e)
        st['cand'] = [deg(i)]
    def inv1(S):
        d = dim(S); i = i_(S); n = st['n'][d]
        return prev(S) + [('power', z3.And(1 <= i, i <= n + 1)), ('length', B(S, d).len == n + 1)] + entries(S, d, 'powers', I(0), n - i + 1, deg, P1(d)) + \
            entries(S, d, 'monomials', n - i + 1, n + 1, lambda k: deg(n), lambda k: MO[d](k)) + spl(S, 'running power', S.v('inverse_extracted_dimension_mulitple'), deg(i - 1), PW(st['v'][d], i - 1))
    def init1(S):
        d = dim(S); n = st['n'][d]; unit(S, 'inverse_extracted_dimension_mulitple'); S.ex.assume(MO[d](n) == PW(st['u'][d], n) * PW(st['v'][d], I(0)))
    def body1(S):
        ex = S.ex; i = i_(S); d = dim(S); v = st['v'][d]; j = simp(i - 1); n = st['n'][d]; k = simp(n - i)
        powdeg(S, i); powdeg(S, k); 
        for f, m in zip(KM, st['m']): ex.assume([f(j) == poly.norm_int(j * m)])
        ex.assume([PW(v, i) == PW(v, j) * v, MO[d](k) == PW(st['u'][d], k) * PW(v, i)])
        for x in (i, j, k, n): defs(ex, deg(x))
        defs(ex, S.v('inverse_extracted_dimension_mulitple').f['degrees'].e); inst(S, d, k, deg(k))
        for f in KM: lem(ex, 'degrees of the two powers', f(k) + f(i) == f(n))
        st['cand'] = [deg(i), deg(n)]
    def inv2(S):
        d = dim(S); i = i_(S); n = st['n'][d]
        return prev(S) + [('coefficient', z3.And(1 <= i, i <= z3.If(n >= 1, n, 1))), ('length', B(S, d).len == n + 1)] + entries(S, d, 'monomials', I(0), n - i + 1, lambda k: deg(n), lambda k: MO[d](k)) + \
            entries(S, d, 'basis functions', n - i + 1, n + 1, lambda k: deg(n), lambda k: HB[d](k))
    def init2(S):
        d = dim(S); n = st['n'][d]; S.ex.assume([HB[d](n) == MO[d](n), HB[d](0) == MO[d](0)]); S.ex.lemmas_used.add('C(n,0) = C(n,n) = 1')
    def body2(S):
        ex = S.ex; d = dim(S); n = st['n'][d]; i = i_(S); k = simp(n - i)
        ex.assume([CH(n, i) == CH(n, k), HB[d](k) == z3.ToReal(CH(n, k)) * MO[d](k)]); ex.lemmas_used.add('C(n, n-k) = C(n, k) (Lean Nat.choose_symm)')
        defs(ex, deg(n)); inst(S, d, k, deg(n))
    def pos(S): return S.v('i_control_point_outer_spline')
    def rv(S): return S.v('return_value')
    def inv3(S):
        i = pos(S); out = [('position', z3.And(0 <= i, i <= st['N']))]
        if sens: out += [('one spline per control point so far', rv(S).len == i)] + entr(rv(S), 'basis products', I(0), i, lambda k: st['nd'], PROD)
        else:
            r = rv(S)
            out += [('degrees kept', z3.And([x == y for x, y in zip(r.f['degrees'].e, st['nd'])])), ('offsets kept', z3.And([x == y for x, y in zip(r.f['index_offsets'].e, offsets(st['nd']))])),
                    ('count kept', r.f['number_of_control_points'] == ncp(st['nd'])), ('size kept', r.f['control_points'].len == ncp(st['nd']))]
            for c, a in enumerate(arrs(r)): out.append((f'value so far, component {c}', vl.EV(E)(*st['nd'], a, *xs) == ACC[c](i)))
        return out
    def init3(S):
        if sens: return
        r = rv(S)
        for c, a in enumerate(arrs(r)): vl.linear(S.ex, f'starts at zero, component {c}', st['nd'], xs, a, [])
    def note(ex, ix, k):
        """digits of the current outer control point: definition of the basis product"""
        st['ix'] = ix; st['k'] = k; ex.assume(PP[0](k) == HB[0](ix[0]))
        for d in range(1, D): ex.assume(PP[d](k) == PP[d - 1](k) * HB[d](ix[d]))
        b = next((ex.read(f.vars[f.names['bernstein_basis_splines']]) for f in ex.frames if 'bernstein_basis_splines' in f.names), None)
        if b is not None:
            for d in range(D):
                f = b.e[d].elem.f; D_ = [simp(x[ix[d]]) for x in f['degrees'].e]; defs(ex, D_)
                for x, y in zip(D_, deg(st['n'][d])): lem(ex, 'degree of the factor', x == y)
                lem(ex, 'value of the factor', vl.EV(E)(*D_, comps(f['control_points'].elem)[0][ix[d]], *xs) == HB[d](ix[d]))
        t = deg(st['n'][0]); st['cand'] = []
        for d in range(1, D): t = [simp(x + f(st['n'][d])) for x, f in zip(t, KM)]; st['cand'].append(st['nd'] if d == D - 1 else t)
        if not sens:
            for c, a in enumerate(arrs(st['o'])): ex.assume(ACC[c](k + 1) == ACC[c](k) + PROD(k) * a[k])
    def body3(S):
        for e, f in enumerate(KM):
            for n in st['n']: S.ex.assume(f(n) == poly.norm_int(n * st['m'][e])); lem(S.ex, 'degree of a factor', z3.And(0 <= f(n), f(n) < 30))
        for n in st['n']: defs(S.ex, deg(n))
        defs(S.ex, st['nd'])
    def cand(): return st.get('cand', [])
    def vals(ex, P, Q):
        """inside the loop over the outer control points: running basis product times the next factor"""
        if 'ix' not in st: return None
        k, ix = st['k'], st['ix']
        for d in range(1, D):
            if not ex.feasible(z3.Or(P != PP[d - 1](k), Q != HB[d](ix[d]))):
                lem(ex, 'running basis product', P == PP[d - 1](k)); lem(ex, 'next factor', Q == HB[d](ix[d])); return PP[d](k)
    cube = Cube(fits); num = Num(xs, ('ComposeNumeratorSpline', 'ComposeNumeratorSensitivity'), fits)
    def T(S): return S.v('bernstein_basis_tensor_product')
    def k4(S): return S.v('i_control_point_composition')
    def inv4(S):
        r = rv(S); k = k4(S); en = S.at_entry('return_value'); i = pos(S); out = [('index', z3.And(0 <= k, k <= ncp(st['nd'])))]
        out += [('degrees kept', z3.And([x == y for x, y in zip(r.f['degrees'].e, st['nd'])])), ('offsets kept', z3.And([x == y for x, y in zip(r.f['index_offsets'].e, offsets(st['nd']))])),
                ('count kept', r.f['number_of_control_points'] == ncp(st['nd'])), ('size kept', r.f['control_points'].len == ncp(st['nd']))]
        t = arrs(T(S))[0]
        for c, (x, y) in enumerate(zip(arrs(r), arrs(en))):
            out.append((f'done, component {c}', all_(K, z3.Implies(z3.And(0 <= K, K < k), x[K] == y[K] + t[K] * arrs(st['o'])[c][i]), x[K])))
            out.append((f'pending, component {c}', all_(K, z3.Implies(k <= K, x[K] == y[K]), x[K])))
        return out
    def init4(S):
        for x, y in zip(T(S).f['degrees'].e, st['nd']): lem(S.ex, 'degree of the basis product', x == y)
        defs(S.ex, T(S).f['degrees'].e)
        lem(S.ex, 'size of the basis product', T(S).f['control_points'].len == ncp(st['nd']))
    def exit4(S):
        r = rv(S); en = S.at_entry('return_value'); t = arrs(T(S))[0]; i = pos(S)
        for c, (x, y) in enumerate(zip(arrs(r), arrs(en))): vl.linear(S.ex, f'one more basis product, component {c}', st['nd'], xs, x, [(RV(1), y), (arrs(st['o'])[c][i], t)])
    def inv5(S):
        """rational inner function, sensitivities: one rational spline per control point"""
        i = S.v('i'); r = rv(S); out = [('position', z3.And(0 <= i, i <= st['N'])), ('one spline per control point so far', r.len == i)]
        return out + rentries(r, i)
    def rentries(r, hi):
        f = r.elem.f
        return entr(VecV(r.len, f['weighted_spline_']), 'numerators', I(0), hi, lambda k: st['nd'], PROD) + entr(VecV(r.len, f['weight_function_']), 'denominators', I(0), hi, lambda k: st['nd'], lambda k: den())
    def den(): return PW(st['w'], st['s'])
    def body5(S): defs(S.ex, st['nd'])
    h_ = lambda f: (lambda S: (f(S), None)[1])
    loops = {0: LoopSpec(inv0, variant=lambda S: st['n'][dim(S)] + 1 - i_(S), lem_init=h_(init0), lem_body=h_(body0)),
             1: LoopSpec(inv1, variant=lambda S: st['n'][dim(S)] + 1 - i_(S), lem_init=h_(init1), lem_body=h_(body1)),
             2: LoopSpec(inv2, variant=lambda S: st['n'][dim(S)] + 1 - i_(S), lem_init=h_(init2), lem_body=h_(body2)),
             3: LoopSpec(inv3, variant=lambda S: st['N'] - pos(S), lem_init=h_(init3), lem_body=h_(body3)),
             4: LoopSpec(inv5, variant=lambda S: st['N'] - S.v('i'), lem_body=h_(body5)) if sens else LoopSpec(inv4, variant=lambda S: ncp(st['nd']) - k4(S), lem_init=h_(init4), lem_exit=h_(exit4))}
    def post(ex, s, ret, th):
        if not part:
            ex.oblige('inner functions outside the unit cube are rejected', fits, 'post')
            ok = len(cube.seen) == 1 and all(z3.eq(x, y) for (_, x), (_, y) in zip(leaves(cube.seen[0]), leaves(st['i'])))
            ex.oblige('the inner function was tested', ok, 'post')
        eq_spline(ex, 'operand unchanged', th, st['o'], 'frame')
        r = ex.read(ret); rat = ratin and not part
        if sens:
            ex.oblige('one spline per control point', r.len == st['N'], 'post'); k = z3.Int('k'); ex.assume([0 <= k, k < st['N']])
            e = vsel(r, k); defs(ex, st['nd'])
            for nm, x, val in ([('sensitivity', e, PROD(k))] if not rat else [('numerator of the sensitivity', e.f['weighted_spline_'], PROD(k)), ('denominator of the sensitivity', e.f['weight_function_'], den())]):
                dg = x.f['degrees'].e
                for d, (y, z) in enumerate(zip(dg, st['nd'])): lem(ex, f'{nm}: degree {d}', y == z)
                defs(ex, dg); wf(ex, x, nm)
                ex.oblige(f'{nm}: value', vl.ev(x, xs)[0] == val, 'post')
            return
        for nm, x in ([('composition', r)] if not rat else [('numerator', r.f['weighted_spline_']), ('denominator', r.f['weight_function_'])]):
            valid(ex, nm, x, st['nd'])
            if nm == 'denominator': ex.oblige('weight function to the power of the sum of the outer degrees', vl.ev(x, xs)[0] == den(), 'post'); continue
            for c, a in enumerate(arrs(x)): ex.oblige(f'{nm}: sum over the outer control points of basis product times control point, component {c}', vl.EV(E)(*st['nd'], a, *xs) == ACC[c](st['N']), 'post')
    IT = ('Rational' if ratin else '') + f'BezierSpline<{E}, {PT(q)}, double>'
    def pred(f):
        try: return tname(ptype(C.ptypes(f)[0])) == tname(ptype(IT))
        except Exception: return False
    class CU(GU):
        tu = 'comp.cpp'
        def on_throw(s, ex, fn): ex.oblige('rejected only outside the unit cube', z3.Not(fits), 'raises')
    fn = ('ComposeNumeratorSensitivity' if sens else 'ComposeNumeratorSpline') if part else 'ComposeSensitivity' if sens else 'Compose'
    u = CU(f'{fn} {name(D, p)} of {name(E, q, ratin)}, every degree', fn, D, p, None, 1, setup, post, lambda o, ex: loops.get(o + (4 if num.seen and not part else 0)), const=True,
           contracts=([] if part else [num]) + [cube, Extract(xs), Scale(xs), RevMinus(xs), Minus(xs), MulAs(xs, cand, vals), L2G(note), Choose(), vl.Raise(xs)], pred=pred)
    u.strip_wrap = True
    return u
class ScaleC(Scale):
    """operator*(double) const: values scaled"""
    fname = 'operator*'; const = True; proved = 'C09, units "* scalar, every degree"'
    def go(s, ex, Dp, v, a, this, args):
        wf(ex, v, 'scaled spline', 'pre'); t = coerce(a[0], RS)
        r = vl.fresh_spline(ex, *Dp, v.f['degrees'].e, 'scaled')
        for x, y in zip(vl.ev(r, s.xs), vl.ev(v, s.xs)): ex.assume(x == t * y)
        return r
def inner_pred(IT):
    def pred(f):
        try: return tname(ptype(C.ptypes(f)[0])) == tname(ptype(IT))
        except Exception: return False
    return pred
def supported(ex, n, m):
    """degrees in the supported range"""
    sm = simp(sum(n[1:], n[0])); nd = [poly.norm_int(x * sm) for x in m]
    for x in n: ex.assume(x < 30)
    for x in nd: ex.assume(x < 30)
    ex.assume(ncp(n) <= 27000); ex.assume(ncp(n) >= 1)
    return nd
def rcompose(ratin, D, p, E, sens):
    """rational outer function: numerator and weight function are composed"""
    st = {}; xs = [z3.Real(f'x{e}') for e in range(E)]; q = 0 if D == 1 else D
    fits = z3.Bool('inner function fits into the unit cube'); cube = Cube(fits)
    num = Num(xs, ('Compose', 'ComposeSensitivity', 'ComposeNumeratorSpline', 'ComposeNumeratorSensitivity'), fits)
    def setup(ex, s):
        cube.seen.clear(); num.seen.clear()
        o = st['o'] = mk_rat(ex, D, p, 'o'); v = st['i'] = mk_rat(ex, E, q, 'i') if ratin else mk_spline(ex, E, q, 'i')
        n = st['n'] = poly_(o).f['degrees'].e; st['nd'] = supported(ex, n, poly_(v).f['degrees'].e); st['N'] = ncp(n)
        u, w = inner_values(v, xs)
        st['num'] = [HV(D)(*n, a, *u, w) for a in arrs(o.f['weighted_spline_'])]; st['W'] = arrs(o.f['weight_function_'])[0]
        st['den'] = HV(D)(*n, st['W'], *u, w); st['bp'] = lambda k: BP(D)(*n, k, *u, w)
        return o, [v]
    def numval(k): return st['W'][k] * st['bp'](k)
    def inv(S):
        i = S.v('i'); r = S.v('return_value'); f = r.elem.f
        return [('position', z3.And(0 <= i, i <= st['N'])), ('one spline per control point so far', r.len == i)] + \
            entr_(E, xs, VecV(r.len, f['weighted_spline_']), 'numerators', I(0), i, st['nd'], numval) + entr_(E, xs, VecV(r.len, f['weight_function_']), 'denominators', I(0), i, st['nd'], lambda k: st['den'])
    def post(ex, s, ret, th):
        ex.oblige('inner functions outside the unit cube are rejected', fits, 'post')
        for q_ in ('weighted_spline_', 'weight_function_'): eq_spline(ex, 'operand unchanged: ' + q_, th.f[q_], st['o'].f[q_], 'frame')
        r = ex.read(ret)
        if sens:
            ex.oblige('one spline per control point', r.len == st['N'], 'post'); k = z3.Int('k'); ex.assume([0 <= k, k < st['N']]); e = vsel(r, k)
            pairs = [('numerator of the sensitivity', 'weighted_spline_', [numval(k)]), ('denominator of the sensitivity', 'weight_function_', [st['den']])]
        else: e = r; pairs = [('numerator', 'weighted_spline_', st['num']), ('denominator', 'weight_function_', [st['den']])]
        for nm, f, val in pairs:
            x = e.f[f]
            for d, (y, z) in enumerate(zip(x.f['degrees'].e, st['nd'])): lem(ex, f'{nm}: degree {d}', y == z)
            c = x.f
            for y, z in list(zip(c['index_offsets'].e, offsets(st['nd']))) + [(c['number_of_control_points'], ncp(st['nd'])), (c['control_points'].len, ncp(st['nd']))]: ex.oblige(nm + ': consistent sizes', y == z, 'post')
            for i, (a, v) in enumerate(zip(arrs(x), val)): ex.oblige(f'{nm}: value, component {i}', vl.EV(E)(*st['nd'], a, *xs) == v, 'post')
    IT = ('Rational' if ratin else '') + f'BezierSpline<{E}, {PT(q)}, double>'
    class RU(GU):
        def on_throw(s, ex, fn): ex.oblige('rejected only outside the unit cube', z3.Not(fits), 'raises')
    u = RU(f'{"ComposeSensitivity" if sens else "Compose"} {name(D, p, True)} of {name(E, q, ratin)}, every degree', 'ComposeSensitivity' if sens else 'Compose', D, p, None, 1, setup, post,
           {0: LoopSpec(inv, variant=lambda S: st['N'] - S.v('i'))}, const=True, rat=True, contracts=[num, cube, ScaleC(xs)], pred=inner_pred(IT))
    u.tu = 'comp.cpp'; u.strip_wrap = True
    return u
def entr_(E, xs, v, nm, lo, hi, dg, val):
    """entries lo <= K < hi of a vector of scalar splines: degrees dg, consistent sizes, value val(K)"""
    f = v.elem.f; g = z3.And(lo <= K, K < hi); c = comps(f['control_points'].elem)[0]
    L = [(f'degree {e}', x, y) for e, (x, y) in enumerate(zip(f['degrees'].e, dg))] + [(f'offset {e}', x, y) for e, (x, y) in enumerate(zip(f['index_offsets'].e, offsets(dg)))] + \
        [('count', f['number_of_control_points'], ncp(dg)), ('size', f['control_points'].len, ncp(dg))]
    return [(f'{nm}: {n}', all_(K, z3.Implies(g, x[K] == y), x[K])) for n, x, y in L] + [(f'{nm}: value', all_(K, z3.Implies(g, vl.EV(E)(*dg, c[K], *xs) == val(K)), c[K]))]
def group(D, p, E, ratin=False):
    """composition of a group: member by member, in order"""
    st = {}; q = 0 if D == 1 else D; R = 'Rational' if ratin else ''; IT = f'{R}BezierSpline<{E}, {PT(q)}, double>'
    class Member:
        """Compose(member): the result for that member (token), or a rejection"""
        def match(s, f): return f.name == 'Compose' and f.rec is not None and f.body is not None and crec(f) == spline_t(D, p) and inner_pred(IT)(f)
        def apply(s, ex, fn, this, args):
            ex.lemmas_used.add('contract Compose (units "every degree")')
            v = ex.read(args[0]); l0 = [x for _, x in leaves(v)]; g = [x for _, x in leaves(st['g'].elem)]
            i = l0[0].arg(1) if z3.is_select(l0[0]) else None
            ok = i is not None and all(z3.eq(simp(x), simp(z3.Select(a, i))) for x, a in zip(l0, g))
            ex.oblige('composed with a member of the group', ok, 'pre'); ex.oblige('member inside', z3.And(0 <= i, i < st['m']), 'pre')
            eq_spline(ex, 'the outer function', ex.read(this), st['o'])
            if not ex.decide(st['fits'](i)): raise ThrowE('inner function outside the unit cube')
            return vsel(VecV(st['m'], st['res']), i)
    def setup(ex, s):
        st['o'] = mk_spline(ex, D, p, 'o'); st['m'] = m = z3.Int('members'); ex.assume([0 <= m, m < 2 ** 31])
        st['g'] = VecV(m, ex.symb_lift(ptype(IT), 'member', 1)); st['res'] = ex.symb_lift(ptype(R + spline_t(E, p)), 'composed', 1); st['fits'] = z3.Function('member fits', Z, z3.BoolSort())
        return st['o'], [st['g']]
    def same(r, k): return [x[k] == y[k] for (_, x), (_, y) in zip(leaves(r.elem), leaves(st['res']))]
    def inv(S):
        i = S.v('i_spline'); r = S.v('composition_group')
        return [('position', z3.And(0 <= i, i <= st['m'])), ('compositions so far', r.len == i), ('members fit', z3.ForAll([K], z3.Implies(z3.And(0 <= K, K < i), st['fits'](K)), patterns=[st['fits'](K)]))] + \
            [(f'composed members {n}', all_(K, z3.Implies(z3.And(0 <= K, K < i), e), e.arg(0))) for n, e in enumerate(same(r, K))]
    def post(ex, s, ret, th):
        r = ex.read(ret); k = z3.Int('k'); ex.oblige('one composition per member', r.len == st['m'], 'post'); ex.assume([0 <= k, k < st['m']])
        ex.oblige('every member fits', st['fits'](k), 'post')
        for e in same(r, k): ex.oblige('entry k is the composition with member k', e, 'post')
        eq_spline(ex, 'operand unchanged', th, st['o'], 'frame')
    class RU(GU):
        def on_throw(s, ex, fn): w = z3.Int('w'); ex.oblige('rejected only if some member does not fit', z3.Exists([w], z3.And(0 <= w, w < st['m'], z3.Not(st['fits'](w)))), 'raises')
    u = RU(f'Compose {name(D, p)} of a group of {name(E, q, ratin)}, every number of members', 'Compose', D, p, None, 1, setup, post, {0: LoopSpec(inv, variant=lambda S: st['m'] - S.v('i_spline'))}, const=True, contracts=[Member()], pred=inner_pred(f'vector<{IT}>'))
    u.tu = 'comp.cpp'
    return u
CT = [(1, 0, 1), (1, 2, 1), (1, 2, 2), (1, 0, 2), (2, 0, 1), (2, 2, 2), (2, 0, 2), (2, 3, 1), (3, 3, 1), (3, 0, 1), (3, 0, 2)]
PUB = [(1, 0, 1), (1, 2, 1), (1, 2, 2), (2, 0, 1), (2, 2, 2), (2, 3, 1), (3, 3, 1), (3, 0, 2)]      # instantiated public compositions
def parts(sens): return [compose(r, *t, sens=sens, part=True) for t in sorted(PUB if sens else CT, key=lambda t: -t[0] - t[2]) for r in (False, True)] + [compose(r, *t, sens=sens) for t in PUB for r in (False, True)]
PARTS = {False: parts(False), True: parts(True)}
GROUP = [group(*t, ratin=r) for t in PUB for r in (False, True)]
RCOMP = {s: [rcompose(r, *t, s) for t in PUB for r in (False, True)] for s in (False, True)}
UNITS = PARTS[False] + PARTS[True] + GROUP + RCOMP[False] + RCOMP[True]
