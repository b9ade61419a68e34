"""Rational derivatives for every degree and order: the recursion of EvaluateDerivative / BasisFunctionsDerivatives as loop invariants, the derivative spline by contracts."""
from specs.gh import *
from specs.c01 import mk_rat
from specs import vl
from specs.g10 import CH, Choose
from specs.g14 import xs_, h_, lv
from specs.g17 import PARTS, rwf, req, TY
import itertools
K = z3.Int('kk'); Z, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
A, W = PARTS
def EVD(D): return z3.Function(f'evd{D}', *([Z] * D), vl.AR, *([Z] * D), *([RS] * D), RS)
def evd(sp, o, xs):
    dg = sp.f['degrees'].e
    return [EVD(len(dg))(*dg, a, *o, *xs) for a in arrs(sp)]
class EvD(vl.VC):
    """EvaluateDerivative(position, orders) of a polynomial spline: the mixed partial derivative there"""
    fname = 'EvaluateDerivative'; const = True; proved = 'C06, units "EvaluateDerivative, every degree" + Lean derivative_ps'
    def go(s, ex, Dp, v, a, this, args):
        wf(ex, v, 'operand', 'pre')
        for d in v.f['degrees'].e: ex.oblige('degree in the supported range', d < 30, 'pre')
        for o in a[1].e: ex.oblige('order not negative', o >= 0, 'pre')
        e = evd(v, [simp(o) for o in a[1].e], [simp(x) for x in a[0].e])
        return e[0] if isleaf(v.f['control_points'].elem) else ArrV(e)
def digs(i, o):
    """digits of i in the mixed base orders+1 (Lean: i % (n+1), i / (n+1) % (m+1), ...); a direction that is not differentiated has the single digit 0"""
    x = []
    for n in o:
        if as_int(n) == 0: x.append(I(0)); continue
        b = simp(n + 1); x.append(imod(i, b)); i = idiv(i, b)
    return x
def digs_facts(ex, i, o):
    """0 <= i |- digits in range; (q - q mod b) div b = q div b"""
    q = i
    for n in o:
        if as_int(n) == 0: continue
        b = simp(n + 1); ex.assume(euclid(q, b)); nq, r = idiv(q, b), imod(q, b)
        m = simp(q - r)
        ex.assume(euclid(m, b)); ex.assume(z3.Implies(z3.And(b > 0, m == b * nq), idiv(m, b) == nq))
        lem(ex, 'digit', z3.And(0 <= r, r < b, nq >= 0)); lem(ex, 'remaining digits', idiv(m, b) == nq)
        q = nq
def recursion(D, p, sub):
    st = {}
    def setup(ex, s):
        v = st['v'] = mk_rat(ex, D, p, 's'); dg = v.f[A].f['degrees'].e; st['x'] = xs_(D)
        ex.assume([d < 30 for d in dg])
        o = st['o'] = [z3.Int(f'order{d}') if d in sub else I(0) for d in range(D)]
        for d in sub: ex.assume([o[d] >= 1, o[d] < 30])
        st['N'] = poly.norm_int(prod([n + 1 for n in o]))
        nc = st['nc'] = len(arrs(v.f[A]))
        st['T'] = [z3.Function(f'T{c}', Z, Z, RS) for c in range(nc)]; st['Q'] = [z3.Function(f'Q{c}', Z, RS) for c in range(nc)]
        st['AV'] = lambda i: evd(v.f[A], digs(i, o), st['x']); st['WV'] = lambda i: evd(v.f[W], digs(i, o), st['x'])[0]
        st['av'] = [z3.Function(f'A{c}', Z, RS) for c in range(nc)]; st['wv'] = z3.Function('W', Z, RS)
        pr = I(1)
        for d in sub: prodnn(ex, pr, o[d]); pr = poly.norm_int(pr * (o[d] + 1)); lem(ex, 'count positive', pr >= 1)
        ex.assume(st['N'] < 2 ** 31)
        return v, [ArrV(st['x']), ArrV(o)]
    def i_(S): return S.v('i_deriv')
    def values(S, nm, fs, n, strict=True):
        a = S.v(nm); return [(f'{nm}: size', a.len == st['N'])] + [(f'{nm}: value, component {c}', all_(K, z3.Implies(z3.And(0 <= K, K < n), e[K] == f(K)), e[K])) for c, (e, f) in enumerate(zip(comps(a.elem), fs))]
    def rng(S): return ('index', z3.And(0 <= i_(S), i_(S) <= st['N']))
    def inv0(S):
        d = S.v('derivatives')
        return [rng(S), ('result: size', d.len == st['N'])] + values(S, 'A_derivatives', st['av'], i_(S)) + values(S, 'w_derivatives', [st['wv']], i_(S))
    def body0(S):
        ex = S.ex; i = i_(S); digs_facts(ex, i, st['o'])
        for f, a in zip(st['av'] + [st['wv']], st['AV'](i) + [st['WV'](i)]): ex.assume(f(i) == a)
    def inv1(S): return [rng(S)] + values(S, 'derivatives', st['Q'], i_(S))
    def body1(S):
        ex = S.ex; i = i_(S); digs_facts(ex, i, st['o'])
        for T, Q, a in zip(st['T'], st['Q'], st['av']): ex.assume([T(i, 1) == a(i), Q(i) == T(i, i + 1) * (RV(1) / st['wv'](I(0)))])
    def inv2(S):
        i, j = i_(S), S.v('j_deriv'); d = S.v('derivatives')
        return [('second index', z3.And(1 <= j, j <= i + 1))] + values(S, 'derivatives', st['Q'], i) + [(f'partial sum, component {c}', e[i] == T(i, j)) for c, (e, T) in enumerate(zip(comps(d.elem), st['T']))]
    def body2(S):
        ex = S.ex; i, j = i_(S), S.v('j_deriv'); digs_facts(ex, j, st['o'])
        x, y = digs(i, st['o']), digs(j, st['o'])
        b = RV(1)
        for d in range(D): b = b * z3.ToReal(CH(x[d], y[d]))
        for T, Q in zip(st['T'], st['Q']):
            ex.assume(T(i, j + 1) == z3.If(z3.And([v <= u for u, v in zip(x, y)]), T(i, j) - b * st['wv'](j) * Q(i - j), T(i, j)))
    def post(ex, s, ret, th):
        if not sub:
            for f, a in zip(st['av'] + [st['wv']], st['AV'](I(0)) + [st['WV'](I(0))]): ex.assume(f(0) == a)
            for T, Q, a in zip(st['T'], st['Q'], st['av']): ex.assume([T(0, 1) == a(0), Q(0) == T(0, 1) * (RV(1) / st['wv'](0))])
        for c, (r, q) in enumerate(zip(comps(ex.read(ret)), st['Q'])): ex.oblige(f'the recursion at the requested orders (Lean rational_derivative{D}), component {c}', r == q(st['N'] - 1), 'post')
        req(ex, 'operand unchanged', th, st['v'])
    N = lambda: st['N']
    loops = {0: LoopSpec(inv0, variant=lambda S: N() - i_(S), lem_body=h_(body0)), 1: LoopSpec(inv1, variant=lambda S: N() - i_(S), lem_body=h_(body1)), 2: LoopSpec(inv2, variant=lambda S: i_(S) + 1 - S.v('j_deriv'), lem_body=h_(body2))}
    return GU(f'EvaluateDerivative {name(D, p, True)}, every degree, every order in directions {sub}', 'EvaluateDerivative', D, p, None, 2, setup, post, loops, const=True, contracts=[Choose(), EvD()], rat=True)
UNITS = [recursion(D, p, sub) for D, p in TY for k in range(D + 1) for sub in itertools.combinations(range(D), k)]
class BasisD(vl.VC):
    """BasisFunctionsDerivatives(position, orders) of a polynomial spline: one value per control point"""
    fname = 'BasisFunctionsDerivatives'; const = True; proved = 'C06, units "BasisFunctionsDerivatives, every degree" + Lean basisd1..3'
    def __init__(s, D): s.D = D; s.f = z3.Function(f'derivative basis', *([Z] * D), *([Z] * D), *([RS] * D), z3.ArraySort(Z, RS))
    def val(s, dg, o, xs): return s.f(*dg, *o, *xs)
    def go(s, ex, Dp, v, a, this, args):
        wf(ex, v, 'operand', 'pre'); dg = v.f['degrees'].e
        for d in dg: ex.oblige('degree in the supported range', d < 30, 'pre')
        for o in a[1].e: ex.oblige('order not negative', o >= 0, 'pre')
        return VecV(ncp(dg), s.val(dg, [simp(o) for o in a[1].e], [simp(x) for x in a[0].e]))
L_ = z3.Int('ll')
def fa(vs, g, *pats):
    if any(has_ite(q) for q in pats): return z3.ForAll(vs, g)
    try: return z3.ForAll(vs, g, patterns=list(pats))
    except z3.Z3Exception: return z3.ForAll(vs, g)
def at(a, i): return a.e[as_int(i)] if isinstance(a, CVec) else VecV(a.elem.len[i], a.elem.elem[i]) if isinstance(a.elem, VecV) else a.elem[i]
def basis(D, p, sub):
    st = {}; bd = BasisD(D)
    def setup(ex, s):
        v = st['v'] = mk_rat(ex, D, p, 's'); dg = v.f[A].f['degrees'].e; st['x'] = xs_(D); st['n'] = ncp(dg)
        ex.assume([d < 30 for d in dg])
        o = st['o'] = [z3.Int(f'order{d}') if d in sub else I(0) for d in range(D)]
        for d in sub: ex.assume([o[d] >= 1, o[d] < 30])
        st['N'] = poly.norm_int(prod([n + 1 for n in o])); st['w'] = arrs(v.f[W])[0]
        st['T'] = z3.Function('T', Z, Z, Z, RS); st['Q'] = z3.Function('Q', Z, Z, RS); st['PS'] = z3.Function('weight sum', Z, Z, RS)
        st['BV'] = lambda i: bd.val(dg, digs(i, o), st['x'])
        st['av'] = z3.Function('weighted basis', Z, Z, RS); st['wv'] = z3.Function('W', Z, RS)
        pr = I(1)
        for d in sub: prodnn(ex, pr, o[d]); pr = poly.norm_int(pr * (o[d] + 1)); lem(ex, 'count positive', pr >= 1)
        ex.assume(st['N'] < 2 ** 31)
        k, l = z3.Ints('k! l!')
        if not sub: entry(ex, I(0))
        return v, [ArrV(st['x']), ArrV(o)]
    def entry(ex, i):
        """definitions at the derivative number i"""
        l = z3.Int('l!'); B = st['BV'](i)
        ex.assume(z3.ForAll([l], st['av'](i, l) == B[l] * st['w'][l], patterns=[st['av'](i, l)]))
        ex.assume([st['PS'](i, 0) == 0, st['wv'](i) == st['PS'](i, st['n'])]); ex.lemmas_used.add('Lean derivative_ps')
        ex.assume(z3.ForAll([l], z3.And(st['T'](i, 1, l) == st['av'](i, l), st['Q'](i, l) == st['T'](i, i + 1, l) * (RV(1) / st['wv'](I(0)))), patterns=[st['Q'](i, l)]))
    def i_(S): return S.v('i_deriv')
    def b_(S): return S.v('i_basis')
    def rows(S, nm, f, n):
        a = S.v(nm)
        if isinstance(a, CVec): return []
        out = [(f'{nm}: size', a.len == st['N'])]; cond = z3.And(0 <= K, K < n)
        out.append((f'{nm}: one value per control point', all_(K, z3.Implies(cond, a.elem.len[K] == st['n']), a.elem.len[K])))
        out.append((f'{nm}: values', fa([K, L_], z3.Implies(z3.And(cond, 0 <= L_, L_ < st['n']), a.elem.elem[K][L_] == f(K, L_)), a.elem.elem[K][L_])))
        return out
    def wvals(S, n):
        a = S.v('w_derivatives')
        if isinstance(a, CVec): return []
        return [('weight function: size', a.len == st['N']), ('weight function: values', all_(K, z3.Implies(z3.And(0 <= K, K < n), a.elem[K] == st['wv'](K)), a.elem[K])),
                ('weight function: pending', all_(K, z3.Implies(z3.And(n < K, K < st['N']), a.elem[K] == 0), a.elem[K]))]
    def row(S, nm, i): r = at(S.v(nm), i); return r.len, r.elem
    def rng(S): return ('index', z3.And(0 <= i_(S), i_(S) <= st['N']))
    def bidx(S): return ('basis function', z3.And(0 <= b_(S), b_(S) <= st['n']))
    def inv0(S):
        a = S.v('w_derivatives')
        return [rng(S), ('result: size', S.v('derivatives').len == st['N'])] + rows(S, 'A_derivatives', st['av'], i_(S)) + wvals(S, i_(S)) + [('weight function: current', z3.Implies(i_(S) < st['N'], a.elem[i_(S)] == 0))]
    def body0(S):
        ex = S.ex; i = i_(S); digs_facts(ex, i, st['o']); entry(ex, i)
    def inv1(S):
        i, b = i_(S), b_(S); ln, e = row(S, 'A_derivatives', i); B = st['BV'](i)
        return [bidx(S)] + rows(S, 'A_derivatives', st['av'], i) + wvals(S, i) + [('weight sum', at(S.v('w_derivatives'), i) == st['PS'](i, b)), ('row size', ln == st['n']),
                ('row: weighted', all_(L_, z3.Implies(z3.And(0 <= L_, L_ < b), e[L_] == st['av'](i, L_)))), ('row: pending', all_(L_, z3.Implies(z3.And(b <= L_, L_ < st['n']), e[L_] == B[L_])))]
    def body1(S):
        i, b = i_(S), b_(S); S.ex.assume(st['PS'](i, b + 1) == st['PS'](i, b) + st['w'][b] * st['BV'](i)[b])
    def inv2(S): return [rng(S)] + rows(S, 'derivatives', st['Q'], i_(S))
    def body2(S):
        ex = S.ex; i = i_(S); digs_facts(ex, i, st['o']); entry(ex, i)
    def jv(S): return S.v('j_deriv')
    def cur(S, val, nm):
        ln, e = row(S, 'derivatives', i_(S))
        return [('row size', ln == st['n'])] + [(f'{nm}: {m}', fa([L_], z3.Implies(z3.And(lo <= L_, L_ < hi), e[L_] == v), e[L_])) for m, lo, hi, v in val]
    def inv3(S):
        i, j = i_(S), jv(S)
        return [('second index', z3.And(1 <= j, j <= i + 1))] + rows(S, 'derivatives', st['Q'], i) + cur(S, [('all', I(0), st['n'], st['T'](i, j, L_))], 'partial sum')
    def body3(S):
        ex = S.ex; i, j = i_(S), jv(S); digs_facts(ex, j, st['o'])
        x, y = digs(i, st['o']), digs(j, st['o']); b = RV(1)
        for d in range(D): b = b * z3.ToReal(CH(x[d], y[d]))
        l = z3.Int('l!'); T = st['T']
        ex.assume(z3.ForAll([l], T(i, j + 1, l) == z3.If(z3.And([v <= u for u, v in zip(x, y)]), T(i, j, l) - b * st['wv'](j) * st['Q'](i - j, l), T(i, j, l)), patterns=[T(i, j + 1, l)]))
    def inv4(S):
        i, j, b = i_(S), jv(S), b_(S); T = st['T']
        return [bidx(S)] + rows(S, 'derivatives', st['Q'], i) + cur(S, [('done', I(0), b, T(i, j + 1, L_)), ('pending', b, st['n'], T(i, j, L_))], 'partial sum')
    def inv5(S):
        i, b = i_(S), b_(S)
        return [bidx(S)] + rows(S, 'derivatives', st['Q'], i) + cur(S, [('done', I(0), b, st['Q'](i, L_)), ('pending', b, st['n'], st['T'](i, i + 1, L_))], 'final')
    def post(ex, s, ret, th):
        r = ex.read(ret); k = z3.Int('k')
        ex.oblige('one value per control point', r.len == st['n'], 'post'); ex.assume([0 <= k, k < st['n']])
        ex.oblige(f'the recursion at the requested orders (Lean rational_derivative{D}, rec_combine, basis_numerator)', r.elem[k] == st['Q'](st['N'] - 1, k), 'post')
        req(ex, 'operand unchanged', th, st['v'])
    N = lambda: st['N']
    lb = lambda inv, body=None: LoopSpec(inv, variant=lambda S: st['n'] - b_(S), lem_body=h_(body) if body else None)
    L = [LoopSpec(inv0, variant=lambda S: N() - i_(S), lem_body=h_(body0)), lb(inv1, body1), LoopSpec(inv2, variant=lambda S: N() - i_(S), lem_body=h_(body2)),
         LoopSpec(inv3, variant=lambda S: i_(S) + 1 - jv(S), lem_body=h_(body3)), lb(inv4), lb(inv5)]
    if not sub: L = [L[1], L[5]]
    return GU(f'BasisFunctionsDerivatives {name(D, p, True)}, every degree, every order in directions {sub}', 'BasisFunctionsDerivatives', D, p, None, 2, setup, post, dict(enumerate(L)), const=True, contracts=[Choose(), bd], rat=True)
UNITS += [basis(D, p, sub) for D, p in TY for k in range(D + 1) for sub in itertools.combinations(range(D), k)]
class DiffC(vl.VC):
    """DerivativeWRTParametricDimension(one order in one direction) of a polynomial spline: its value is the partial derivative (at xs)"""
    fname = 'DerivativeWRTParametricDimension'; const = True; proved = 'C06, units "DerivativeWRTParametricDimension, every degree" + Lean derivative1..3, mp_zero'
    def __init__(s, xs): s.xs = xs
    def go(s, ex, Dp, v, a, this, args):
        wf(ex, v, 'operand', 'pre'); o = [as_int(simp(x)) for x in a[0].e]
        if None in o or sum(o) != 1 or min(o) < 0: raise Unsupported('orders of the derivative')
        d = o.index(1); dg = list(v.f['degrees'].e); n = simp(dg[d]); dg[d] = z3.If(n >= 1, n - 1, n)
        r = vl.fresh_spline(ex, *Dp, [simp(x) for x in dg], 'derivative')
        for x, y in zip(vl.ev(r, s.xs), evd(v, [I(x) for x in o], s.xs)): ex.assume(x == y)
        return r
def sp_inv(nm, v, dg):
    return [(f'{nm}: degrees', z3.And([a == b for a, b in zip(v.f['degrees'].e, dg)])), (f'{nm}: offsets', z3.And([a == b for a, b in zip(v.f['index_offsets'].e, offsets(dg))])),
            (f'{nm}: count', v.f['number_of_control_points'] == ncp(dg)), (f'{nm}: size', v.f['control_points'].len == ncp(dg)), (f'{nm}: range', z3.And([d >= 0 for d in dg]))]
def spline(D, p, sub):
    from specs import g16
    st = {}; xs = xs_(D)
    def setup(ex, s):
        st.clear(); v = st['v'] = mk_rat(ex, D, p, 's'); o = st['o'] = [z3.Int(f'order{d}') if d in sub else I(0) for d in range(D)]
        for d in sub: ex.assume(o[d] >= 1)
        n, w = g16.nd(v, xs); ex.assume(w != 0); nc = len(n)
        st['G'] = {d: [z3.Function(f'derivative {d}.{c}', Z, RS) for c in range(nc)] for d in range(D)}
        G = st['G']
        for c in range(nc):
            ex.assume(n[c] == G[0][c](0) * w)
            for d in range(1, D): ex.assume(G[d][c](0) == G[d - 1][c](o[d - 1]))
        return v, [ArrV(o)]
    def dd(S): return as_int(S.v('i_para_dim'))
    def inv(S):
        d = dd(S); k = S.v('i_order'); r = S.v('derivative'); dg = r.f[A].f['degrees'].e; n, w = g16.nd(r, xs)
        out = [('order', z3.And(0 <= k, k <= st['o'][d]))] + sp_inv('numerator', r.f[A], dg) + sp_inv('weight function', r.f[W], dg) + [('weight function does not vanish', w != 0)]
        for c, x in enumerate(n): out.append((f'value is the derivative so far, component {c}', x == st['G'][d][c](k) * w))
        return out
    def body(S):
        ex = S.ex; d = dd(S); k = S.v('i_order'); r = S.v('derivative'); n, w = g16.nd(r, xs); o = [I(1 if e == d else 0) for e in range(D)]
        for q in r.f[A].f['degrees'].e: ex.assume(2 * q < 30)
        dn, dw = evd(r.f[A], o, xs), evd(r.f[W], o, xs)[0]
        for c in range(len(n)): ex.assume(st['G'][d][c](k + 1) * (w * w) == dn[c] * w - dw * n[c])
        ex.lemmas_used.add('Lean quotient_step')
    def post(ex, s, ret, th):
        r = ex.read(ret); g = [f(st['o'][D - 1]) for f in st['G'][D - 1]]
        # xs is an arbitrary position where the weight function does not vanish
        g16.result(ex, s, st, r, [(x, RV(1)) for x in g], xs)
        req(ex, 'operand unchanged', th, st['v'])
    return GU(f'DerivativeWRTParametricDimension {name(D, p, True)}, every degree, every order in directions {sub}', 'DerivativeWRTParametricDimension', D, p, None, 1, setup, post,
              {0: LoopSpec(inv, variant=lambda S: st['o'][dd(S)] - S.v('i_order'), lem_body=h_(body))}, const=True, contracts=[DiffC(xs)] + g16.contracts(xs) + [vl.Elevate(xs)], rat=True)
UNITS += [spline(D, p, sub) for D, p in TY for k in range(D + 1) for sub in itertools.combinations(range(D), k)]
