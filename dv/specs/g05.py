"""Evaluation: de Casteljau value, basis functions and forward evaluation for every degree."""
from specs.gh import *
from specs import vl
K = z3.Int('kk'); Z, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
class Act:
    """partial values of direction d: the entry i of the row h is stored at S*(i + (n+1)*h); act(K): K is such a position, ix(K), gr(K) its index and row (unique digits)"""
    def __init__(s, ex, d, dg, S, G):
        s.d, s.S, s.G, s.n = d, S, G, dg[d]; s.N = ncp(dg)
        s.act, s.ix, s.gr = z3.Function(f'act{d}', Z, BS), z3.Function(f'ix{d}', Z, Z), z3.Function(f'gr{d}', Z, Z)
        s.ps = z3.Function(f'ps{d}', Z, Z, Z); k = z3.Int('k!')
        ex.assume(z3.ForAll([k], z3.Implies(s.act(k), z3.And(s.ps(s.ix(k), s.gr(k)) == k, 0 <= s.ix(k), s.ix(k) <= s.n, 0 <= s.gr(k), s.gr(k) < s.G)), patterns=[s.act(k)]))
    def at(s, ex, i, h):
        for nm, g in (('index', z3.And(0 <= i, i <= s.n)), ('row', z3.And(0 <= h, h < s.G))): ex.oblige('entry: ' + nm, g, 'lemma')
        for y in (i, s.n - i, h, s.G - 1 - h): prodnn(ex, s.S, y)
        for y in (h, s.G - 1 - h): prodnn(ex, s.n, y); prodnn(ex, poly.norm_int(s.S * s.n), y)
        k = poly.norm_int(s.S * (i + (s.n + 1) * h))
        ex.assume([s.act(k), s.ix(k) == i, s.gr(k) == h, s.ps(i, h) == k])
        lem(ex, 'entry inside the vector', z3.And(0 <= k, k < s.N))
        return k
def evaluate(D, p):
    st = {}
    def setup(ex, s):
        v = mk_spline(ex, D, p, 's'); st['v'] = v; dg = v.f['degrees'].e; st['dg'] = dg
        nc = len(arrs(v)); st['nc'] = nc; ex.assume(ncp(dg) < 2 ** 31)
        off = offsets(dg); st['N'] = ncp(dg)
        M = [poly.norm_int(prod([d + 1 for d in dg[k:]])) for k in range(D + 1)]
        for q in (off + [ncp(dg)], M[::-1]):
            for a, b in zip(q, q[1:]): lem(ex, 'counts positive', z3.And(a >= 1, z3.Implies(a >= 1, b >= 1)))
        st['R'] = [Act(ex, d, dg, off[d], M[d + 1]) for d in range(D)]
        st['T'] = [[z3.Function(f'T{d}.{c}', Z, Z, RS) for c in range(nc)] for d in range(D)]
        st['x'] = [z3.Real(f'x{d}') for d in range(D)]
        k = z3.Int('k!')
        for c in range(nc): ex.assume(z3.ForAll([k], st['T'][0][c](k, 0) == arrs(v)[c][k], patterns=[st['T'][0][c](k, 0)]))
        for d in range(1, D):
            a, b = st['R'][d - 1], st['R'][d]; i, h = z3.Ints('i! h!'); ex.assume([0 <= i, i <= b.n, 0 <= h, h < b.G])
            for y in (h, b.G - 1 - h): prodnn(ex, b.n, y)
            k1 = b.at(ex, i, h); k2 = a.at(ex, I(0), poly.norm_int(i + (b.n + 1) * h))
            lem(ex, f'positions of direction {d} are the tips of direction {d - 1}', k1 == k2)
            ex.assume(z3.ForAll([k], z3.Implies(b.act(k), z3.And(a.act(k), a.ix(k) == 0)), patterns=[b.act(k)]))
            for c in range(nc): ex.assume(z3.ForAll([k], st['T'][d][c](k, 0) == st['T'][d - 1][c](k, a.n), patterns=[st['T'][d][c](k, 0)]))
        return v, [ArrV(st['x'])]
    def dd(S): return as_int(S.v('par_dim'))
    def R(S): return st['R'][dd(S)]
    def cur(S): return S.v('starting_point_id')
    iv = lambda S: S.v('i'); jv = lambda S: S.v('j')
    mn = lambda a, b: z3.If(a < b, a, b)
    def state(S, val):
        """rows done: the tip; current row: T(K, val(ix)); pending rows: T(K, 0)"""
        d = dd(S); r = R(S); A = comps(S.v('ctps_copy').elem); out = [('size', S.v('ctps_copy').len == st['N'])]
        for c, a in enumerate(A):
            T = st['T'][d][c]
            out.append((f'rows done, component {c}', all_(K, z3.Implies(z3.And(r.act(K), r.gr(K) < cur(S), r.ix(K) == 0), a[K] == T(K, r.n)), a[K])))
            out.append((f'rows pending, component {c}', all_(K, z3.Implies(z3.And(r.act(K), (r.gr(K) > cur(S)) if val else (r.gr(K) >= cur(S))), a[K] == T(K, 0)), a[K])))
            if val: out.append((f'current row, component {c}', all_(K, z3.Implies(z3.And(r.act(K), r.gr(K) == cur(S)), a[K] == T(K, val(r.ix(K)))), a[K])))
        return out
    def inv0(S): return state(S, None) + [('row', z3.And(0 <= cur(S), cur(S) <= R(S).G))]
    def inv1(S):
        n = R(S).n; i = iv(S)
        return state(S, lambda x: mn(i, n - x)) + [('iteration', z3.And(0 <= i, i <= n + 1))]
    def inv2(S):
        n = R(S).n; i, j = iv(S), jv(S)
        return state(S, lambda x: z3.If(x < j, mn(i + 1, n - x), mn(i, n - x))) + [('index', z3.And(0 <= j, j <= n - i))]
    def body2(S):
        d = dd(S); ex = S.ex; k = R(S).at(ex, jv(S), cur(S)); k1 = R(S).at(ex, jv(S) + 1, cur(S)); x = st['x'][d]; r = iv(S)
        for T in st['T'][d]: ex.assume(T(k, r + 1) == (1 - x) * T(k, r) + x * T(k1, r))
    h_ = lambda f: (lambda S: (f(S), None)[1])
    loops = {0: LoopSpec(inv0, variant=lambda S: R(S).G - cur(S)),
             1: LoopSpec(inv1, variant=lambda S: R(S).n + 1 - iv(S)),
             2: LoopSpec(inv2, variant=lambda S: R(S).n - jv(S), lem_body=h_(body2))}
    if D == 1: loops = {0: loops[1], 1: loops[2]}           # a single row: the row loop has the constant bound 1
    def post(ex, s, ret, th):
        r = comps(ex.read(ret)); st['R'][D - 1].at(ex, I(0), I(0))
        for c in range(st['nc']): ex.oblige(f'value after the last direction (Lean casteljau_rows: the spline value), component {c}', r[c] == st['T'][D - 1][c](0, st['R'][D - 1].n), 'post')
        eq_spline(ex, 'operand unchanged', th, st['v'], 'frame')
    return GU(f'Evaluate {name(D, p)}, every degree', 'Evaluate', D, p, r'\(const (bezman::)?(BezierSpline<.*>::)?(PointTypeParametric_|Point|double)', 1, setup, post, loops, const=True)
BA = z3.ArraySort(Z, RS)
BERN = z3.Function('bernstein basis', Z, RS, BA)          # BERN(n, x)[i]: the i-th Bernstein value of degree n (C03: every n < 30)
BERND = z3.Function('bernstein basis derivative', Z, RS, Z, BA)          # BERND(n, x, k)[i]: k-th derivative of the i-th Bernstein polynomial (C04)
class BernD(vl.VC):
    fname = 'EvaluateDerivative'; proved = 'C04'
    def rec_ok(s, r): return r.startswith('BernsteinPolynomial<')
    def apply(s, ex, fn, this, args):
        ex.lemmas_used.add('contract BernsteinPolynomial::EvaluateDerivative (C04)')
        n, x, k = [ex.read(a) for a in args]
        ex.oblige('degree in the supported range', z3.And(0 <= n, n < 30), 'pre')
        ex.oblige('order not negative', k >= 0, 'pre')
        return VecV(n + 1, BERND(n, x, k))
class Bern(vl.VC):
    fname = 'Evaluate'; proved = 'C03'
    def rec_ok(s, r): return r.startswith('BernsteinPolynomial<')
    def apply(s, ex, fn, this, args):
        ex.lemmas_used.add('contract BernsteinPolynomial::Evaluate (C03)')
        n, x = [ex.read(a) for a in args]
        ex.oblige('degree in the supported range', z3.And(0 <= n, n < 30), 'pre')
        return VecV(n + 1, BERN(n, x))
def bsetup(st, D, p, der=False):
    def setup(ex, s):
        v = mk_spline(ex, D, p, 's'); st['v'] = v; dg = v.f['degrees'].e; st['dg'] = dg
        ex.assume([d < 30 for d in dg])
        st['x'] = [z3.Real(f'x{d}') for d in range(D)]
        if not der: return v, [ArrV(st['x'])]
        st['o'] = [z3.Int(f'order{d}') for d in range(D)]
        for o in st['o']: ex.assume(o >= 0)
        return v, [ArrV(st['x']), ArrV(st['o'])]
    return setup
def bern(st, d): return BERND(st['dg'][d], st['x'][d], st['o'][d]) if 'o' in st else BERN(st['dg'][d], st['x'][d])
VAL = z3.Function('basis value', Z, RS)
def basis(D, p, der=False):
    """BasisFunctions: val(i0 + (n0+1)*(i1 + ...)) = product of the Bernstein values (Lean bp, bp_at)"""
    st = {}
    def idx(S, k):
        """entry counters of the loops 0..k (k-th nested: direction D-1-k)"""
        return idxs_(S)[:k + 1]
    def pos(S, k):
        """number of values produced when the loops 0..k stand at their counters"""
        c = idx(S, k); n = 0
        for d in range(D - 1, -1, -1): n = n * (st['dg'][d] + 1) + (c[D - 1 - d] if D - 1 - d <= k else 0)
        return poly.norm_int(I(0) + n)
    def inv(k):
        def f(S):
            r = S.v('result'); c = idx(S, k)[k]
            return [('count', r.len == pos(S, k)), ('entry', z3.And(0 <= c, c <= st['dg'][D - 1 - k] + 1)), ('values so far', all_(K, z3.Implies(z3.And(0 <= K, K < r.len), r.elem[K] == VAL(K)), r.elem[K]))]
        return f
    def body(S):
        ex = S.ex; c = idx(S, D - 1); v = RV(1)
        for d in range(D): v = v * bern(st, D - 1 - d)[c[d]]
        ex.assume(VAL(pos(S, D - 1)) == v); nonneg(S, D - 1)
    def nonneg(S, k):
        """the count is not negative"""
        c = idx(S, k); n = I(0)
        for d in range(D - 1, -1, -1):
            i = c[D - 1 - d] if D - 1 - d <= k else I(0)
            if as_int(n) is None: prodnn(S.ex, n, st['dg'][d])
            n = poly.norm_int(n * (st['dg'][d] + 1) + i); lem(S.ex, 'count', n >= 0)
    h_ = lambda f: (lambda S: (f(S), None)[1])
    loops = {k: LoopSpec(inv(k), variant=lambda S, k=k: st['dg'][D - 1 - k] + 1 - idx(S, k)[k], lem_body=h_(body) if k == D - 1 else None) for k in range(D)}
    def post(ex, s, ret, th):
        r = ex.read(ret); N = ncp(st['dg'])
        ex.oblige('one value per control point', r.len == N, 'post')
        k = z3.Int('k'); ex.assume([0 <= k, k < N])
        ex.oblige('value k is the basis function k', r.elem[k] == VAL(k), 'post')
        eq_spline(ex, 'operand unchanged', th, st['v'], 'frame')
    fn = 'BasisFunctionsDerivatives' if der else 'BasisFunctions'
    return GU(f'{fn} {name(D, p)}, every degree', fn, D, p, r'\(const (bezman::)?(BezierSpline<.*>::)?(PointTypeParametric_|Point|double)', 2 if der else 1, bsetup(st, D, p, der), post, loops, const=True, contracts=[BernD() if der else Bern()])
def idxs_(S):
    """loop counters i_entry of the active RecursiveCombine_ frames, outermost first"""
    return [S.ex.read(f.vars[f.names['i_entry']]) for f in S.ex.frames if 'i_entry' in f.names]
class Basis(vl.VC):
    """BasisFunctions(position) / BasisFunctionsDerivatives(position, orders): one value per control point"""
    def __init__(s, fname, D, proved): s.fname = fname; s.D = D; s.proved = proved; s.B = z3.Array('basis values', Z, RS); s.args = None
    def match(s, f): return super().match(f) and re.match(r'(std::)?array|Point|double', tname(ptype(C.ptypes(f)[0])) or '') is not None
    def go(s, ex, Dp, v, a, this, args):
        wf(ex, v, 'operand', 'pre')
        for d in v.f['degrees'].e: ex.oblige('degree in the supported range', d < 30, 'pre')
        s.args = a
        return VecV(ncp(v.f['degrees'].e), s.B)
def wsum(fname, basis_fn, D, p, proved, extra=(), assume=None):
    """value = sum over the control points of basis value times control point (partial sums by a recursive ghost function)"""
    st = {}
    b = Basis(basis_fn, D, proved)
    PS = None
    def setup(ex, s):
        r = bsetup(st, D, p)(ex, s); st['PS'] = [z3.Function(f'partial sum {c}', Z, RS) for c in range(len(arrs(st['v'])))]
        for f in st['PS']: ex.assume(f(0) == 0)
        st['e'] = [e(D) for e in extra]
        return r[0], r[1] + [x for x in st['e']]
    def k(S): return S.v('i_basis_function')
    def inv(S):
        e = comps(S.v('evaluation_point'))
        return [('index', z3.And(0 <= k(S), k(S) <= ncp(st['dg'])))] + [(f'partial sum, component {c}', e[c] == f(k(S))) for c, f in enumerate(st['PS'])]
    def body(S):
        for c, f in enumerate(st['PS']): S.ex.assume(f(k(S) + 1) == f(k(S)) + b.B[k(S)] * arrs(st['v'])[c][k(S)])
    def post(ex, s, ret, th):
        r = comps(ex.read(ret))
        for c, f in enumerate(st['PS']): ex.oblige(f'sum over all control points, component {c}', r[c] == f(ncp(st['dg'])), 'post')
        ok = b.args is not None and all(z3.eq(simp(x), simp(y)) for v, w in zip(b.args, [ArrV(st['x'])] + st['e']) for x, y in zip(v.e, w.e))
        ex.oblige('basis functions at the given position (and orders)', ok, 'post')
        eq_spline(ex, 'operand unchanged', th, st['v'], 'frame')
    return GU(f'{fname} {name(D, p)}, every degree', fname, D, p, r'\(const (bezman::)?(BezierSpline<.*>::)?(PointTypeParametric_|Point|double)', 1 + len(extra), setup, post,
              {0: LoopSpec(inv, variant=lambda S: ncp(st['dg']) - k(S), lem_body=lambda S: (body(S), None)[1])}, const=True, contracts=[b])
TY = [(D, p) for D in (1, 2, 3) for p in (0, 3 if D == 3 else 2)]
def contrib(D, p, der=False):
    """one vector of Bernstein values per direction"""
    st = {}
    def post(ex, s, ret, th):
        r = ex.read(ret); j = z3.Int('j')
        for d in range(D):
            ex.oblige(f'direction {d}: degree+1 values', r.e[d].len == st['dg'][d] + 1, 'post')
            ex.oblige(f'direction {d}: Bernstein values', z3.Implies(z3.And(0 <= j, j <= st['dg'][d]), r.e[d].elem[j] == bern(st, d)[j]), 'post')
    fn = 'BasisFunctionsDerivativeContributions' if der else 'BasisFunctionContributions'
    return GU(f'{fn} {name(D, p)}, every degree', fn, D, p, r'\(const (bezman::)?(BezierSpline<.*>::)?(PointTypeParametric_|Point|double)', 2 if der else 1, bsetup(st, D, p, der), post, const=True, contracts=[BernD() if der else Bern()])
UNITS = [evaluate(D, p) for D, p in TY] + [basis(D, p) for D, p in TY] + [contrib(D, p) for D, p in TY] + [wsum('ForwardEvaluate', 'BasisFunctions', D, p, 'C05 units "BasisFunctions, every degree"') for D, p in TY]
class PointForm(vl.VC):
    """the overload taking one parametric point (proved above)"""
    const = True; proved = 'C05, unit "every degree"'
    def __init__(s, fname, val): s.fname = fname; s.val = val; s.args = None
    def match(s, f): return super().match(f) and len(f.params) == 1 and re.search(r'Point', f.type.split('(', 1)[1]) is not None
    def go(s, ex, Dp, v, a, this, args): s.args = a; s.op = v; wf(ex, v, 'operand', 'pre'); return s.val
def scalars(fname, D, p):
    """overload taking separate scalars: the same value"""
    st = {}
    tok = {'BasisFunctions': VecV(z3.Int('len'), z3.Array('vals', Z, RS)), 'BasisFunctionContributions': ArrV([VecV(z3.Int(f'len{d}'), z3.Array(f'vals{d}', Z, RS)) for d in range(D)])}.get(fname) or (z3.Real('val') if p == 0 else ArrV([z3.Real(f'val{c}') for c in range(p)]))
    pf = PointForm(fname, tok)
    def setup(ex, s): r = bsetup(st, D, p)(ex, s); return r[0], st['x']
    def lv(x): return [x.len] + comps(x.elem) if isinstance(x, VecV) else sum([lv(y) for y in x.e], []) if isinstance(x, ArrV) else [x]
    def post(ex, s, ret, th):
        ok = pf.args is not None and all(z3.eq(simp(x), y) for x, y in zip(pf.args[0].e, st['x']))
        ex.oblige('evaluated at the given position', ok, 'post')
        if pf.args is not None: eq_spline(ex, 'the same spline', pf.op, st['v'])
        for x, y in zip(lv(ex.read(ret)), lv(tok)): ex.oblige('the same value', x == y, 'post')
    return GU(f'{fname} of {D} scalars {name(D, p)}, every degree', fname, D, p, None, D, setup, post, const=True, contracts=[pf], pred=lambda f: 'Point' not in f.type.split('(', 1)[1] and 'std::array' not in f.type.split('(', 1)[1])
UNITS += [scalars(f, D, p) for D, p in TY for f in ('Evaluate', 'ForwardEvaluate', 'BasisFunctions', 'BasisFunctionContributions')]
