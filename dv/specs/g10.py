"""Products for every pair of degrees whose sum is in the supported range; powers by the contract of the product."""
from specs.gh import *
from specs import vl
from specs.g09 import xs_, valid
K = z3.Int('kk'); Z, RS = z3.IntSort(), z3.RealSort()
CH = z3.Function('choose', Z, Z, Z)
class Choose(vl.VC):
    """FastBinomialCoefficient::choose(n, k) = C(n, k) > 0 for 0 <= k <= n < 30 (C03)"""
    fname = 'choose'
    def rec_ok(s, r): return r.startswith('FastBinomialCoefficient')
    def apply(s, ex, fn, this, args):
        ex.lemmas_used.add('contract FastBinomialCoefficient::choose (C03)')
        n, k = [ex.read(a) for a in args]
        ex.oblige('binomial coefficient in the supported range', z3.And(0 <= k, k <= n, n < 30), 'pre')
        ex.assume([CH(n, k) >= 1, CH(n, k) <= 77558760])        # the largest entry of the table: C(29, 14)
        return CH(n, k)
class L2G(vl.VC):
    """LocalToGlobalIndex(k): the digits of k (C01)"""
    fname = 'LocalToGlobalIndex'; proved = 'C01'
    def __init__(s, note=None): s.note = note
    def go(s, ex, Dp, v, a, this, args):
        dg = v.f['degrees'].e; k = a[0]; wf(ex, v, 'operand', 'pre')
        ex.oblige('position inside', z3.And(0 <= k, k < ncp(dg)), 'pre')
        from val import _ctr
        _ctr[0] += 1
        ix = [z3.Int(f'idx{d}!{_ctr[0]}') for d in range(len(dg))]
        for x, d in zip(ix, dg): ex.assume(z3.And(0 <= x, x <= d))
        ex.assume(flat(dg, ix) == k)
        if s.note: s.note(ex, ix, k)
        return ArrV(ix)
def flat_in(ex, dg, ix):
    """0 <= ix_d <= dg_d |- the flat position is inside the count"""
    for d, (x, n) in enumerate(zip(ix, dg)): ex.oblige(f'index {d} inside', z3.And(0 <= x, x <= n), 'lemma')
    D = len(dg)
    for d in range(1, D):
        # off_d * ix_d >= 0 and off_d * (dg_d - ix_d) >= 0, off_d a product of positive counts: expand into monomials of non-negatives
        o = offsets(dg)[d]
        for y in (ix[d], dg[d] - ix[d]):
            for T in subsets(dg[:d]): 
                if T: ex.assume(poly.norm_int(prod(T) * y) >= 0)
    lem(ex, 'position inside', z3.And(0 <= flat(dg, ix), flat(dg, ix) < ncp(dg)))
def subsets(l):
    out = [[]]
    for x in l: out += [s + [x] for s in out]
    return out
def product(D, p, q, alias=False):
    st = {}; xs = xs_(D)
    ncr = 1 if (p == 0 and q == 0) or (p and q) else max(p, q)
    def setup(ex, s):
        st.clear()
        a = st['a'] = mk_spline(ex, D, p, 'a'); b = st['b'] = a if alias else mk_spline(ex, D, q, 'b')
        st['m'], st['n'] = a.f['degrees'].e, b.f['degrees'].e
        for x, y in zip(st['m'], st['n']): ex.assume(x + y < 30)
        st['dg'] = [simp(x + y) for x, y in zip(st['m'], st['n'])]
        # S[d](position, i_0 .. i_{d-1}, j): sum over i_d below j of everything inside
        st['S'] = [[z3.Function(f'sum{d}.{c}', *([Z] * (d + 2)), RS) for c in range(ncr)] for d in range(D)]
        st['PR'] = [z3.Function(f'product control point {c}', Z, RS) for c in range(ncr)]
        for d in range(1, D):
            for off in (offsets(st['m']), offsets(st['n']), offsets(st['dg'])): ex.assume(off[d] >= 1)
        return a, [b]
    def cur(S): return S.v('i') if False else top_i(S)
    def frames(S, nm): return [S.ex.read(f.vars[f.names[nm]]) for f in S.ex.frames if nm in f.names]
    def top_i(S): return frames(S, 'i')[0]
    def inner(S): return frames(S, 'i')[1:]
    def kk(S): return frames(S, 'ctpsIndex')[0].e
    def lo(S, d): k, n = kk(S)[d], st['n'][d]; return z3.If(k - n > 0, k - n, I(0))
    def hi(S, d): k, m = kk(S)[d], st['m'][d]; return z3.If(k < m, k, m)
    def res(S): return frames(S, 'return_spline')[0]
    def A(S): return arrs(res(S))
    def rest(S):
        i = top_i(S); out = [('size', res(S).f['control_points'].len == ncp(st['dg']))]
        for c, a in enumerate(A(S)):
            out.append((f'done, component {c}', all_(K, z3.Implies(z3.And(0 <= K, K < i), a[K] == st['PR'][c](K)), a[K])))
        return out
    def inv0(S):
        i = top_i(S); out = rest(S) + [('position', z3.And(0 <= i, i <= ncp(st['dg'])))]
        for c, a in enumerate(A(S)): out.append((f'pending, component {c}', all_(K, z3.Implies(z3.And(i <= K, K < ncp(st['dg'])), a[K] == 0), a[K])))
        return out
    def part(S, d, j=None):
        """value accumulated at the current position inside the loops 0..d"""
        i = top_i(S); js = inner(S)[:d + 1]
        if j is not None: js = js[:d] + [j]
        out = []
        for c in range(ncr): out.append(sum((st['S'][e][c](i, *js[:e + 1]) for e in range(d + 1)), RV(0)))
        return out
    def inv(d):
        def f(S):
            i = top_i(S); j = inner(S)[d]; out = rest(S) + [('inner index', z3.And(lo(S, d) <= j, j <= hi(S, d) + 1))]
            for c, a in enumerate(A(S)):
                out.append((f'pending, component {c}', all_(K, z3.Implies(z3.And(i < K, K < ncp(st['dg'])), a[K] == 0), a[K])))
                out.append((f'partial sum, component {c}', a[i] == part(S, d)[c]))
            return out
        return f
    def init(d):
        def f(S):
            i = top_i(S); js = inner(S)[:d]
            for c in range(ncr): S.ex.assume(st['S'][d][c](i, *js, lo(S, d)) == 0)
        return f
    def L(S, d, i):
        k, m, n = kk(S)[d], st['m'][d], st['n'][d]
        return z3.ToReal(CH(m, i) * CH(n, simp(k - i))) / z3.ToReal(CH(simp(m + n), k))
    def body(d):
        def f(S):
            i = top_i(S); js = inner(S)[:d + 1]; ex = S.ex; k = kk(S)
            if d < D - 1:
                e = hi(S, d + 1) + 1
                for c in range(ncr): ex.assume(st['S'][d][c](i, *js[:-1], js[-1] + 1) == st['S'][d][c](i, *js) + st['S'][d + 1][c](i, *js, e))
                return
            lx = [simp(x) for x in js]; rx = [simp(x - y) for x, y in zip(k, js)]
            flat_in(ex, st['m'], lx); flat_in(ex, st['n'], rx)
            P = [x[flat(st['m'], lx)] for x in arrs(st['a'])]; Q = [x[flat(st['n'], rx)] for x in arrs(st['b'])]
            V = [sum((x * y for x, y in zip(P, Q)), RV(0))] if ncr == 1 else [x * y for x in P for y in Q]
            w = RV(1)
            for e in range(d): w = w * L(S, e, js[e])
            for c in range(ncr): ex.assume(st['S'][d][c](i, *js[:-1], js[-1] + 1) == st['S'][d][c](i, *js) + V[c] * w * L(S, d, js[-1]))
        return f
    def body0(S): pass
    def exit1(S):
        i = top_i(S)
        for c in range(ncr): S.ex.assume(st['PR'][c](i) == st['S'][0][c](i, hi(S, 0) + 1))
    h_ = lambda f: (lambda S: (f(S), None)[1])
    loops = {0: LoopSpec(inv0, variant=lambda S: ncp(st['dg']) - top_i(S))}
    for d in range(D): loops[d + 1] = LoopSpec(inv(d), variant=lambda S, d=d: hi(S, d) + 1 - inner(S)[d], lem_init=h_(init(d)), lem_body=h_(body(d)), lem_exit=h_(exit1) if d == 0 else None)
    def post(ex, s, ret, th):
        r = ex.read(ret); valid(ex, 'product', r, st['dg']); k = z3.Int('k'); ex.assume([0 <= k, k < ncp(st['dg'])])
        for c in range(ncr): ex.oblige(f'control point k is the product sum (Lean prod{D}), component {c}', arrs(r)[c][k] == st['PR'][c](k), 'post')
        eq_spline(ex, 'operand unchanged', th, st['a'], 'frame')
    want = ptype(spline_t(D, q))[1]
    def pred(f):
        try: return tname(ptype(C.ptypes(f)[0])) == want
        except Exception: return False
    class PU(GU):
        def setup(s, ex, fn):
            r = super().setup(ex, fn)
            return (s.this, [s.this]) if alias else r
    u = PU(f'{name(D, p)} times {"itself" if alias else name(D, q)}, every {"degree" if alias else "pair of degrees"}', 'operator*', D, p, None, 1, setup, post, loops, const=True, contracts=[Choose(), L2G()], pred=pred)
    u.strip_wrap = True
    return u
TY = [(1, 2), (2, 2), (3, 3)]
UNITS = [product(D, a, b) for D, p in TY for a, b in ((0, 0), (0, p), (p, 0), (p, p))]
UNITS += [product(D, a, a, alias=True) for D, p in TY for a in (0, p)]
def power(D):
    """RaisePower by its own contract for half the power and the contract of the product"""
    st = {}; xs = xs_(D); k = z3.Int('power'); R = vl.Raise(xs, k)
    def setup(ex, s):
        v = st['v'] = mk_spline(ex, D, 0, 's'); dg = st['dg'] = v.f['degrees'].e; ex.assume(k >= 0)
        h = k / 2; r = k % 2
        for d in dg:
            ex.assume(k * d < 30); ex.assume([h * d >= 0, r * d >= 0, k * d == 2 * (h * d) + r * d])          # factors are not negative; k = 2*h + r
        x = vl.ev(v, xs)[0]; P = vl.PW
        ex.assume([P(x, I(0)) == 1, P(x, I(1)) == x, z3.Implies(r == 0, P(x, k) == P(x, h) * P(x, h)), z3.Implies(r == 1, P(x, k) == P(x, h) * P(x, h) * x)])
        ex.lemmas_used.add('x^(2h) = x^h x^h, x^(2h+1) = x^h x^h x')
        return v, [k]
    def post(ex, s, ret, th):
        r = ex.read(ret)
        for d, (x, y) in enumerate(zip(r.f['degrees'].e, st['dg'])): ex.oblige(f'degree {d} of the power', x == k * y, 'post')
        wf(ex, r, 'power'); cp = r.f['control_points']
        if as_int(cp.len) == 1: vl.linear(ex, 'power zero', [I(0)] * D, xs, comps(cp.elem)[0], [], RV(1)); ex.oblige('a single control point', z3.And([d == 0 for d in r.f['degrees'].e]), 'post')
        ex.oblige('value of the power', vl.ev(r, xs)[0] == vl.PW(vl.ev(st['v'], xs)[0], k), 'post')
        eq_spline(ex, 'operand unchanged', th, st['v'], 'frame')
    u = GU(f'RaisePower {name(D, 0)}, every degree and power', 'RaisePower', D, 0, None, 1, setup, post, const=True, contracts=[R, vl.Mul(xs)])
    u.strip_wrap = True
    return u
UNITS += [power(D) for D in (1, 2, 3)]
