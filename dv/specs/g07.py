"""Degree elevation: closed form for every degree, stride and group count."""
from specs.gh import *
K = z3.Int('kk')
def elevate(D, p, pd):
    st = {}
    def setup(ex, s):
        d = Dim(ex, D, p, pd); st['d'] = d
        st['F'] = [z3.Function(f'F{c}', z3.IntSort(), z3.RealSort()) for c in range(len(d.comps()))]
        return d.val, [I(pd)]
    def closed(c, a, i, h):
        d = st['d']; P = d.comps()[c]; n1 = d.n + 1
        ph = z3.ToReal(i) * (RV(1) / z3.ToReal(n1))
        hi, lo = P[d.at(a, i, h)], P[d.at(a, i - 1, h)]
        return z3.If(i == 0, hi, z3.If(i == n1, lo, hi * (1 - ph) + lo * ph))
    def define(ex, a, i, h):
        """F at the position of (a, i, h) in the elevated layout is the closed form (definition)"""
        d = st['d']
        for nm, g in (('row offset', z3.And(0 <= a, a < d.S)), ('index', z3.And(0 <= i, i <= d.n + 1)), ('group', z3.And(0 <= h, h < d.G))): ex.oblige('defined position: ' + nm, g, 'lemma')
        k = d.at(a, i, h, d.n + 1)
        for x in (h, d.G - 1 - h, i, d.n + 1 - i): prodnn(ex, d.S, x)
        for x, y in ((d.n, h), (d.n, d.G - 1 - h)): prodnn(ex, x, y); prodnn(ex, poly.norm_int(d.S * d.n), y)
        for c in range(len(d.comps())): ex.assume(st['F'][c](k) == closed(c, a, i, h))
        return k
    def inv_at(cur):
        def inv(S):
            d = st['d']; v = simp(cur(S)); th = S.this; A = arrs(th); N2 = th.f['control_points'].len
            out = [('position', S.v('global_index') == wrapped(v)), ('range', z3.And(v >= -1, v < N2)), ('size', N2 == d.S * (d.n + 2) * d.G)]
            for c, a in enumerate(A):
                out.append((f'done {c}', all_(K, z3.Implies(z3.And(v < K, K < N2), a[K] == st['F'][c](K)), a[K])))
                out.append((f'pending {c}', all_(K, z3.Implies(z3.And(0 <= K, K <= v, K < d.N), a[K] == d.comps()[c][K]), a[K])))
            return out
        return inv
    def G(S): return S.v('group_index')
    def J(S): return S.v('index_in_group')
    d_ = lambda: st['d']
    def curg(S): return poly.norm_int(d_().S * (d_().n + 2) * (G(S) + 1) - 1)
    def mk(i):
        """row loop at degree index i(S)"""
        def cur(S): return poly.norm_int(J(S) + d_().S * (i(S) + (d_().n + 2) * G(S)))
        base = inv_at(cur)
        def inv(S): return base(S) + [('row offset', z3.And(J(S) >= -1, J(S) < d_().S)), ('group', z3.And(0 <= G(S), G(S) < d_().G))] + ([('index', z3.And(i(S) >= 1, i(S) <= d_().n))] if i is iv else [])
        def hints(S):
            ex = S.ex; d = st['d']
            for x in (G(S), d.G - 1 - G(S), i(S), d.n + 1 - i(S)): prodnn(ex, d.S, x)
            for y in (G(S), d.G - 1 - G(S)): prodnn(ex, d.n, y); prodnn(ex, poly.norm_int(d.S * d.n), y)
        return LoopSpec(inv, lem_body=lambda S: (hints(S), define(S.ex, J(S), i(S), G(S)), None)[2], lem_init=lambda S: (hints(S), None)[1], variant=lambda S: J(S) + 1)
    def iv(S): return S.v('i')
    top = lambda S: d_().n + 1
    zero = lambda S: I(0)
    def invg(S): return inv_at(curg)(S) + [('group', z3.And(G(S) >= -1, G(S) < d_().G))]
    def hg(S):
        ex = S.ex; d = st['d']
        for y in (G(S) + 1, d.G - 1 - G(S)): prodnn(ex, d.S, y); prodnn(ex, d.n, y); prodnn(ex, poly.norm_int(d.S * d.n), y)
    def curi(S): return poly.norm_int(d_().S * (iv(S) + 1 + (d_().n + 2) * G(S)) - 1)
    def invi(S): return inv_at(curi)(S) + [('index', z3.And(0 <= iv(S), iv(S) <= d_().n)), ('group', z3.And(0 <= G(S), G(S) < d_().G))]
    def hi(S):
        ex = S.ex; d = st['d']
        for x in (G(S), d.G - 1 - G(S), iv(S), d.n - iv(S)): prodnn(ex, d.S, x)
        for y in (G(S), d.G - 1 - G(S)): prodnn(ex, d.n, y); prodnn(ex, poly.norm_int(d.S * d.n), y)
    loops = {0: LoopSpec(invg, variant=lambda S: G(S) + 1, lem_init=lambda S: (hg(S), None)[1], lem_body=lambda S: (hg(S), None)[1], lem_end=lambda S: (hg(S), None)[1]),
             1: mk(top), 2: LoopSpec(invi, variant=iv, lem_init=lambda S: (hi(S), None)[1], lem_body=lambda S: (hi(S), None)[1], lem_end=lambda S: (hi(S), None)[1]), 3: mk(iv), 4: mk(zero)}
    def post(ex, s, ret, th):
        d = st['d']; nd = list(d.degs); nd[pd] = d.n + 1
        degs_are(ex, 'elevated', th, nd); wf(ex, th, 'elevated')
        a, i, h = z3.Ints('a i h')
        ex.assume(z3.And(0 <= a, a < d.S, 0 <= i, i <= d.n + 1, 0 <= h, h < d.G))
        k = define(ex, a, i, h); A = arrs(th)
        ex.oblige('position inside the vector', z3.And(0 <= k, k < th.f['control_points'].len), 'lemma')
        for c in range(len(A)): ex.oblige(f'elevated control point, component {c}', A[c][k] == closed(c, a, i, h), 'post')
    return GU(f'OrderElevateAlongParametricDimension({pd}) {name(D, p)}, every degree', 'OrderElevateAlongParametricDimension', D, p, '', 1, setup, post, loops)
UNITS = [elevate(D, p, pd) for D in (1, 2, 3) for pd in range(D) for p in (0, 3 if D == 3 else 2)]
