"""Unbounded layer: kernels against closed forms for every degree (symbolic), any stride and group count."""
from specs.c01 import SU, name, eq_vec, eq_spline, degs_are, pvec, darr, flat
from specs.common import *
from sym import has_ite
RV = z3.RealVal
def prodnn(ex, a, b, nm='product of non-negatives'):
    """a, b >= 0 |- a*b >= 0 (factors are obligations, the conclusion is the ring axiom)"""
    a, b = simp(a), simp(b)
    if as_int(a) is not None or as_int(b) is not None: return
    ex.oblige(f'{nm}: left', a >= 0, 'lemma'); ex.oblige(f'{nm}: right', b >= 0, 'lemma')
    ex.assume(poly.norm_int(a * b) >= 0)
def all_(k, g, *pats):
    if any(has_ite(p) or p.num_args() == 0 or not z3.is_const(p.arg(0)) for p in pats): return z3.ForAll([k], g)
    return z3.ForAll([k], g, patterns=list(pats))
def wrapped(v, bits=32): return z3.If(v >= 0, v, v + (1 << bits))
class Dim:
    """a spline seen along one parametric direction: N = S*(n+1)*G, position a + S*(i + (n+1)*h)"""
    def __init__(s, ex, D, p, pd, nm='s'):
        s.D, s.p, s.pd = D, p, pd
        degs = [z3.Int(f'{nm}.p{d}') for d in range(D)]
        for d in degs: ex.assume(d >= 0)
        s.degs = degs; s.n = degs[pd]
        lo, hi = prod([d + 1 for d in degs[:pd]]), prod([d + 1 for d in degs[pd + 1:]])
        s.S = z3.Int(f'{nm}.S'); s.G = z3.Int(f'{nm}.G')
        for v, e in ((s.S, lo), (s.G, hi)): ex.assume(v == e); ex.assume(v >= 1)
        s.N = poly.norm_int(s.S * (s.n + 1) * s.G)
        off = offsets(degs)
        off[pd] = s.S
        if pd + 1 < D: off[pd + 1] = poly.norm_int(s.S * (s.n + 1))
        t = ptype(spline_t(D, p)); r = ex.rec_of(t)
        if {x for x, *_ in r.fields} != {'degrees', 'index_offsets', 'number_of_control_points', 'control_points'}: raise Unsupported('spline fields changed')
        s.P = ex.symb_lift(ptype(PT(p)), f'{nm}.cp', 1)
        s.val = RecV(t[1], {'degrees': ArrV(degs), 'index_offsets': ArrV(off), 'number_of_control_points': s.N, 'control_points': VecV(s.N, s.P)})
        ex.assume(s.N < 2 ** 31); ex.assume(s.N >= 1)
    def comps(s): return comps(s.P)
    def at(s, a, i, h, n=None): return poly.norm_int(a + s.S * (i + ((s.n if n is None else n) + 1) * h))
def arrs(sp): return comps(sp.f['control_points'].elem)
class GU(SU):
    no_auto = True; rec_cvec = True; timeout = 12; norm_index = True; soft = True; throws = False
    def __init__(s, label, fname, D, p, sig, np, setup, post, loops=None, contracts=(), throws=False, **k):
        super().__init__(label, fname, D, p, sig, np, setup, post, **k); s.loops = loops; s.contracts = list(contracts); s.throws = throws
    def post(s, ex, fn, ret):
        if s.throws: ex.oblige('must be rejected with an error', False, 'raises')
        else: super().post(ex, fn, ret)
    def on_throw(s, ex, fn): ex.oblige('rejected with an error' if s.throws else 'must not raise', s.throws, 'raises')
def lem(ex, nm, g):
    ex.oblige('lemma: ' + nm, g, 'lemma'); ex.assume(g)
def mono(ex, S, x, y, nm='quotient below'):
    """S >= 1, S*x < S*y |- x < y   (x >= y would give S*(x-y) >= 0)"""
    lem(ex, nm, z3.Implies(x >= y, poly.norm_int(S * (x - y)) >= 0))
class Rows:
    """positions of a Dim as (row, index): row = a + S*h, index i; ghost bijection (layout lemma of C01 for the shape (S, n+1, G))"""
    def __init__(s, ex, d, n=None, nm='r'):
        s.d, s.n, s.nm = d, d.n if n is None else n, nm
        Z = z3.IntSort()
        s.rk, s.ix, s.ps = z3.Function(nm + '.rk', Z, Z), z3.Function(nm + '.ix', Z, Z), z3.Function(nm + '.ps', Z, Z, Z)
        s.N = poly.norm_int(d.S * (s.n + 1) * d.G); s.R = poly.norm_int(d.S * d.G)
        k = z3.Int('k!'); s.dom = lambda k: z3.And(0 <= k, k < s.N)
        ex.assume(z3.ForAll([k], z3.Implies(s.dom(k), z3.And(s.ps(s.rk(k), s.ix(k)) == k, 0 <= s.ix(k), s.ix(k) <= s.n, 0 <= s.rk(k), s.rk(k) < s.R)), patterns=[s.rk(k)]))
        ex.lemmas_used.add('layout bijection of the shape (S, n+1, G) (C01 layout lemma)')
    def at(s, ex, a, i, h):
        d = s.d; n = s.n
        for nm, g in (('row offset', z3.And(0 <= a, a < d.S)), ('index', z3.And(0 <= i, i <= n)), ('group', z3.And(0 <= h, h < d.G))): ex.oblige('position: ' + nm, g, 'lemma')
        for x in (h, d.G - 1 - h, i, n - i): prodnn(ex, d.S, x)
        for y in (h, d.G - 1 - h): prodnn(ex, n, y); prodnn(ex, poly.norm_int(d.S * n), y)
        k = d.at(a, i, h, n); r = poly.norm_int(a + d.S * h)
        ex.assume([s.rk(k) == r, s.ix(k) == i, s.ps(r, i) == k])
        lem(ex, 'position inside the vector', z3.And(0 <= k, k < s.N))
        return k
    def split_row(s, ex, r):
        """0 <= r < S*G |- r = a + S*h with a = r mod S, h = r div S in range"""
        S, G = s.d.S, s.d.G; h, a = idiv(r, S), imod(r, S)
        ex.assume(euclid(r, S)); mono(ex, S, h, G); mono(ex, S, I(-1), h, 'quotient not negative')
        lem(ex, 'row digits', z3.And(0 <= a, a < S, 0 <= h, h < G, r == a + S * h))
        return a, h

def parts_of(r, n):
    """the n elements of a returned sequence, however the code builds it; None: another number of elements"""
    if isinstance(r, CVec): return list(r.e) if len(r.e) == n else None
    if not isinstance(r, VecV): raise Unsupported('result is no vector')
    m = as_int(z3.simplify(r.len))
    if m is None: raise Unsupported('number of returned elements')
    return [mapl(z3.simplify, vsel(r, I(i))) for i in range(n)] if m == n else None
