"""Derivatives for every degree and order."""
from specs.gh import *
from specs import vl
from specs.g05 import Act, basis, contrib, wsum, bsetup, TY
import specs.g05 as g05
from specs.g10 import CH, Choose, L2G, flat_in, subsets
K = z3.Int('kk'); Z, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
def frames(S, nm): return [S.ex.read(f.vars[f.names[nm]]) for f in S.ex.frames if nm in f.names]
SG = lambda j: z3.If(j % 2 == 0, RV(1), RV(-1))
def digits(ex, i, nd):
    """digits of 0 <= i < count in the mixed base nd+1, as the source computes them; proved in range and to recompose i"""
    D = len(nd); M = [ncp(nd[d:]) if d < D else I(1) for d in range(D + 1)]; x = []; q = i
    for d in range(D):
        b = simp(nd[d] + 1); ex.assume(euclid(q, b)); x.append(simp(imod(q, b)))
        lem(ex, f'digit {d} in range', z3.And(0 <= x[d], x[d] <= nd[d]))
        if d == D - 1: mono(ex, b, I(0), I(1)) if False else None
        nq = idiv(q, b)
        if d < D - 1:
            mono(ex, b, nq, M[d + 1]); mono(ex, b, I(-1), nq, 'quotient not negative')
            lem(ex, f'quotient {d}', z3.And(0 <= nq, nq < M[d + 1]))
        else:
            mono(ex, b, nq, I(1)); mono(ex, b, I(-1), nq, 'quotient not negative'); lem(ex, 'last quotient', nq == 0)
        q = nq
    return x
class Shape:
    """positions (original layout) whose digits are inside the current degrees nd, numbered by their position in the layout of nd (unique digits, C01 layout lemma)"""
    def __init__(s, ex, nm, dg, nd):
        s.dg, s.nd = dg, nd
        s.act, s.id, s.ps = z3.Function('act' + nm, Z, BS), z3.Function('id' + nm, Z, Z), z3.Function('ps' + nm, Z, Z)
        k = z3.Int('k!')
        ex.assume(z3.ForAll([k], z3.Implies(s.act(k), z3.And(s.ps(s.id(k)) == k, s.id(k) >= 0)), patterns=[s.act(k)]))
        ex.lemmas_used.add('layout bijection (C01 layout lemma)')
    def at(s, ex, x):
        """x inside the original degrees"""
        flat_in(ex, s.dg, x); k = flat(s.dg, x)
        ins = z3.And([a <= n for a, n in zip(x, s.nd)])
        ex.assume([s.act(k) == ins, z3.Implies(ins, z3.And(s.id(k) == flat(s.nd, x), s.ps(flat(s.nd, x)) == k))])
        return k
def deriv(D, p, sub):
    st = {}
    def setup(ex, s):
        st.clear(); v = st['v'] = mk_spline(ex, D, p, 's'); dg = st['dg'] = v.f['degrees'].e; nc = st['nc'] = len(arrs(v))
        o = st['o'] = [z3.Int(f'order{d}') if d in sub else I(0) for d in range(D)]
        for d in sub: ex.assume([o[d] >= 1, o[d] <= dg[d], o[d] < 30])
        st['PS'] = {d: [z3.Function(f'fd{d}.{c}', Z, Z, RS) for c in range(nc)] for d in sub}
        st['FAC'] = {d: z3.Function(f'falling{d}', Z, RS) for d in sub}
        for d in sub: ex.assume(st['FAC'][d](1) == z3.ToReal(dg[d]))
        st['nd'] = [simp(a - b) for a, b in zip(dg, o)]; st['q'] = z3.Function('original position', Z, Z)
        for d in range(1, D): ex.assume(offsets(dg)[d] >= 1)
        st['stage'] = {}
        return v, [ArrV(o)]
    def dd(S): return as_int([x for x in frames(S, 'i_para_dim')][-1])
    def A(S): return comps(frames(S, 'new_control_points')[0].elem)
    def nd(S): return frames(S, 'new_degrees')[0].e
    def ip(S): return frames(S, 'i_point')[0]
    def V(S, d, c, k): return st['PS'][d][c](k, st['o'][d]) * (SG(st['o'][d]) * st['FAC'][d](st['o'][d]))
    # factor loop
    def invf(S):
        i, k = S.v('i'), S.v('k'); d = dd(S)
        return [('index', z3.And(1 <= i, i <= k)), ('falling factorial', S.v('factor') == st['FAC'][d](i))]
    def bodyf(S):
        d = dd(S); i = S.v('i'); f = st['FAC'][d]; S.ex.assume(f(i + 1) == f(i) * z3.ToReal(st['dg'][d] - i))
    # points
    def initp(S):
        d = dd(S); n = list(nd(S))
        st['stage'][d] = dict(shape=Shape(S.ex, f'{d}', st['dg'], n), E=A(S), nd=n)
        for e in range(D): lem(S.ex, f'degree {e} of the stage', n[e] == (st['nd'][e] if e <= d else st['dg'][e]))
    def state(S, skip=None):
        d = dd(S); g = st['stage'][d]; sh = g['shape']; i = ip(S); out = [('size', frames(S, 'new_control_points')[0].len == ncp(st['dg']))]
        for c, a in enumerate(A(S)):
            w = (lambda g_: z3.Implies(K != skip, g_)) if skip is not None else (lambda g_: g_)
            done = z3.And(sh.act(K), sh.id(K) < i)
            out.append((f'done, component {c}', all_(K, w(z3.Implies(done, a[K] == V(S, d, c, K))), a[K])))
            out.append((f'not yet, component {c}', all_(K, w(z3.Implies(z3.Not(done), a[K] == g['E'][c][K])), a[K])))
        return out
    def invp(S): return state(S) + [('point', z3.And(0 <= ip(S), ip(S) <= ncp(nd(S))))]
    def bodyp(S):
        d = dd(S); ex = S.ex; g = st['stage'][d]; x = digits(ex, ip(S), g['nd'])
        k = g['shape'].at(ex, x); g['x'] = x; g['k'] = k
        lem(ex, 'number of the position', g['shape'].id(k) == ip(S))
        for P, E in zip(st['PS'][d], g['E']): ex.assume(P(k, 0) == E[k])
    def exitp(S):
        d = dd(S); st['stage'][d]['A'] = A(S)
    # neighbours
    def mi(S): return frames(S, 'multi_index')[0].e
    def invj(S):
        d = dd(S); g = st['stage'][d]; j = S.v('j_point_offset'); k = g['k']
        out = state(S, k) + [('offset', z3.And(1 <= j, j <= st['o'][d] + 1))]
        for c, (a, P) in enumerate(zip(A(S), st['PS'][d])): out.append((f'partial sum, component {c}', a[k] == P(k, j - 1)))
        for e, (m, x) in enumerate(zip(mi(S), g['x'])): out.append((f'digit {e}', m == (x + j - 1 if e == d else x)))
        return out
    def bodyj(S):
        d = dd(S); ex = S.ex; g = st['stage'][d]; j = S.v('j_point_offset'); k = g['k']; o = st['o'][d]
        y = [simp(x + j) if e == d else x for e, x in enumerate(g['x'])]
        k2 = g['shape'].at(ex, y)
        w = offsets(g['nd'])[d]
        for q in range(d): prodnn(ex, prod([n + 1 for n in g['nd'][:q]]) if q else I(1), g['nd'][q])
        if d: lem(ex, 'weight of the direction', w >= 1)
        prodnn(ex, w, j - 1)
        lem(ex, 'the neighbour comes later or is never visited', z3.Implies(g['shape'].act(k2), g['shape'].id(k2) > ip(S)))
        prodnn(ex, offsets(st['dg'])[d], j - 1); lem(ex, 'another position', k2 != k)
        for c, (a, E) in enumerate(zip(A(S), g['E'])): lem(ex, f'neighbour unchanged, component {c}', a[k2] == E[k2])
        for P, E in zip(st['PS'][d], g['E']): ex.assume(P(k, j) == P(k, j - 1) + SG(j) * z3.ToReal(CH(o, j)) * E[k2])
    # copy
    def note(ex, ix, k): flat_in(ex, st['dg'], ix); ex.assume(st['q'](k) == flat(st['dg'], ix))
    def initc(S): st['fin'] = A(S)
    def invc(S):
        i = S.v('i_point'); r = S.v('derivative'); out = [('index', z3.And(0 <= i, i <= ncp(st['nd']))), ('size', r.f['control_points'].len == ncp(st['nd']))]
        for c, (a, b) in enumerate(zip(arrs(r), st['fin'])): out.append((f'copied, component {c}', all_(K, z3.Implies(z3.And(0 <= K, K < i), a[K] == b[st['q'](K)]), a[K])))
        return out
    h_ = lambda f: (lambda S: (f(S), None)[1])
    L = [LoopSpec(invf, variant=lambda S: S.v('k') - S.v('i'), lem_body=h_(bodyf)),
         LoopSpec(invp, variant=lambda S: ncp(nd(S)) - ip(S), lem_init=h_(initp), lem_body=h_(bodyp), lem_exit=h_(exitp)),
         LoopSpec(invj, variant=lambda S: st['o'][dd(S)] + 1 - S.v('j_point_offset'), lem_body=h_(bodyj)),
         LoopSpec(invc, variant=lambda S: ncp(st['nd']) - S.v('i_point'), lem_init=h_(initc))]
    loops = {0: L[3]} if not sub else dict(enumerate(L))
    def post(ex, s, ret, th):
        r = ex.read(ret); wf(ex, r, 'derivative'); degs_are(ex, 'derivative', r, st['nd'])
        y = [z3.Int(f'y{d}') for d in range(D)]
        for a, n in zip(y, st['nd']): ex.assume([0 <= a, a <= n])
        flat_in(ex, st['nd'], y); flat_in(ex, st['dg'], y); k, kq = flat(st['nd'], y), flat(st['dg'], y)
        ex.assume(st['q'](k) == kq)
        for c, a in enumerate(arrs(r)): ex.oblige(f'result entry = entry of the last stage, component {c}', a[k] == st['fin'][c][kq], 'post')
        prev = arrs(st['v'])
        for d in sub:
            g = st['stage'][d]
            for c in range(st['nc']): ex.oblige(f'stage {d} starts from the previous stage, component {c}', all_(K, g['E'][c][K] == prev[c][K], g['E'][c][K]) if not z3.eq(g['E'][c], prev[c]) else True, 'post')
            z = [z3.Int(f'z{d}.{e}') for e in range(D)]
            for a, n in zip(z, g['nd']): ex.assume([0 <= a, a <= n])
            flat_in(ex, g['nd'], z)
            k = g['shape'].at(ex, z)
            for c in range(st['nc']): ex.oblige(f'stage {d} is the scaled difference (Lean stage_fd), component {c}', g['A'][c][k] == st['PS'][d][c](k, st['o'][d]) * (SG(st['o'][d]) * st['FAC'][d](st['o'][d])), 'post')
            prev = g['A']
        for c in range(st['nc']): ex.oblige(f'the last stage is copied, component {c}', z3.BoolVal(z3.eq(st['fin'][c], prev[c])), 'post')
        eq_spline(ex, 'operand unchanged', th, st['v'], 'frame')
    u = GU(f'DerivativeWRTParametricDimension {name(D, p)}, every degree, every order in directions {sub}', 'DerivativeWRTParametricDimension', D, p, None, 1, setup, post, loops, const=True, contracts=[Choose(), L2G(note)])
    u.strip_wrap = True
    return u
def vanish(D, p, d0):
    """an order above the degree: the zero spline"""
    st = {}
    def setup(ex, s):
        v = st['v'] = mk_spline(ex, D, p, 's'); dg = st['dg'] = v.f['degrees'].e; o = st['o'] = [z3.Int(f'order{d}') for d in range(D)]
        for x in o: ex.assume(x >= 0)
        for d in range(d0): ex.assume(o[d] <= dg[d])
        ex.assume(o[d0] > dg[d0])
        return v, [ArrV(o)]
    def post(ex, s, ret, th):
        r = ex.read(ret); wf(ex, r, 'derivative'); dg = [a - z3.If(a < b, a, b) for a, b in zip(st['dg'], st['o'])]
        degs_are(ex, 'derivative', r, dg); k = z3.Int('k'); ex.assume([0 <= k, k < ncp(r.f['degrees'].e)])
        for c, a in enumerate(arrs(r)): ex.oblige(f'zero (Lean mp_zero), component {c}', a[k] == 0, 'post')
        eq_spline(ex, 'operand unchanged', th, st['v'], 'frame')
    u = GU(f'DerivativeWRTParametricDimension {name(D, p)}, every degree, order above the degree in direction {d0}', 'DerivativeWRTParametricDimension', D, p, None, 1, setup, post, const=True)
    u.strip_wrap = True
    return u
import itertools
UNITS = [deriv(D, p, sub) for D, p in TY for k in range(D + 1) for sub in itertools.combinations(range(D), k)] + [vanish(D, p, d) for D, p in TY for d in range(D)]
# basis function derivatives and the derivative of the value
UNITS += [basis(D, p, True) for D, p in TY] + [contrib(D, p, True) for D, p in TY] + [wsum('EvaluateDerivative', 'BasisFunctionsDerivatives', D, p, 'C06, units "BasisFunctionsDerivatives, every degree"', [lambda D: ArrV([z3.Int(f'order{d}') for d in range(D)])]) for D, p in TY]
