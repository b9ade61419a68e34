"""Subdivision: both halves in closed (triangle) form for every degree, stride and group count."""
from specs.gh import *
from specs.bnd import SZ
def split(D, p, pd):
    st = {}
    t = z3.Real('t')
    def setup(ex, s):
        d = Dim(ex, D, p, pd); st['d'] = d; R = Rows(ex, d); st['R'] = R
        nc = len(d.comps())
        st['T'] = T = [z3.Function(f'T{c}', z3.IntSort(), z3.IntSort(), z3.RealSort()) for c in range(nc)]
        st['top'] = z3.Function('top', z3.IntSort(), z3.IntSort())
        k = z3.Int('k!')
        for c in range(nc): ex.assume(z3.ForAll([k], T[c](k, 0) == d.comps()[c][k], patterns=[d.comps()[c][k]]))
        ex.assume([t > 0, t < 1])
        return d.val, [t, I(pd)]
    def at(ex, a, i, h):
        """position of (a,i,h), with the position of the last index of that row"""
        R = st['R']; d = st['d']
        k = R.at(ex, a, i, h); e = R.at(ex, a, d.n, h)
        ex.assume(st['top'](k) == e)
        return k
    def rec(ex, k, k1, r):
        """T(k, r+1) = (1-t) T(k1, r) + t T(k, r), k1 the position before k in its row (definition of the triangle)"""
        for T in st['T']: ex.assume(T(k, r + 1) == (1 - t) * T(k1, r) + t * T(k, r))
    def cur(S): return S.v('start_point_id')
    def ah(S): return st['R'].split_row(S.ex, cur(S))
    def A1(S): return comps(S.v('spline_group_split').e[0].f['control_points'].elem)
    def A2(S): return comps(S.v('spline_group_split').e[1].f['control_points'].elem)
    def fix(S):
        g = S.v('spline_group_split'); d = st['d']
        return [(f'part {q} size', g.e[q].f['control_points'].len == d.N) for q in (0, 1)]
    def L(c, k): return st['T'][c](k, st['R'].ix(k))
    def Rt(c, k): return st['T'][c](st['top'](k), st['d'].n - st['R'].ix(k))
    def others(S, strict):
        R = st['R']; d = st['d']; out = []
        for c, (x, y) in enumerate(zip(A1(S), A2(S))):
            P = d.comps()[c]
            pend = (R.rk(K) > cur(S)) if strict else (R.rk(K) >= cur(S))
            out.append((f'first part, rows done, component {c}', all_(K, z3.Implies(z3.And(R.dom(K), R.rk(K) < cur(S)), x[K] == L(c, K)), x[K])))
            out.append((f'second part, rows done, component {c}', all_(K, z3.Implies(z3.And(R.dom(K), R.rk(K) < cur(S)), y[K] == Rt(c, K)), y[K])))
            out.append((f'first part, rows pending, component {c}', all_(K, z3.Implies(z3.And(R.dom(K), pend), x[K] == P[K]), x[K])))
            out.append((f'second part, rows pending, component {c}', all_(K, z3.Implies(z3.And(R.dom(K), pend), y[K] == P[K]), y[K])))
        return out
    def inv0(S): return fix(S) + others(S, False) + [('row', z3.And(0 <= cur(S), cur(S) <= st['R'].R))]
    iv = lambda S: S.v('i'); jv = lambda S: S.v('j')
    def row(S, val, i):
        """current row: first[K] = val(c, K); second[K] = triangle value for the indices above n - i, original below"""
        R = st['R']; d = st['d']; out = []
        for c, (x, y) in enumerate(zip(A1(S), A2(S))):
            g = z3.And(R.dom(K), R.rk(K) == cur(S))
            out.append((f'first part, current row, component {c}', all_(K, z3.Implies(g, x[K] == val(c, K)), x[K])))
            out.append((f'second part, current row, component {c}', all_(K, z3.Implies(g, y[K] == z3.If(R.ix(K) > d.n - i, Rt(c, K), d.comps()[c][K])), y[K])))
        return out
    def mn(a, b): return z3.If(a < b, a, b)
    def inv1(S):
        R = st['R']; T = st['T']; i = iv(S)
        return fix(S) + others(S, True) + row(S, lambda c, k: T[c](k, mn(R.ix(k), i - 1)), i) + [('iteration', z3.And(1 <= i, i <= st['d'].n + 1))]
    def inv2(S):
        R = st['R']; T = st['T']; i, j = iv(S), jv(S)
        return fix(S) + others(S, True) + row(S, lambda c, k: T[c](k, z3.If(R.ix(k) > j, i, mn(R.ix(k), i - 1))), i) + [('index', z3.And(i - 1 <= j, j <= st['d'].n))]
    def body2(S):
        a, h = ah(S); ex = S.ex
        k = at(ex, a, jv(S), h); k1 = at(ex, a, jv(S) - 1, h); rec(ex, k, k1, iv(S) - 1)
    def exit2(S):
        a, h = ah(S); ex = S.ex; at(ex, a, st['d'].n, h); at(ex, a, st['d'].n - iv(S), h)
    def first(S):
        a, h = ah(S); at(S.ex, a, st['d'].n, h)
    def h_(f): return lambda S: (f(S), None)[1]
    def toprow(S):
        """top(K) is the last position of the row of K (definition, for the current row)"""
        a, h = ah(S); R = st['R']; e = at(S.ex, a, st['d'].n, h)
        S.ex.assume(z3.ForAll([K], z3.Implies(z3.And(R.dom(K), R.rk(K) == cur(S)), st['top'](K) == e), patterns=[R.rk(K)]))
    loops = {0: LoopSpec(inv0, variant=lambda S: st['R'].R - cur(S), lem_body=h_(toprow)),
             1: LoopSpec(inv1, variant=lambda S: st['d'].n + 1 - iv(S)),
             2: LoopSpec(inv2, variant=lambda S: jv(S), lem_body=h_(body2), lem_exit=h_(exit2))}
    def post(ex, s, ret, th):
        d = st['d']; R = st['R']; r = ex.read(ret)
        pr = parts_of(r, 2); ex.oblige('two parts', pr is not None, 'post')
        if pr is None: return
        a, i, h = z3.Ints('a i h')
        ex.assume(z3.And(0 <= a, a < d.S, 0 <= i, i <= d.n, 0 <= h, h < d.G))
        k = at(ex, a, i, h); e = d.at(a, d.n, h)
        for q, nm in ((0, 'first part'), (1, 'second part')):
            degs_are(ex, nm, pr[q], d.degs); wf(ex, pr[q], nm)
            A = arrs(pr[q])
            for c in range(len(A)):
                # Lean split_left / split_right: T(position, row) is the triangle of the row of control points
                g = st['T'][c](k, i) if q == 0 else st['T'][c](e, d.n - i)
                ex.oblige(f'{nm}: control point {"on the left" if q == 0 else "on the right"} edge of the triangle, component {c}', A[c][k] == g, 'post')
        eq_spline(ex, 'operand unchanged', th, d.val, 'frame')
    u = GU(f'SplitAtPosition({pd}) {name(D, p)}, every degree', 'SplitAtPosition', D, p, r'\(const double', 2, setup, post, loops)
    return u
K = z3.Int('kk'); U = z3.Real('u')
FD = z3.Function('value along the direction', z3.ArraySort(z3.IntSort(), z3.RealSort()), z3.RealSort(), z3.RealSort())
from specs import vl
def planes(D, p, pd):
    st = {}
    def b(k): return z3.If(k == 0, RV(0), z3.If(k == st['m'] + 1, RV(1), st['pl'][k - 1]))
    def setup(ex, s):
        v = mk_spline(ex, D, p, 's'); st['v'] = v
        st['m'] = m = z3.Int('m'); ex.assume([m >= 0, m < 2 ** 31])
        st['pl'] = pl = z3.Array('planes', z3.IntSort(), z3.RealSort()); k = z3.Int('k!')
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < m), z3.And(pl[k] > 0, pl[k] < 1)), patterns=[pl[k]]))
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k + 1 < m), pl[k] < pl[k + 1]), patterns=[pl[k]]))
        ex.assume(z3.Implies(m >= 2, pl[0] < pl[m - 1]))      # increasing: transitive
        return v, [VecV(m, pl), I(pd)]
    MID = z3.Function('position in part', z3.IntSort(), z3.RealSort(), z3.RealSort()); REM = z3.Function('position in remainder', z3.IntSort(), z3.RealSort(), z3.RealSort())
    def dmid(ex, k): ex.assume(z3.ForAll([U], MID(k, U) == b(k) + U * (b(k + 1) - b(k)), patterns=[MID(k, U)]))
    def drem(ex, k): ex.assume(z3.ForAll([U], REM(k, U) == st['pl'][k - 1] + U * (1 - st['pl'][k - 1]), patterns=[REM(k, U)]))
    def shape(e, k):
        """degrees, counts, sizes of the element k"""
        v = st['v']; f = e.f
        return ([f['degrees'].e[d][k] == v.f['degrees'].e[d] for d in range(D)] + [f['index_offsets'].e[d][k] == v.f['index_offsets'].e[d] for d in range(D)] +
                      [f['number_of_control_points'][k] == v.f['number_of_control_points'], f['control_points'].len[k] == v.f['control_points'].len])
    def inv(S):
        v = st['v']; i = S.v('i_split'); rv = S.v('return_value'); sp = S.v('split_spline'); R = sp.e[1]; t = st['pl'][i - 1]
        out = [('split index', z3.And(1 <= i, i <= st['m'])), ('parts so far', rv.len == i)]
        out += [('remainder has the degrees', z3.And([x == y for x, y in zip(R.f['degrees'].e + R.f['index_offsets'].e + [R.f['number_of_control_points'], R.f['control_points'].len], v.f['degrees'].e + v.f['index_offsets'].e + [v.f['number_of_control_points'], v.f['control_points'].len])]))]
        for c, (x, o) in enumerate(zip(arrs(R), arrs(v))): out.append((f'remainder, component {c}', z3.ForAll([U], FD(x, U) == FD(o, REM(i, U)), patterns=[FD(x, U)])))
        for n, g in enumerate(shape(rv.elem, K)): out.append((f'parts: degrees and sizes {n}', all_(K, z3.Implies(z3.And(0 <= K, K < i), g), g.arg(0))))
        for c, (x, o) in enumerate(zip(comps(rv.elem.f['control_points'].elem), arrs(v))):
            out.append((f'parts: values, component {c}', z3.ForAll([K, U], z3.Implies(z3.And(0 <= K, K < i), FD(x[K], U) == FD(o, MID(K, U))), patterns=[FD(x[K], U)])))
        return out
    def init(S):
        ex = S.ex; i = S.v('i_split'); t = st['pl'][i - 1]; dmid(ex, i - 1); drem(ex, i)
        lem(ex, 'position in the first part', z3.ForAll([U], U * t == MID(i - 1, U), patterns=[MID(i - 1, U)]))
    def body(S):
        i = S.v('i_split'); a, c = st['pl'][i - 1], st['pl'][i]; ex = S.ex
        q = (c - a) / (1 - a); lem(ex, 'planes in order', z3.And(0 < a, a < c, c < 1)); lem(ex, 'relative position', z3.And(q * (1 - a) == c - a))
        lem(ex, 'relative position positive', z3.Implies(q <= 0, -q * (1 - a) >= 0)); lem(ex, 'relative position below one', z3.Implies(q >= 1, (q - 1) * (1 - a) >= 0))
        lem(ex, 'relative position inside', z3.And(0 < q, q < 1))
        dmid(ex, i); drem(ex, i); drem(ex, i + 1)
        for u in (U,):
            lem(ex, 'position in the new part', z3.ForAll([u], REM(i, u * q) == MID(i, u), patterns=[MID(i, u)]))
            lem(ex, 'position in the new remainder', z3.ForAll([u], REM(i, q + u * (1 - q)) == REM(i + 1, u), patterns=[REM(i + 1, u)]))
    def post(ex, s, ret, th):
        r = ex.read(ret); v = st['v']; k = z3.Int('part'); u = z3.Real('pos')
        if isinstance(r, CVec):
            ex.oblige('number of parts', I(len(r.e)) == st['m'] + 1, 'post')
            for e in r.e: eq_spline(ex, 'no plane: the spline itself', e, v)
            return
        ex.oblige('number of parts', r.len == st['m'] + 1, 'post')
        ex.assume(z3.And(0 <= k, k < r.len)); dmid(ex, k); drem(ex, st['m'])
        for n, g in enumerate(shape(r.elem, k)): ex.oblige(f'part: degrees, counts and sizes as the operand {n}', g, 'post')
        if as_int(r.len) is None: lem(ex, 'last part', z3.ForAll([U], REM(st['m'], U) == b(st['m']) + U * (1 - b(st['m']))))
        for c, (x, o) in enumerate(zip(comps(r.elem.f['control_points'].elem), arrs(v))):
            e = z3.Implies(st['m'] == 0, x[k] == o)
            ex.oblige(f'no plane: the operand itself, component {c}', e, 'post')
            ex.oblige(f'part k is the operand on [t_k, t_k+1], component {c}', z3.Implies(st['m'] > 0, FD(x[k], u) == FD(o, b(k) + u * (b(k + 1) - b(k)))), 'post')
        eq_spline(ex, 'operand unchanged', th, v, 'frame')
    g = GU(f'SplitAtPosition(planes, {pd}) {name(D, p)}, every degree and number of planes', 'SplitAtPosition', D, p, r'\(const (std::)?vector', 2, setup, post, {0: LoopSpec(inv, variant=lambda S: st['m'] - S.v('i_split'), lem_body=lambda S: (body(S), None)[1], lem_init=lambda S: (init(S), None)[1])})
    g.contracts = [vl.Split1(FD)]
    return g
def reject1(D, p, pd):
    t = z3.Real('t')
    def setup(ex, s): ex.assume(z3.Or(t <= 0, t >= 1)); return mk_spline(ex, D, p, 's'), [t, I(pd)]
    return GU(f'SplitAtPosition({pd}) {name(D, p)} outside (0,1), every degree', 'SplitAtPosition', D, p, r'\(const double', 2, setup, None, throws=True)
def rejectn(D, p, pd):
    """planes not strictly increasing inside (0,1)"""
    st = {}
    def setup(ex, s):
        st['m'] = m = z3.Int('m'); ex.assume([m >= 1, m < 2 ** 31]); w = z3.Int('w')
        st['pl'] = pl = z3.Array('planes', z3.IntSort(), z3.RealSort())
        ex.assume(z3.Or(z3.And(0 <= w, w < m, z3.Or(pl[w] <= 0, pl[w] >= 1)), z3.And(0 <= w, w + 1 < m, pl[w] >= pl[w + 1])))
        st['w'] = w
        return mk_spline(ex, D, p, 's'), [VecV(m, pl), I(pd)]
    def inv(S):
        i = S.v('i_split'); pl = st['pl']; sp = S.v('split_spline'); R = sp.e[1]; dg = S.this.f['degrees'].e
        return [('index', z3.And(1 <= i, i <= st['m'])), ('planes so far inside', all_(K, z3.Implies(z3.And(0 <= K, K < i), z3.And(pl[K] > 0, pl[K] < 1)), pl[K])),
                ('remainder', z3.And([x == y for x, y in zip(R.f['degrees'].e + R.f['index_offsets'].e + [R.f['number_of_control_points'], R.f['control_points'].len], dg + offsets(dg) + [ncp(dg), ncp(dg)])])),
                ('planes so far increase', all_(K, z3.Implies(z3.And(0 <= K, K + 1 < i), pl[K] < pl[K + 1]), pl[K]))]
    def end(S):
        i = S.v('i_split') - 1; a, c = st['pl'][i - 1], st['pl'][i]; q = (c - a) / (1 - a); ex = S.ex
        lem(ex, 'relative position', z3.And(a < 1, q * (1 - a) == c - a))
        lem(ex, 'accepted position: below one', z3.Implies(q < 1, (1 - q) * (1 - a) > 0)); lem(ex, 'accepted position: above zero', z3.Implies(q > 0, q * (1 - a) > 0))
    return GU(f'SplitAtPosition(planes, {pd}) {name(D, p)} not increasing inside (0,1), every degree and number of planes', 'SplitAtPosition', D, p, r'\(const (std::)?vector', 2, setup, None,
              {0: LoopSpec(inv, variant=lambda S: st['m'] - S.v('i_split'), lem_end=lambda S: (end(S), None)[1])}, contracts=[vl.Split1(FD, total=True)], throws=True)
TY = [(D, p) for D in (1, 2, 3) for p in (0, 3 if D == 3 else 2)]
UNITS = [split(D, p, pd) for D, p in TY for pd in range(D)] + [planes(D, p, D - 1) for D, p in TY] + [reject1(D, p, 0) for D, p in TY] + [rejectn(D, p, D - 1) for D, p in TY]
