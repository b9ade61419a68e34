"""Pointwise linear arithmetic for every pair of degrees."""
from specs.gh import *
from specs import vl
K = z3.Int('kk')
def xs_(D): return [z3.Real(f'x{d}') for d in range(D)]
def like(S, nm): return S.this if nm is None else S.v(nm)
def mx(a, b): return z3.If(a < b, b, a)
def valid(ex, nm, r, degs):
    degs_are(ex, nm, r, degs); wf(ex, r, nm)
def elev_loop(D, st, lhs, other, xs, key):
    """while (other degree > degree) elevate: the function is kept, the degree stays between the original and the other one"""
    def inv(S):
        d = as_int(S.v('par_dim')); v = lhs(S); o = st[key]; dg = v.f['degrees'].e; d0 = o.f['degrees'].e; t = other(S)
        out = [('same function, component ' + str(c), x == y) for c, (x, y) in enumerate(zip(vl.ev(v, xs), vl.ev(o, xs)))]
        out += [('offsets', z3.And([a == b for a, b in zip(v.f['index_offsets'].e, offsets(dg))])), ('count', v.f['number_of_control_points'] == ncp(dg)), ('size', v.f['control_points'].len == ncp(dg))]
        for q in range(D): out.append((f'degree {q}', dg[q] == mx(d0[q], t[q]) if q < d else z3.And(d0[q] <= dg[q], dg[q] <= mx(d0[q], t[q])) if q == d else dg[q] == d0[q]))
        return out
    return LoopSpec(inv, variant=lambda S: other(S)[as_int(S.v('par_dim'))] - lhs(S).f['degrees'].e[as_int(S.v('par_dim'))])
def binary(op, D, p, alias=False):
    st = {}; xs = xs_(D); inplace = op.endswith('='); sg = 1 if op[0] == '+' else -1
    def setup(ex, s):
        st.clear(); st['a'] = mk_spline(ex, D, p, 'a'); st['b'] = st['a'] if alias else mk_spline(ex, D, p, 'b')
        return st['a'], [st['b']]
    res = (lambda S: S.this) if inplace else (lambda S: S.v('return_spline'))
    other = lambda S: S.v('rhs')
    dB = lambda S: st['b'].f['degrees'].e
    dR = lambda S: res(S).f['degrees'].e
    def top(S): return [mx(x, y) for x, y in zip(st['a'].f['degrees'].e, dB(S))]
    def add(S):
        i = S.v('i_ctps'); A = comps(S.at_entry('return_spline').f['control_points'].elem) if not inplace else arrs(entry_this(S)); B = arrs(other(S)); R = arrs(res(S)); out = [('index', z3.And(0 <= i, i <= ncp(dR(S)))), ('size', res(S).f['control_points'].len == ncp(dR(S)))]
        st['A'], st['B'] = A, B
        for c, (r, a, b) in enumerate(zip(R, A, B)):
            out.append((f'done, component {c}', all_(K, z3.Implies(z3.And(0 <= K, K < i), r[K] == a[K] + sg * b[K]), r[K])))
            out.append((f'pending, component {c}', all_(K, z3.Implies(K >= i, r[K] == a[K]), r[K])))
        return out
    def entry_this(S):
        lv = S.ex.frames_this()
        for c, val in S.entry:
            if c is lv.cell: return S.ex.read_path(val, lv.path)
    def same(S):
        for x, y in zip(dR(S), other(S).f['degrees'].e): lem(S.ex, 'equal degrees', x == y)
        lem(S.ex, 'equal counts', ncp(dR(S)) == ncp(other(S).f['degrees'].e))
    loops = {0: elev_loop(D, st, res, dB, xs, 'a'), 1: elev_loop(D, st, other, top, xs, 'b'),
             2: LoopSpec(add, variant=lambda S: ncp(dR(S)) - S.v('i_ctps'), lem_init=lambda S: (same(S), None)[1])}
    if op == '+': loops = {0: loops[2]} if alias else {0: loops[0], 1: loops[2]}
    def post(ex, s, ret, th):
        r = th if inplace else ex.read(ret)
        if inplace: ex.oblige('returns *this', isinstance(ret, LV) and ret.cell is s.this.cell and not ret.path, 'post')
        dg = r.f['degrees'].e; top_ = [mx(x, y) for x, y in zip(st['a'].f['degrees'].e, st['b'].f['degrees'].e)]
        valid(ex, 'result', r, top_)
        if 'A' in st:
            for c, (o, a, b) in enumerate(zip(arrs(r), st['A'], st['B'])): vl.linear(ex, f'component {c}', dg, xs, o, [(RV(1), a), (RV(sg), b)])
        for c, (x, y, z) in enumerate(zip(vl.ev(r, xs), vl.ev(st['a'], xs), vl.ev(st['b'], xs))): ex.oblige(f'value {op[0]} value at every position, component {c}', x == y + sg * z, 'post')
        if not inplace: eq_spline(ex, 'operand unchanged', th, st['a'], 'frame')
    sig = ST_SIG(D, p)
    class PU(GU):
        def setup(s, ex, fn):
            r = super().setup(ex, fn)
            return (s.this, [s.this]) if alias else r
    return PU(f'operator{op} {name(D, p)}{" with itself, every degree" if alias else ", every pair of degrees"}', 'operator' + op, D, p, None, 1, setup, post, loops, contracts=[vl.Elevate(xs), Commute(st, xs)] if op == '+' else [vl.Elevate(xs)], pred=lambda f: sig(f))
def ST_SIG(D, p):
    t = ptype(spline_t(D, p))[1]
    def ok(f):
        try: return tname(ptype(C.ptypes(f)[0])) == t
        except Exception: return False
    return ok
class Commute(vl.VC):
    """operator+ called recursively (rhs + return_spline): allowed where no further recursion can follow"""
    fname = 'operator+'; proved = 'the unit itself (recursion of depth one)'; const = True
    def __init__(s, st, xs): s.st = st; s.xs = xs
    def match(s, f): return super().match(f) and len(f.params) == 1 and 'BezierSpline' in tname(ptype(C.ptypes(f)[0]))
    def go(s, ex, Dp, v, a, this, args):
        b = a[0]; dv, db = v.f['degrees'].e, b.f['degrees'].e
        ex.oblige('recursion ends: the operand has the larger degrees', z3.And([x <= y for x, y in zip(dv, db)]), 'variant')
        wf(ex, v, 'left operand', 'pre'); wf(ex, b, 'right operand', 'pre')
        r = vl.fresh_spline(ex, *Dp, [mx(x, y) for x, y in zip(dv, db)], 'sum')
        for x, y, z in zip(vl.ev(r, s.xs), vl.ev(v, s.xs), vl.ev(b, s.xs)): ex.assume(x == y + z)
        return r
TY = [(D, p) for D in (1, 2, 3) for p in (0, 3 if D == 3 else 2)]
UNITS = [binary(op, D, p) for D, p in TY for op in ('+', '-', '+=', '-=')]
UNITS += [binary('+', D, p, alias=True) for D, p in TY]
def fun(op, t, c):
    """(coefficient of the spline, constant term) of the component c"""
    return {'scale': (t, None), '+': (RV(1), lambda: t[c]), '-': (RV(1), lambda: -t[c]), 'rev-': (RV(-1), lambda: t[c]), 'neg': (RV(-1), None)}[op]
def pointwise(nm, op, fname, D, p, nargs, free=False, inplace=False, alias=False, const=None):
    """operand kept, every value transformed by the same affine map; alias: the argument is an arbitrary control point of the spline itself"""
    st = {}; xs = xs_(D)
    class PU(GU):
        no_auto = False
        def select(s, P):
            if not free: return super().select(P)
            return [f for f in P.fns.values() if f.name == fname and f.body is not None and len(f.params) == 2 and psig(f)]
        def setup(s, ex, fn):
            r = super().setup(ex, fn)
            if alias and not free:
                j = z3.Int('j'); ex.assume([0 <= j, j < ncp(st['a'].f['degrees'].e)])
                if p == 0 or op != 'scale': st['t'] = [a[j] for a in arrs(st['a'])]; return s.this, [s.this.ext(('f', 'control_points')).ext(('v', j))]
            return r
    def psig(f):
        try: ts = [tname(ptype(t)) for t in C.ptypes(f)]
        except Exception: return False
        me = ptype(spline_t(D, p))[1]; arg = 'double' if op == 'scale' or p == 0 else tname(ptype(PT(p)))
        if nargs == 0: return ts == []
        want = [arg] if not free else [arg, me]
        return len(ts) == len(want) and all(_same(x, y) for x, y in zip(ts, want))
    def _same(x, y): return x == y or x.replace(' ', '') == y.replace(' ', '')
    def setup(ex, s):
        st.clear(); a = st['a'] = mk_spline(ex, D, p, 'a')
        if op == 'scale': t = z3.Real('t'); st['t'] = [t] * len(arrs(a)); args = [t]
        elif nargs == 0: args = []; st['t'] = None
        else: v = z3.Real('v') if p == 0 else ArrV([z3.Real(f'v{c}') for c in range(p)]); st['t'] = comps(v); args = [v]
        return (None, args + [a]) if free else (a, args)
    def post(ex, s, ret, th):
        r = th if inplace else ex.read(ret); a = st['a']; dg = a.f['degrees'].e
        if inplace: ex.oblige('returns *this', isinstance(ret, LV) and ret.cell is s.this.cell and not ret.path, 'post')
        valid(ex, 'result', r, dg)
        for c, (x, y) in enumerate(zip(arrs(r), arrs(a))):
            k, f = fun(op, st['t'][c] if op == 'scale' else st['t'], c); f = f() if f else None
            vl.linear(ex, f'component {c}', dg, xs, x, [(k, y)], f)
            ex.oblige(f'value at every position, component {c}', vl.ev(r, xs)[c] == k * vl.ev(a, xs)[c] + (f if f is not None else 0), 'post')
        if not inplace and not free: eq_spline(ex, 'operand unchanged', th, a, 'frame')
    return PU(nm, fname, D, p, None, nargs + (1 if free else 0), setup, post, pred=None if free else psig)
for D, p in TY:
    n = name(D, p) + ', every degree'
    UNITS += [pointwise(f'*= scalar {n}', 'scale', 'operator*=', D, p, 1, inplace=True), pointwise(f'* scalar {n}', 'scale', 'operator*', D, p, 1), pointwise(f'scalar * {n}', 'scale', 'operator*', D, p, 1, free=True),
              pointwise(f'+= point {n}', '+', 'operator+=', D, p, 1, inplace=True), pointwise(f'-= point {n}', '-', 'operator-=', D, p, 1, inplace=True),
              pointwise(f'+ point {n}', '+', 'operator+', D, p, 1), pointwise(f'- point {n}', '-', 'operator-', D, p, 1), pointwise(f'point + {n}', '+', 'operator+', D, p, 1, free=True),
              pointwise(f'point - {n}', 'rev-', 'operator-', D, p, 1, free=True), pointwise(f'unary minus {n}', 'neg', 'operator-', D, p, 0),
              pointwise(f'+= own control point {n}', '+', 'operator+=', D, p, 1, inplace=True, alias=True), pointwise(f'-= own control point {n}', '-', 'operator-=', D, p, 1, inplace=True, alias=True)]
    if p == 0: UNITS.append(pointwise(f'*= own control point {n}', 'scale', 'operator*=', D, p, 1, inplace=True, alias=True))
