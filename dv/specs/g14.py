"""Rational evaluation and basis functions for every degree: loop invariants over the contracts of the polynomial evaluation and basis functions."""
from specs.gh import *
from specs.c01 import mk_rat
from specs import vl, c01
from specs.g05 import Basis
from specs.g17 import PARTS, rdim, rwf, req, TY
K = z3.Int('kk'); Z, RS = z3.IntSort(), z3.RealSort()
A, W = PARTS
SIG = r'\(const (bezman::)?((Rational)?BezierSpline<.*>::)?(PointTypeParametric_|Point)'
class Eval(vl.VC):
    """Evaluate(position): the value of the spline there"""
    fname = 'Evaluate'; const = True; proved = 'C04/C05, units "Evaluate, every degree" + Lean evaluate1..3'
    def match(s, f): return super().match(f) and len(f.params) == 1 and re.search(r'Point', f.type.split('(', 1)[1]) is not None
    def go(s, ex, Dp, v, a, this, args):
        wf(ex, v, 'operand', 'pre')
        return vl.evpt(v, list(a[0].e))
def xs_(D): return [z3.Real(f'x{d}') for d in range(D)]
def rset(st, D, p, sup=True):
    def setup(ex, s):
        v = st['v'] = mk_rat(ex, D, p, 's'); st['dg'] = dg = v.f[A].f['degrees'].e; st['x'] = xs_(D)
        st['A'] = arrs(v.f[A]); st['W'] = arrs(v.f[W])[0]
        st['num'] = vl.ev(v.f[A], st['x']); st['den'] = vl.ev(v.f[W], st['x'])[0]
        ex.assume(st['den'] != 0)
        if sup: ex.assume([d < 30 for d in dg])
        return v, [ArrV(st['x'])]
    return setup
def quot(ex, st, ret, nm='numerator value / weight value'):
    for c, (r, n) in enumerate(zip(comps(ex.read(ret)), st['num'])): ex.oblige(f'{nm}, component {c}', r == n / st['den'], 'post')
def evaluate(D, p):
    st = {}
    def post(ex, s, ret, th): quot(ex, st, ret); req(ex, 'operand unchanged', th, st['v'])
    return GU(f'Evaluate {name(D, p, True)}, every degree', 'Evaluate', D, p, SIG, 1, rset(st, D, p, False), post, const=True, contracts=[Eval()], rat=True)
def ps(st, ex, key, arr, b, total):
    """partial sums of basis value times arr (recursive ghost function); the full sum is the value (Lean forward_ps)"""
    f = z3.Function(f'partial sum {key}', Z, RS); ex.assume(f(0) == 0); ex.assume(f(ncp(st['dg'])) == total); ex.lemmas_used.add('Lean forward_ps')
    return f
def at_pos(ex, st, b):
    ok = b.args is not None and len(b.args) == 1 and all(z3.eq(simp(x), y) for x, y in zip(b.args[0].e, st['x']))
    ex.oblige('basis functions at the given position', ok, 'post')
def ix(S): return S.v('i_basis_function')
h_ = lambda f: (lambda S: (f(S), None)[1])
def rng(st, S): return ('index', z3.And(0 <= ix(S), ix(S) <= ncp(st['dg'])))
def unweighted(D, p):
    st = {}; b = Basis('BasisFunctions', D, 'C05, units "BasisFunctions, every degree" + Lean basis1..3')
    def setup(ex, s):
        r = rset(st, D, p)(ex, s); b.args = None; st['P'] = ps(st, ex, 'weights', st['W'], b, st['den']); return r
    def inv0(S):
        f = S.v('factors')
        return [rng(st, S), ('size', f.len == ncp(st['dg'])), ('weight sum', S.v('weight_eval') == st['P'](ix(S)))]
    def body0(S): S.ex.assume(st['P'](ix(S) + 1) == st['P'](ix(S)) + b.B[ix(S)] * st['W'][ix(S)])
    def inv1(S):
        f = S.v('factors'); i = ix(S)
        return [rng(st, S), ('size', f.len == ncp(st['dg'])), ('divided so far', all_(K, z3.Implies(z3.And(0 <= K, K < i), f.elem[K] == b.B[K] * (1 / st['den'])), f.elem[K])),
                ('pending', all_(K, z3.Implies(z3.And(i <= K, K < ncp(st['dg'])), f.elem[K] == b.B[K]), f.elem[K]))]
    def post(ex, s, ret, th):
        r = ex.read(ret); k = z3.Int('k'); N = ncp(st['dg'])
        ex.oblige('one value per control point', r.len == N, 'post'); ex.assume([0 <= k, k < N])
        ex.oblige('value k is the basis function k over the weight value', r.elem[k] == b.B[k] / st['den'], 'post')
        at_pos(ex, st, b); req(ex, 'operand unchanged', th, st['v'])
    return GU(f'UnweightedBasisFunctions {name(D, p, True)}, every degree', 'UnweightedBasisFunctions', D, p, SIG, 1, setup, post,
              {0: LoopSpec(inv0, variant=lambda S: ncp(st['dg']) - ix(S), lem_body=h_(body0)), 1: LoopSpec(inv1, variant=lambda S: ncp(st['dg']) - ix(S))}, const=True, contracts=[b], rat=True)
class RForm(vl.VC):
    """overload of a rational spline's method taking one parametric point"""
    const = True
    def __init__(s, fname, val, proved): s.fname = fname; s.val = val; s.args = None; s.proved = proved
    def rec_ok(s, r): return r.startswith('RationalBezierSpline<')
    def match(s, f): return super().match(f) and len(f.params) == 1 and re.search(r'Point', f.type.split('(', 1)[1]) is not None
    def apply(s, ex, fn, this, args):
        ex.lemmas_used.add(f'contract {s.fname} ({s.proved})')
        s.args = [ex.read(a) for a in args]; s.op = ex.read(this); rwf(ex, 'operand', s.op)
        return s.val() if callable(s.val) else s.val
def basis(D, p):
    st = {}; UB = z3.Array('unweighted basis values', Z, RS)
    b = RForm('UnweightedBasisFunctions', lambda: VecV(ncp(st['dg']), UB), 'C14, units "UnweightedBasisFunctions, every degree"')
    def setup(ex, s): b.args = None; return rset(st, D, p)(ex, s)
    def inv(S):
        f = S.v('factors'); i = ix(S)
        return [rng(st, S), ('size', f.len == ncp(st['dg'])), ('weighted so far', all_(K, z3.Implies(z3.And(0 <= K, K < i), f.elem[K] == UB[K] * st['W'][K]), f.elem[K])),
                ('pending', all_(K, z3.Implies(z3.And(i <= K, K < ncp(st['dg'])), f.elem[K] == UB[K]), f.elem[K]))]
    def post(ex, s, ret, th):
        r = ex.read(ret); k = z3.Int('k'); N = ncp(st['dg'])
        ex.oblige('one value per control point', r.len == N, 'post'); ex.assume([0 <= k, k < N])
        ex.oblige('value k is the weight k times the unweighted value k (Lean rational_basis_sum, rational_basis_point)', r.elem[k] == st['W'][k] * UB[k], 'post')
        at_pos(ex, st, b); req(ex, 'operand unchanged', th, st['v'])
        if b.args is not None: req(ex, 'of the same spline', b.op, st['v'], 'post')
    return GU(f'BasisFunctions {name(D, p, True)}, every degree', 'BasisFunctions', D, p, SIG, 1, setup, post, {0: LoopSpec(inv, variant=lambda S: ncp(st['dg']) - ix(S))}, const=True, contracts=[b], rat=True)
def forward(D, p):
    st = {}; b = Basis('BasisFunctions', D, 'C05, units "BasisFunctions, every degree" + Lean basis1..3')
    def setup(ex, s):
        r = rset(st, D, p)(ex, s); b.args = None
        st['P'] = [ps(st, ex, f'numerator {c}', a, b, st['num'][c]) for c, a in enumerate(st['A'])]; st['PW'] = ps(st, ex, 'weights', st['W'], b, st['den']); return r
    def inv(S):
        i = ix(S); e = comps(S.v('evaluation_point'))
        return [rng(st, S), ('weight sum', S.v('weight_eval') == st['PW'](i))] + [(f'numerator sum, component {c}', e[c] == f(i)) for c, f in enumerate(st['P'])]
    def body(S):
        i = ix(S)
        for f, a in zip(st['P'] + [st['PW']], st['A'] + [st['W']]): S.ex.assume(f(i + 1) == f(i) + b.B[i] * a[i])
    def post(ex, s, ret, th): quot(ex, st, ret); at_pos(ex, st, b); req(ex, 'operand unchanged', th, st['v'])
    return GU(f'ForwardEvaluate {name(D, p, True)}, every degree', 'ForwardEvaluate', D, p, SIG, 1, setup, post, {0: LoopSpec(inv, variant=lambda S: ncp(st['dg']) - ix(S), lem_body=h_(body))}, const=True, contracts=[b], rat=True)
class Contrib(vl.VC):
    """BasisFunctionContributions(position) of a polynomial spline"""
    fname = 'BasisFunctionContributions'; const = True; proved = 'C05, units "BasisFunctionContributions, every degree"'
    def __init__(s, val): s.val = val; s.args = None
    def match(s, f): return super().match(f) and len(f.params) == 1 and re.search(r'Point', f.type.split('(', 1)[1]) is not None
    def go(s, ex, Dp, v, a, this, args): wf(ex, v, 'operand', 'pre'); s.args = a; s.dg = v.f['degrees'].e; return s.val
def lv(x): return [x.len] + comps(x.elem) if isinstance(x, VecV) else sum([lv(y) for y in x.e], []) if isinstance(x, ArrV) else [x]
def contrib(D, p):
    st = {}; tok = ArrV([VecV(z3.Int(f'len{d}'), z3.Array(f'vals{d}', Z, RS)) for d in range(D)]); b = Contrib(tok)
    def setup(ex, s): b.args = None; return rset(st, D, p)(ex, s)
    def post(ex, s, ret, th):
        at_pos(ex, st, b); req(ex, 'operand unchanged', th, st['v'])
        if b.args is not None: ex.oblige('of the same degrees', z3.And([x == y for x, y in zip(b.dg, st['dg'])]), 'post')
        for x, y in zip(lv(ex.read(ret)), lv(tok)): ex.oblige('the Bernstein values per direction', x == y, 'post')
    return GU(f'BasisFunctionContributions {name(D, p, True)}, every degree', 'BasisFunctionContributions', D, p, SIG, 1, setup, post, const=True, contracts=[b], rat=True)
def scalars(fname, D, p):
    """overload taking separate scalars: the same value"""
    st = {}
    tok = {'BasisFunctions': VecV(z3.Int('len'), z3.Array('vals', Z, RS)), 'UnweightedBasisFunctions': VecV(z3.Int('len'), z3.Array('vals', Z, RS))}.get(fname) or (z3.Real('val') if p == 0 else ArrV([z3.Real(f'val{c}') for c in range(p)]))
    pf = RForm(fname, tok, 'C14, units "every degree"')
    def setup(ex, s): pf.args = None; r = rset(st, D, p)(ex, s); return r[0], st['x']
    def post(ex, s, ret, th):
        ok = pf.args is not None and all(z3.eq(simp(x), y) for x, y in zip(pf.args[0].e, st['x']))
        ex.oblige('evaluated at the given position', ok, 'post')
        if pf.args is not None: req(ex, 'the same spline', pf.op, st['v'], 'post')
        for x, y in zip(lv(ex.read(ret)), lv(tok)): ex.oblige('the same value', x == y, 'post')
    return GU(f'{fname} of {D} scalars {name(D, p, True)}, every degree', fname, D, p, None, D, setup, post, const=True, contracts=[pf], pred=lambda f: 'Point' not in f.type.split('(', 1)[1] and 'std::array' not in f.type.split('(', 1)[1], rat=True)
UNITS = [f(D, p) for D, p in TY for f in (evaluate, unweighted, basis, forward, contrib)] + [scalars(f, D, p) for D, p in TY for f in ('Evaluate', 'ForwardEvaluate', 'BasisFunctions', 'UnweightedBasisFunctions')]
CTORS = [u for u in c01.UNITS if isinstance(u, c01.SU) and u.rat and (u.fname == 'RationalBezierSpline' or u.fname in ('ControlPoint', 'Weight', 'WeightedControlPoint', 'GetWeights', 'GetWeightedControlPoints'))]
