"""Differentiation type: spec-side dual numbers (sum, product, quotient, chain rule) over z3 reals."""
from specs.common import *
T1 = 'AlgoDiffType<double, %d>'
NEST = 'AlgoDiffType<AlgoDiffType<double, 2>, 2>'
class Dual:
    """v: scalar (z3 real or Dual), d: function k -> scalar, n: number of components (int or z3 term)"""
    def __init__(s, v, d, n): s.v = v; s.d = d; s.n = n
    def mk(s, v, d): return Dual(v, d, s.n)
def pure(f):
    def g(a, b):
        da, db = depth(a), depth(b)
        if da == 0 and db == 0: return getattr(a, f)(b)
        if da == db: return {'__add__': lambda: a.mk(a.v + b.v, lambda k: a.d(k) + b.d(k)), '__sub__': lambda: a.mk(a.v - b.v, lambda k: a.d(k) - b.d(k)),
                             '__mul__': lambda: a.mk(a.v * b.v, lambda k: a.d(k) * b.v + a.v * b.d(k)),
                             '__truediv__': lambda: a.mk(a.v / b.v, lambda k: (a.d(k) * b.v - a.v * b.d(k)) / (b.v * b.v))}[f]()
        if da > db:
            if db < da - 1: b = up(b, a.v)
            return {'__add__': lambda: a.mk(a.v + b, a.d), '__sub__': lambda: a.mk(a.v - b, a.d), '__mul__': lambda: a.mk(a.v * b, lambda k: a.d(k) * b), '__truediv__': lambda: a.mk(a.v / b, lambda k: a.d(k) / b)}[f]()
        if da < db - 1: a = up(a, b.v)
        return {'__add__': lambda: b.mk(b.v + a, b.d), '__sub__': lambda: b.mk(mul(b.v, z3.RealVal(-1)) + a, lambda k: -b.d(k)), '__mul__': lambda: b.mk(b.v * a, lambda k: b.d(k) * a),
                '__truediv__': lambda: b.mk(div(a, b.v), lambda k: div(-(a * b.d(k)) if depth(a) == depth(b.d(k)) else -mul(a, b.d(k)), b.v * b.v))}[f]()
    return g
def up(c, like):
    """a plain number as a constant of the same shape"""
    if not isinstance(like, Dual): return c
    return like.mk(up(c, like.v), lambda k: up(z3.RealVal(0), like.v))
add = pure('__add__'); sub = pure('__sub__'); mul = pure('__mul__'); div = pure('__truediv__')
Dual.__add__ = add; Dual.__sub__ = sub; Dual.__mul__ = mul; Dual.__truediv__ = div; Dual.__neg__ = lambda a: a.mk(-a.v, lambda k: -a.d(k))
def depth(x): return 1 + depth(x.v) if isinstance(x, Dual) else 0
def isd(b, a): return isinstance(b, Dual) and depth(b) == depth(a)
def dual(v):
    """value tree -> Dual"""
    if isleaf(v): return v
    d = v.f['d_']
    if isinstance(d, ArrV):
        ds = [dual(x) for x in d.e]; return Dual(dual(v.f['v_']), lambda k: ds[k], len(ds))
    return Dual(v.f['v_'], lambda k: sel(d.elem, k), d.len)
def deq(ex, nm, got, exp):
    """got: value tree, exp: Dual"""
    g = dual(got)
    if not isinstance(g, Dual): ex.oblige(nm, g == exp, 'post'); return
    deq_s(ex, nm + ' value', got.f['v_'], exp.v)
    if isinstance(g.n, int):
        ex.oblige(nm + ' number of derivatives', g.n == exp.n, 'post')
        for k in range(g.n): deq_s(ex, f'{nm} derivative {k}', got.f['d_'].e[k], exp.d(k))
    else:
        ex.oblige(nm + ' number of derivatives', g.n == exp.n, 'post')
        k = z3.Int('k?'); ex.assume(z3.And(k >= 0, k < exp.n))
        ex.oblige(nm + ' derivative k', g.d(k) == exp.d(k), 'post')
def deq_s(ex, nm, got, exp):
    if isinstance(exp, Dual): deq(ex, nm, got, exp)
    else: ex.oblige(nm, got == exp, 'post')
def rd(v):
    """innermost real value"""
    return rd(v.v) if isinstance(v, Dual) else v
R = z3.RealSort()
def m(name, *a): return z3.Function('m_' + name, *([R] * (len(a) + 1)))(*a)
def facts(ex, v):
    """identities between the elementary functions, at the arguments the code uses (trusted facts about the mathematical functions)"""
    seen = set(); apps = {}
    def go(x):
        if x.get_id() in seen: return
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name().startswith('m_'): apps[x.get_id()] = x
            for c in x.children(): go(c)
    for _, l in leaves(v):
        if z3.is_expr(l): go(z3.simplify(l))
    args = {}
    for x in apps.values():
        n = x.decl().name()[2:]; a = x.arg(0); args.setdefault(n, []).append(a)
        if n in ('sin', 'cos', 'tan'): ex.assume(z3.And(m('sin', a) * m('sin', a) + m('cos', a) * m('cos', a) == 1, m('tan', a) * m('cos', a) == m('sin', a)))
        if n == 'exp': ex.assume(z3.And(m('exp', a) > 0, m('log', m('exp', a)) == a))
        if n in ('log', 'log10'):
            t = m('log', z3.RealVal(10)); ex.assume([t > 0, z3.Implies(a > 0, z3.And(m('log10', a) * t == m('log', a), m('exp', m('log', a)) == a))])
        if n == 'sqrt': ex.assume(z3.Implies(a >= 0, z3.And(m('sqrt', a) >= 0, m('sqrt', a) * m('sqrt', a) == a, z3.Implies(a > 0, m('sqrt', a) > 0))))
        if n == 'pow':
            q = z3.simplify(x.arg(1))
            if z3.is_rational_value(q):
                f = q.as_fraction()
                if f.denominator == 1 and abs(f) <= 4:
                    r = z3.RealVal(1)
                    for _ in range(abs(int(f))): r = r * a
                    ex.assume(x == r if f >= 0 else z3.Implies(a != 0, x * r == 1))
                if abs(f) * 2 == 1: ex.assume(z3.Implies(a > 0, z3.And(m('sqrt', a) > 0, m('sqrt', a) * m('sqrt', a) == a, x == m('sqrt', a) if f > 0 else x * m('sqrt', a) == 1)))
class AU(Unit):
    tu = 'ad.cpp'; real_div = True
    def __init__(s, T, op, args, exp, inplace=False, alias=False, free=False, dom=None, axioms=None, num=None):
        s.T = T; s.op = op; s.args = args; s.exp = exp; s.inplace = inplace; s.alias = alias; s.free = free; s.dom = dom; s.axioms = axioms
        s.name = f'{T}::{op}({args}){" alias" if alias else ""}'
        s.S = ('rec', 'AlgoDiffType<double, 2>') if T == NEST else ('real',)
    def select(s, P):
        out = []
        t = ('rec', s.T)
        want = [t if a == 'a' else s.S for a in s.args]
        for f in P.fns.values():
            if f.name != s.op or f.body is None: continue
            if s.free != (f.kind == 'FunctionDecl'): continue
            if not s.free and (f.rec is None or crec(f) != s.T): continue
            try: ts = [ptype(t) for t in C.ptypes(f)]
            except Exception: continue
            if ts == want: out.append(f)
        return out
    def setup(s, ex, fn):
        s.vals = []; s.cells = []
        this = None
        vecn = s.T == T1 % 0
        n = z3.Int('n')
        if vecn: ex.assume(n >= 0)
        def fix(v):
            if vecn and isinstance(v, RecV): return RecV(v.t, {**v.f, 'd_': VecV(n, v.f['d_'].elem)})
            return v
        def mk(k, nm):
            v = fix(ex.symb(('rec', s.T) if k == 'a' else s.S, nm))
            lv = LV(ex.new_cell(v, nm, s.T if k == 'a' else 'double')); return lv
        if not s.free:
            this = mk('a', 'a'); v = ex.read(this); s.vals.append(dual(v)); s.cells.append((this, v, s.inplace))
        args = []
        for i, k in enumerate(s.args):
            if s.alias and k == 'a' and this is not None: lv = this
            elif s.alias and i == 1: lv = args[0]
            else:
                lv = mk(k, f'b{i}'); s.cells.append((lv, ex.read(lv), False))
            s.vals.append(dual(ex.read(lv))); args.append(lv)
        s.this_lv = this
        if s.dom: ex.assume(s.dom(*[rd(v) for v in s.vals]))
        if s.axioms: ex.assume(s.axioms(*[rd(v) for v in s.vals]))
        return this, args
    def post(s, ex, fn, ret):
        e = s.exp(*s.vals)
        facts(ex, ex.read(s.this_lv if s.inplace else ret))
        if s.inplace: ex.oblige('returns *this', isinstance(ret, LV) and ret.cell is s.this_lv.cell and ret.path == s.this_lv.path, 'post')
        if isinstance(e, Dual): deq(ex, 'result', ex.read(s.this_lv if s.inplace else ret), e)
        else: ex.oblige('result', ex.read(ret) == e, 'post')
        for lv, v, mod in s.cells:
            if mod: continue
            if not all(z3.eq(x, y) for (_, x), (_, y) in zip(leaves(ex.read(lv)), leaves(v))):
                ex.oblige('operand unchanged', ex.equal(ex.read(lv), v), 'frame')
            else: ex.oblige('operand unchanged', True, 'frame')
TYPES = [T1 % 1, T1 % 2, T1 % 3, T1 % 4, T1 % 0, NEST]
