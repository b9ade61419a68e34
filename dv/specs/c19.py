"""C19: arithmetic of AlgoDiffType for 1..4 fixed, any run-time number of, and nested derivatives."""
from specs.adc import *
UNITS = []
nz = lambda a, b: b != 0
for T in TYPES:
    for op, f, d in (('+', add, None), ('-', sub, None), ('*', mul, None), ('/', div, nz)):
        UNITS += [AU(T, 'operator' + op, 'a', f, dom=d), AU(T, 'operator' + op, 'a', f, alias=True, dom=d), AU(T, 'operator' + op + '=', 'a', f, True, dom=d), AU(T, 'operator' + op + '=', 'a', f, True, True, dom=d),
                  AU(T, 'operator' + op, 's', f, dom=d), AU(T, 'operator' + op + '=', 's', f, True, dom=d), AU(T, 'operator' + op, 'sa', f, free=True, dom=d)]
    UNITS.append(AU(T, 'operator-', '', lambda a: -a))
# ---- construction, assignment, activation, access
class LU(Unit):
    """kind: 'ctor0', 'ctor' (value[, n]), 'active' (value[, n], component), 'set' (SetActiveComponent), 'assign' (plain scalar), 'copy', 'assign-self', 'value', 'derivs', 'count'"""
    tu = 'ad.cpp'; real_div = True
    NAME = {'set': 'SetActiveComponent', 'assign': 'operator=', 'assign-copy': 'operator=', 'value': 'GetValue', 'derivs': 'GetDerivatives', 'count': 'GetNumberOfDerivatives'}
    def __init__(s, T, kind):
        s.T = T; s.kind = kind; s.name = f'{T}: {kind}'; s.dyn = T == T1 % 0; s.N = int(T.rsplit(',', 1)[1].strip(' >'))
        s.S = ('rec', 'AlgoDiffType<double, 2>') if T == NEST else ('real',)
    def want(s):
        rec, it = ('rec', s.T), ('int', 64, False); d = [it] if s.dyn else []
        return {'ctor0': [], 'ctor': [s.S] + d, 'active': [s.S] + d + [it], 'copy': [rec], 'set': [it], 'assign': [s.S], 'assign-copy': [rec]}.get(s.kind, [])
    def select(s, P):
        out = []
        for f in P.fns.values():
            if f.rec is None or crec(f) != s.T or (f.body is None and not f.defaulted): continue
            if s.kind in s.NAME: 
                if f.name != s.NAME[s.kind]: continue
            elif f.kind != 'CXXConstructorDecl': continue
            if '&&' in f.type: continue
            try: ts = [ptype(t) for t in C.ptypes(f)]
            except Exception: continue
            if [t[:1] if t[0] == 'int' else t for t in ts] == [t[:1] if t[0] == 'int' else t for t in s.want()]: out.append(f)
        return out
    def sym(s, ex, nm, n=None):
        v = ex.symb(('rec', s.T), nm)
        return RecV(v.t, {**v.f, 'd_': VecV(n, v.f['d_'].elem)}) if s.dyn else v
    def setup(s, ex, fn):
        n = z3.Int('n') if s.dyn else z3.IntVal(s.N); s.n = n; ex.assume(z3.And(n >= 0, n < 2 ** 31))
        s.j = z3.Int('j'); s.v = None; args = []
        if s.kind in ('ctor0', 'ctor', 'active', 'copy'): tv = ex.uninit(('rec', s.T))
        else: tv = s.sym(ex, 'a', n)
        s.this = LV(ex.new_cell(tv, 'this', s.T)); s.pre = tv
        if s.kind in ('ctor', 'active', 'assign'):
            s.v = ex.symb(s.S, 'v'); args.append(s.v)
            if s.dyn and s.kind != 'assign': args.append(n)
        if s.kind in ('active', 'set'):
            ex.assume(z3.And(0 <= s.j, s.j < n)); args.append(s.j)
        if s.kind in ('copy', 'assign-copy'):
            m = z3.Int('m') if s.dyn else None
            if s.dyn: ex.assume(z3.And(m >= 0, m < 2 ** 31))
            s.v = s.sym(ex, 'b', m); args.append(s.v)
        s.args = [LV(ex.new_cell(a, f'b{i}')) for i, a in enumerate(args)]; s.argv = args
        return s.this, s.args
    def same(s, ex, nm, a, b, kind='post'):
        if isinstance(a, RecV):
            for f in a.f: s.same(ex, nm, a.f[f], b.f[f], kind)
        elif isinstance(a, ArrV):
            ex.oblige(nm, len(a.e) == len(b.e), kind)
            for x, y in zip(a.e, b.e): s.same(ex, nm, x, y, kind)
        else: ex.oblige(nm, ex.equal(a, b), kind)
    def const(s, x):
        """a plain number as a value of the scalar type (zero gradient when nested)"""
        return z3.RealVal(x) if s.T != NEST else RecV(None, {'v_': z3.RealVal(x), 'd_': ArrV([z3.RealVal(0)] * 2)})
    def eqs(s, ex, nm, got, exp):
        for (p, x), (q, y) in zip(leaves(got), leaves(RecV(got.t, exp.f) if isinstance(got, RecV) else exp)): ex.oblige(nm, x == y, 'post')
    def grad(s, ex, d, j):
        """components of the gradient: zero except one at j"""
        if isinstance(d, ArrV):
            ex.oblige('number of derivatives', len(d.e) == s.N, 'post')
            for k in range(len(d.e)):
                if j is None: s.eqs(ex, f'derivative {k} is zero', d.e[k], s.const(0)); continue
                for (_, x), (_, o), (_, z) in zip(leaves(d.e[k]), leaves(RecV(d.e[k].t, s.const(1).f) if isinstance(d.e[k], RecV) else s.const(1)), leaves(RecV(d.e[k].t, s.const(0).f) if isinstance(d.e[k], RecV) else s.const(0))):
                    ex.oblige(f'derivative {k} of the unit gradient', x == z3.If(j == k, o, z), 'post')
        else:
            ex.oblige('number of derivatives', d.len == s.n, 'post')
            k = z3.Int('k?'); ex.assume(z3.And(0 <= k, k < s.n))
            ex.oblige('derivative k', sel(d.elem, k) == (z3.If(k == j, z3.RealVal(1), z3.RealVal(0)) if j is not None else z3.RealVal(0)), 'post')
    def post(s, ex, fn, ret):
        t = ex.read(s.this); k = s.kind
        if k == 'ctor0':
            s.eqs(ex, 'value is zero', t.f['v_'], s.const(0))
            if s.dyn: ex.oblige('no derivatives', t.f['d_'].len == 0, 'post')
            else: s.grad(ex, t.f['d_'], None)
        elif k in ('ctor', 'active', 'assign'): s.same(ex, 'value', t.f['v_'], s.v); s.grad(ex, t.f['d_'], s.j if k == 'active' else None)
        elif k == 'set': s.same(ex, 'value unchanged', t.f['v_'], s.pre.f['v_']); s.grad(ex, t.f['d_'], s.j)
        elif k in ('copy', 'assign-copy'): s.same(ex, 'value and gradient are copied', t, s.v)
        else:
            r = ex.read(ret); s.same(ex, 'object unchanged', t, s.pre, 'frame')
            if k == 'value': s.same(ex, 'value', r, s.pre.f['v_'])
            elif k == 'derivs': s.same(ex, 'gradient', r, s.pre.f['d_'])
            else: ex.oblige('number of derivatives', r == s.n, 'post')
        if k in ('assign', 'assign-copy'): ex.oblige('returns *this', isinstance(ret, LV) and ret.cell is s.this.cell and ret.path == s.this.path, 'post')
        for lv, v in zip(s.args, s.argv): s.same(ex, 'argument unchanged', ex.read(lv), v, 'frame')
for T in TYPES:
    UNITS += [LU(T, k) for k in ('ctor0', 'ctor', 'active', 'copy', 'set', 'assign', 'assign-copy', 'value', 'derivs', 'count') if not (k == 'assign' and T == T1 % 0)]
