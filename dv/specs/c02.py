"""C02: every Point operation, N = 1..5, all coordinates; aliasing scenarios bind a parameter to (a component of) *this."""
from specs.common import *
class PU(Unit):
    tu = 'point.cpp'
    def __init__(s, N, op, sig, args, exp, inplace=False, alias=None, free=False, dom=None, const=None):
        s.N = N; s.op = op; s.sig = sig; s.args = args; s.exp = exp; s.inplace = inplace; s.alias = alias; s.free = free; s.dom = dom; s.const = const
        s.name = f'Point<{N}>::{op}({args}{"" if alias is None else " alias " + str(alias)})'
    def select(s, P):
        T = rf'Point<{s.N}, double>'
        fs = find(P, s.op, None if s.free else rf'^{T}$', None, len(s.args))
        out = []
        for f in fs:
            ts = [ptype(C.qt(p)) for p in f.params]
            want = [('real',) if a == 's' else ptype(T) for a in s.args]
            if ts == want and (not s.free or f.kind == 'FunctionDecl') and (s.const is None or f.const == s.const): out.append(f)
        return out
    def setup(s, ex, fn):
        cells = []
        vals = {}
        this = None
        if not s.free:
            a = ex.symb(ptype(PT(s.N)), 'a'); this = LV(ex.new_cell(a, 'this', PT(s.N))); cells.append((this, a, True)); vals['this'] = a
        args = []
        for i, k in enumerate(s.args):
            if s.alias == 'self': lv = this; v = ex.read(this)
            elif isinstance(s.alias, int) and k == 's': lv = this.ext(('i', s.alias)); v = ex.read(lv)
            else:
                v = z3.Real(f's{i}') if k == 's' else ex.symb(ptype(PT(s.N)), f'b{i}')
                lv = LV(ex.new_cell(v, f'arg{i}', 'double' if k == 's' else PT(s.N))); cells.append((lv, v, False))
            vals[i] = v; args.append(lv)
        s.cells = cells; s.vals = vals; s.this_lv = this
        if s.dom: ex.assume(s.dom(vals))
        return this, args
    def post(s, ex, fn, ret):
        exp = s.exp(s.vals)
        if s.inplace:
            got = ex.read(s.this_lv); ex.oblige('returns *this', isinstance(ret, LV) and ret.cell is s.this_lv.cell and ret.path == s.this_lv.path, 'post')
        else: got = ex.read(ret)
        if isinstance(exp, list):
            g = comps(got)
            ex.oblige('number of components', len(g) == len(exp), 'post')
            for k, (x, y) in enumerate(zip(g, exp)): ex.oblige(f'component {k}', x == y, 'post')
        else:
            for nm, o in (exp if isinstance(exp, tuple) else (('value', exp),)): ex.oblige(nm, o(got) if callable(o) else got == o, 'post')
        for lv, v, isthis in s.cells:
            if isthis and s.inplace: continue
            for k, (x, y) in enumerate(zip(comps(ex.read(lv)), comps(v))): ex.oblige(f'{"this" if isthis else "argument"} unchanged, component {k}', x == y, 'frame')
UNITS = []
def c(v): return comps(v)
for N in range(1, 6):
    A = lambda v: c(v['this'])
    add = lambda v: [x + y for x, y in zip(c(v['this']), c(v[0]))]
    sub = lambda v: [x - y for x, y in zip(c(v['this']), c(v[0]))]
    mul = lambda v: [x * v[0] for x in c(v['this'])]
    div = lambda v: [x / v[0] for x in c(v['this'])]
    nz = lambda v: v[0] != 0
    UNITS += [PU(N, 'operator+', '', 'p', add), PU(N, 'operator+=', '', 'p', add, True), PU(N, 'operator+=', '', 'p', add, True, 'self'), PU(N, 'operator+', '', 'p', add, False, 'self'),
              PU(N, 'operator-', '', 'p', sub), PU(N, 'operator-=', '', 'p', sub, True), PU(N, 'operator-=', '', 'p', sub, True, 'self'),
              PU(N, 'operator-', '', '', lambda v: [-x for x in c(v['this'])]),
              PU(N, 'operator*', '', 's', mul), PU(N, 'operator*=', '', 's', mul, True),
              PU(N, 'operator/', '', 's', div, dom=nz), PU(N, 'operator/=', '', 's', div, True, dom=nz),
              PU(N, 'operator*', '', 'sp', lambda v: [x * v[0] for x in c(v[1])], free=True),
              PU(N, 'operator/', '', 'sp', lambda v: [v[0] / x for x in c(v[1])], free=True, dom=lambda v: z3.And([x != 0 for x in c(v[1])])),
              PU(N, 'operator*', '', 'p', lambda v: z3.Sum([x * y for x, y in zip(c(v['this']), c(v[0]))])),
              PU(N, 'operator*', '', 'p', lambda v: z3.Sum([x * x for x in c(v['this'])]), False, 'self'),
              PU(N, 'SquaredEuclidianNorm', '', '', lambda v: z3.Sum([x * x for x in c(v['this'])])),
              PU(N, 'EuclidianNorm', '', '', lambda v: (('non-negative', lambda g: g >= 0), ('square is the squared norm', lambda g, v=v: g * g == z3.Sum([x * x for x in c(v['this'])]))))]
    for j in range(N):
        UNITS += [PU(N, 'operator*=', '', 's', mul, True, j), PU(N, 'operator/=', '', 's', div, True, j, dom=nz), PU(N, 'operator*', '', 's', mul, False, j), PU(N, 'operator/', '', 's', div, False, j, dom=nz)]
TRUSTED = ['std::sqrt(x) for x >= 0 is the non-negative real whose square is x']
