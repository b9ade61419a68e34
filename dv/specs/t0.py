from specs.common import *
class PointOp(Unit):
    def __init__(s, op, n, sig): s.op = op; s.n = n; s.sig = sig; s.name = f'Point<{n}>::{op}[{sig}]'
    def select(s, P): return find(P, s.op, rf'^Point<{s.n}, double>$', s.sig)
    def setup(s, ex, fn):
        this = LV(ex.new_cell(ex.symb(ptype(PT(s.n)), 'a'), 'this'))
        s.a = ex.read(this); s.b = ex.symb(ptype(C.qt(fn.params[0])), 'b')
        return this, [LV(ex.new_cell(s.b, 'rhs'))]
    def post(s, ex, fn, ret):
        exp = {'operator+': lambda a, b: a + b, 'operator-': lambda a, b: a - b, 'operator+=': lambda a, b: a + b}[s.op]
        for k in range(s.n):
            ex.oblige(f'component {k}', comps(ex.read(ret))[k] == exp(s.a.e[k], s.b.e[k]), 'post')
UNITS = [PointOp('operator+', 2, r'const Point &'), PointOp('operator-', 2, r'\(const Point &'), PointOp('operator+=', 2, 'Point')]
class L2G(Unit):
    def __init__(s, D): s.D = D; s.name = f'LocalToGlobalIndex<{D}>'
    def select(s, P): return find(P, 'LocalToGlobalIndex', rf'^BezierSpline<{s.D}, double')
    def setup(s, ex, fn):
        s.s = mk_spline(ex, s.D, 0, 's'); s.i = z3.Int('i')
        ex.assume(z3.And(s.i >= 0, s.i < ncp(s.s.f['degrees'].e)))
        return LV(ex.new_cell(s.s, 'this')), [LV(ex.new_cell(s.i, 'idx'))]
    def post(s, ex, fn, ret):
        ret = ex.read(ret); dg = s.s.f['degrees'].e; o = offsets(dg)
        for d in range(s.D): ex.oblige(f'digit {d} in range', z3.And(ret.e[d] >= 0, ret.e[d] <= dg[d]), 'post')
        ex.oblige('recomposes', s.i == sum(ret.e[d] * o[d] for d in range(s.D)), 'post')
UNITS += [L2G(1), L2G(2), L2G(3)]
