"""Products and powers of polynomial splines (bounded in the degrees)."""
from specs.bnd import *
from specs.c09 import at, chk
PAIRS = {1: [((a,), (b,)) for a in range(0, 5) for b in range(0, 5)] + [((6,), (3,)), ((2,), (7,))],
         2: [((0, 0), (0, 0)), ((1, 2), (1, 2)), ((1, 2), (2, 1)), ((0, 3), (2, 1)), ((2, 2), (1, 0)), ((3, 1), (1, 2))],
         3: [((1, 0, 2), (1, 0, 2)), ((1, 2, 0), (0, 1, 1)), ((0, 1, 1), (2, 1, 0)), ((1, 1, 1), (1, 1, 2))]}
PD = {1: [2], 2: [2], 3: [3]}
def vmul(a, b):
    if len(a) == 1: return [a[0] * y for y in b]
    if len(b) == 1: return [x * b[0] for x in a]
    return [sumr(x * y for x, y in zip(a, b))]
def produ(D, p, q, da, db):
    xs = xi(D)
    def setup(ex, c):
        c['a'] = bspline(ex, D, p, 'a', da); c['b'] = bspline(ex, D, q, 'b', db); return c['a'], [c['b']], ['this', 0]
    return BU(f'{ST(D, p)} degrees {da} times {ST(D, q)} degrees {db}', 'operator*', ST(D, p), [ST(D, q)], setup,
              lambda ex, c, ret: chk(ex, ret, [x + y for x, y in zip(da, db)], xs, vmul(at(c['a'], xs), at(c['b'], xs)), 'product'))
def selfp(D, p, da):
    xs = xi(D)
    def setup(ex, c): c['a'] = bspline(ex, D, p, 'a', da); return c['a'], [('this', ())], ['this']
    return BU(f'{ST(D, p)} degrees {da} times itself', 'operator*', ST(D, p), [ST(D, p)], setup,
              lambda ex, c, ret: chk(ex, ret, [2 * x for x in da], xs, vmul(at(c['a'], xs), at(c['a'], xs)), 'product'))
def power(D, da, k):
    xs = xi(D)
    def setup(ex, c): c['a'] = bspline(ex, D, 0, 'a', da); return c['a'], [I(k)], ['this', 0]
    return BU(f'RaisePower({k}) {ST(D, 0)} degrees {da}', 'RaisePower', ST(D, 0), [SZ], setup,
              lambda ex, c, ret: chk(ex, ret, [k * x for x in da], xs, [pw_(at(c['a'], xs)[0], k)], 'power'))
UNITS = []
for D in PAIRS:
    for p in PD[D]:
        for da, db in PAIRS[D]:
            UNITS += [produ(D, 0, 0, da, db), produ(D, 0, p, da, db), produ(D, p, 0, da, db), produ(D, p, p, da, db)]
        for da in sorted({a for a, _ in PAIRS[D]}): UNITS += [selfp(D, 0, da), selfp(D, p, da)]
UNITS += [power(1, (n,), k) for n in range(0, 3) for k in range(0, 8)] + [power(1, (3,), k) for k in range(5)] + [power(1, (5,), 3)] + [power(2, d, k) for d in [(0, 0), (1, 1), (1, 0), (0, 2)] for k in range(0, 4)] + [power(2, (2, 1), 2), power(3, (1, 0, 1), 2), power(3, (0, 1, 1), 3), power(3, (1, 1, 1), 0), power(3, (1, 1, 1), 1)]
UNITS.sort(key=lambda u: -('RaisePower' in u.name))
from specs import g10
UNITS += g10.UNITS
LEAN = ['prod1', 'prod2', 'prod3', 'prod_ev', 'mul_ev', 'ev_linear']
LEVEL = 'proof'
BOUNDED = ['additionally, as refuting obligations: products 1-D every pair 0..4 and two larger, 2-D six, 3-D four pairs of tuples; powers 0..7 for 1-D degree 0..2, smaller ranges above; control points and position symbolic']
EXPLAIN = 'units "every pair of degrees" (sums below 30, the supported range): every control point of the product is the weighted double/triple/sixfold sum of control-point products (loop invariants over ghost partial sums, choose by its contract C03, positions by C01, SMT); Lean prod1/2/3 + prod_ev: the function is the product; powers by the contract of the product and of half the power; the product of vector splines is the sum of the component products'
