"""C20: elementary functions of AlgoDiffType: value and chain rule, for every argument where the derivative is defined."""
from specs.adc import *
V = z3.RealVal
LN10 = m('log', V(10))
def chain(F, dF):
    def f(a):
        if not isinstance(a, Dual): return F(a)
        g = f(a.v); s = dfull(dF, a.v)
        return a.mk(g, lambda k: mul(a.d(k), s))
    return f
def dfull(dF, v): return dF(v)
# function and derivative on plain reals; on nested values the derivative is itself evaluated by the chain rule
one = lambda v: up(V(1), v)
def lift(name):
    """UF on reals, chain rule on duals"""
    def f(a): return m(name, a) if not isinstance(a, Dual) else FUN[name](a)
    return f
FUN = {}
sinf, cosf, tanf, expf, logf, log10f, sqrtf = (lift(n) for n in ('sin', 'cos', 'tan', 'exp', 'log', 'log10', 'sqrt'))
recip = lambda v: div(V(1), v)
def absf(a):
    if not isinstance(a, Dual): return z3.If(a >= 0, a, -a)
    s = z3.If(rd(a) > 0, V(1), V(-1))
    return scale(a, s)
def scale(a, s):
    if not isinstance(a, Dual): return a * s
    return a.mk(scale(a.v, s), lambda k: scale(a.d(k), s))
D = {'sin': lambda v: cosf(v), 'cos': lambda v: mul(sinf(v), V(-1)), 'exp': lambda v: expf(v), 'log': lambda v: recip(v), 'log10': lambda v: recip(mul(v, LN10)),
     'sqrt': lambda v: div(V('1/2'), sqrtf(v)), 'tan': lambda v: recip(mul(cosf(v), cosf(v))),
     'asin': lambda v: recip(sqrtf(sub(one(v), mul(v, v)))), 'acos': lambda v: mul(recip(sqrtf(sub(one(v), mul(v, v)))), V(-1)), 'atan': lambda v: recip(add(one(v), mul(v, v)))}
for n in D: FUN[n] = chain(lambda a, n=n: m(n, a), D[n])
def powv(b, p):
    """b^p = exp(p ln b), b > 0"""
    if not isinstance(b, Dual): return m('pow', b, p)
    P = powv(b.v, p.v)
    lnb = logf(b.v)
    return b.mk(P, lambda k: mul(P, add(mul(p.d(k), lnb), div(mul(p.v, b.d(k)), b.v))))
def powc(b, p):
    if not isinstance(b.v, Dual):
        return b.mk(m('pow', b.v, p), lambda k: z3.If(p == 0, V(0), p * m('pow', b.v, p - 1)) * b.d(k))
    P = powv(b.v, p); Q = powv(b.v, sub(p, V(1)))
    return b.mk(P, lambda k: mul(b.d(k), mul(p, Q)))
x2 = lambda v: v * v
pos = lambda v: v > 0
unit = lambda v: z3.And(v > -1, v < 1)
# facts about the mathematical functions (trusted), instantiated at the argument
def tanax(v): return [m('cos', v) * m('cos', v) + m('sin', v) * m('sin', v) == 1, m('tan', v) * m('cos', v) == m('sin', v), m('cos', v) != 0]
def sqrtax(v): return [m('sqrt', v) > 0, m('sqrt', v) * m('sqrt', v) == v]
def asinax(v): return sqrtax(1 - v * v)
def powax(b, p): return [m('pow', b, p) == m('exp', p * m('log', b)), m('pow', b, p) > 0, m('pow', b, p - 1) * b == m('pow', b, p), m('pow', b, p - 1) == m('exp', (p - 1) * m('log', b)), m('pow', b, p - 2) * b == m('pow', b, p - 1)]
LNAX = [LN10 > 0]
UNITS = []
for T in TYPES:
    for n, dom, ax in (('sin', None, None), ('cos', None, None), ('exp', None, None), ('log', pos, None), ('log10', pos, lambda v: LNAX), ('sqrt', pos, sqrtax), ('tan', None, tanax),
                       ('asin', unit, asinax), ('acos', unit, asinax), ('atan', None, None)):
        UNITS.append(AU(T, n, 'a', FUN[n], free=True, dom=dom, axioms=ax))
    UNITS.append(AU(T, 'abs', 'a', absf, free=True, dom=lambda v: v != 0))
    UNITS.append(AU(T, 'pow', 'aa', powv, free=True, dom=lambda b, p: b > 0, axioms=powax))
    UNITS.append(AU(T, 'pow', 'aa', powv, free=True, alias=True, dom=lambda b, p: b > 0, axioms=powax))
    if T == NEST: UNITS.append(AU(T, 'pow', 'as', powc, free=True, dom=lambda b, p: b > 0, axioms=powax))
    else: UNITS.append(AU(T, 'pow', 'as', powc, free=True))
TRUSTED = ['std:: sin cos tan asin acos atan exp log log10 sqrt pow are the mathematical functions; facts used: sin^2+cos^2=1, tan=sin/cos, sqrt(v)^2=v, x^p=exp(p ln x)>0 and x^(p-1) x=x^p for x>0, ln 10>0',
           'textbook derivatives of the elementary functions (specification side)']
