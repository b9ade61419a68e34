"""Integer power: exact machine arithmetic for every integral type; unbounded in base and exponent (recursion by contract)."""
from specs.common import *
TYPES = ['int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'signed char', 'unsigned char', 'long long', 'unsigned long long']
ZI = z3.IntSort()
POW = z3.Function('POW', ZI, ZI, ZI)      # mathematical power: POW(b,0)=1, POW(b,n+1)=b*POW(b,n)
def rng(t):
    _, w, s = ptype(t); return (-(1 << w - 1), 1 << w - 1) if s else (0, 1 << w)
def rep(t, v): lo, hi = rng(t); return z3.And(lo <= v, v < hi)
def lemmas(b, n):
    """instances of the induction lemmas below at k = n div 2"""
    k = n / 2; P = POW(b, k)
    return [POW(b, I(0)) == 1, POW(b, I(1)) == b, z3.Implies(z3.And(n >= 0, n % 2 == 0), POW(b, n) == P * P), z3.Implies(z3.And(n >= 0, n % 2 == 1), POW(b, n) == b * (P * P)),
            z3.Implies(k >= 1, small(b, P))]
def small(b, P): return z3.And(z3.Implies(b == 0, P == 0), z3.Implies(b == 1, P == 1), z3.Implies(b == -1, z3.Or(P == 1, P == -1)), z3.Implies(b >= 2, P >= b), z3.Implies(b <= -2, z3.Or(P <= b, P >= -b)))
class Contract:
    """IntPower<T>(b, n): n >= 0 and b^n representable in T  ==>  returns b^n"""
    def __init__(s, t): s.t = t
    def match(s, f): return f.name == 'IntPower' and ptype(C.qt(f.params[0])) == ptype(s.t)
    def apply(s, ex, fn, this, args):
        b, n = ex.read(args[0]), ex.read(args[1])
        ex.oblige('recursive call: exponent non-negative', n >= 0, 'precondition')
        ex.oblige('recursive call: power representable', rep(s.t, POW(b, n)), 'precondition')
        ex.oblige('recursion terminates', z3.And(n < ex.n0, ex.n0 > 0), 'variant')
        ex.assume(z3.And(n >= 0, rep(s.t, POW(b, n))))
        return LV(ex.new_cell(POW(b, n), 'ret'))
class IP(Unit):
    tu = 'algos.cpp'; timeout = 20
    def __init__(s, t): s.t = t; s.name = f'IntPower<{t}>'; s.contracts = [Contract(t)]
    def hook(s, ex): ex.exact = True
    def select(s, P): return [f for f in P.fns.values() if f.name == 'IntPower' and f.body is not None and f.targs and ptype(C.qt(f.params[0])) == ptype(s.t)]
    def setup(s, ex, fn):
        b, n = z3.Int('base'), z3.Int('power'); ex.n0 = n
        s.b, s.n = b, n
        ex.assume([rep(s.t, b), rep(s.t, n), n >= 0, rep(s.t, POW(b, n))]); ex.assume(lemmas(b, n))
        s.cb, s.cn = LV(ex.new_cell(b, 'base', s.t)), LV(ex.new_cell(n, 'power', s.t))
        return None, [s.cb, s.cn]
    def post(s, ex, fn, ret):
        ex.oblige('returns base to the power', ex.read(ret) == POW(s.b, s.n), 'post')
        ex.oblige('arguments unchanged', z3.And(ex.read(s.cb) == s.b, ex.read(s.cn) == s.n), 'frame')
class Lemma(Unit):
    """POW(b, m+k) = POW(b, m) POW(b, k) and the magnitude facts, by induction on k from POW(b,0)=1, POW(b,k+1)=b POW(b,k); even and odd exponents are the instances m=k and m=k, one more factor"""
    tu = 'algos.cpp'; name = 'lemma: powers add'; timeout = 20
    def lemma(s, ex):
        b, m, k = z3.Ints('b m k')
        ex.assume([m >= 0, k >= 0, POW(b, I(0)) == 1]); step = lambda n: ex.assume(POW(b, n + 1) == b * POW(b, n))
        ex.oblige('base: POW(b,m+0) = POW(b,m)*POW(b,0)', POW(b, m) == POW(b, m) * POW(b, I(0)), 'lemma')
        P, Q, S = POW(b, m), POW(b, k), POW(b, m + k)
        sh = list(ex.hyps)
        ex.assume([POW(b, k + 1) == b * Q, POW(b, m + (k + 1)) == b * S, S == P * Q])
        ex.oblige('step: POW(b,m+k+1) = POW(b,m)*POW(b,k+1)', z3.substitute(POW(b, m + (k + 1)) == P * POW(b, k + 1), (POW(b, m + (k + 1)), b * (P * Q)), (POW(b, k + 1), b * Q)), 'lemma')
        ex.hyps = sh + [POW(b, I(1)) == b]
        ex.oblige('base: magnitude at exponent 1', small(b, POW(b, I(1))), 'lemma')
        ex.hyps = sh + [k >= 1, POW(b, k + 1) == b * Q, small(b, Q)]
        ex.oblige('step: magnitude at exponent k+1', small(b, POW(b, k + 1)), 'lemma')
UNITS = [IP(t) for t in TYPES] + [Lemma()]
TRUSTED = ['POW(b,0)=1, POW(b,n+1)=b POW(b,n): definition of the mathematical power; its addition law and magnitude bounds are discharged as induction steps']
