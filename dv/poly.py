"""Exact polynomial normal form of z3 arithmetic terms (atoms = non-arithmetic subterms)."""
import z3
from fractions import Fraction

class TooBig(Exception): pass
LIMIT = 40000

def _key(m): return m

def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = dict(m)
    for k, e in n: d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))
def pmul(a, b):
    if len(a) * len(b) > LIMIT * 10: raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r

class Norm:
    def __init__(self):
        self.atoms = {}     # id -> expr
        self.cache = {}
    def atom(self, e):
        i = e.get_id(); self.atoms[i] = e
        return {((i, 1),): Fraction(1)}
    def __call__(self, e):
        # iterative post-order to survive deep terms
        st = [(e, False)]
        C = self.cache
        while st:
            x, done = st.pop()
            k = x.get_id()
            if k in C: continue
            if not done:
                st.append((x, True))
                if self.arith(x):
                    for c in x.children(): st.append((c, False))
                continue
            C[k] = (x, self.comb(x))
        return C[e.get_id()][1]
    OPS = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL)
    def arith(self, x):
        if not z3.is_app(x): return False
        k = x.decl().kind()
        if k in self.OPS: return True
        if k == z3.Z3_OP_DIV:
            return self.num(x.arg(1)) not in (None, 0)
        if k == z3.Z3_OP_POWER:
            n = self.num(x.arg(1)); return n is not None and n.denominator == 1 and 0 <= n <= 64
        return False
    def num(self, x):
        if z3.is_int_value(x): return Fraction(x.as_long())
        if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
        return None
    def comb(self, x):
        n = self.num(x)
        if n is not None: return {(): n} if n else {}
        if not self.arith(x): return self.atom(x)
        k = x.decl().kind()
        ch = [self.cache[c.get_id()][1] for c in x.children()] if k not in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) else [self.cache[x.arg(0).get_id()][1]]
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch: r = padd(r, c)
            return r
        if k == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]: r = padd(r, c, -1)
            return r
        if k == z3.Z3_OP_UMINUS: return {m: -c for m, c in ch[0].items()}
        if k == z3.Z3_OP_TO_REAL: return ch[0]
        if k == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]: r = pmul(r, c)
            if len(r) > LIMIT: raise TooBig()
            return r
        if k == z3.Z3_OP_DIV:
            n = self.num(x.arg(1)); return {m: c / n for m, c in ch[0].items()}
        if k == z3.Z3_OP_POWER:
            n = int(self.num(x.arg(1))); r = {(): Fraction(1)}
            for _ in range(n): r = pmul(r, ch[0])
            return r
    def back(self, p, real=False):
        if not p: return z3.RealVal(0) if real else z3.IntVal(0)
        ts = []
        for m, c in sorted(p.items()):
            if real: t = z3.RealVal(str(c))
            else:
                if c.denominator != 1: raise TooBig()
                t = z3.IntVal(int(c))
            fs = []
            for a, e in m:
                x = self.atoms[a]
                if real and x.sort() == z3.IntSort(): x = z3.ToReal(x)
                fs += [x] * e
            if fs:
                q = fs[0]
                for f in fs[1:]: q = q * f
                t = q if c == 1 else t * q
            ts.append(t)
        r = ts[0]
        for t in ts[1:]: r = r + t
        return r

def is_zero_diff(a, b):
    N = Norm()
    try:
        return not padd(N(a), N(b), -1)
    except TooBig:
        return False

def exact_div(a, b):
    """q with a == q*b as polynomials, or None"""
    N = Norm()
    try:
        pa, pb = N(a), N(b)
    except TooBig: return None
    if not pb: return None
    def lead(p): return max(p, key=lambda m: (sum(e for _, e in m), m))
    # graded order: leading monomial of b must divide leading monomial of the remainder at every step
    lb = lead(pb); cb = pb[lb]
    q = {}
    r = dict(pa)
    for _ in range(200):
        if not r:
            try: return z3.simplify(N.back(q))
            except TooBig: return None
        lr = lead(r)
        d = dict(lr)
        for k, e in lb:
            if d.get(k, 0) < e: return None
            d[k] -= e
            if not d[k]: del d[k]
        m = tuple(sorted(d.items())); c = r[lr] / cb
        q = padd(q, {m: c})
        r = padd(r, pmul({m: c}, pb), -1)
    return None

def norm_int(e):
    """canonical polynomial form of an int term"""
    N = Norm()
    try: return N.back(N(e))
    except TooBig: return e

def norm_arith(e):
    N = Norm()
    try: return N.back(N(e), e.sort() == z3.RealSort())
    except TooBig: return e
def diff_expr(a, h):
    """a - h as a normal form free of h, or None"""
    N = Norm()
    try: d = padd(N(a), N(h), -1)
    except TooBig: return None
    hi = h.get_id()
    for m in d:
        for at, _ in m:
            if at == hi: return None
    return N.back(d, h.sort() == z3.RealSort())

class RatNorm:
    """rational functions: (numerator, denominator) polynomials; equality by cross multiplication (divisors assumed non-zero)"""
    def __init__(self): self.N = Norm(); self.cache = {}
    def key(self, p): return frozenset(p.items())
    def isone(self, p): return p == {(): Fraction(1)}
    def __call__(self, e):
        st = [(e, False)]; Cc = self.cache
        while st:
            x, done = st.pop(); k = x.get_id()
            if k in Cc: continue
            if not done:
                st.append((x, True))
                if self.arith(x):
                    for c in x.children(): st.append((c, False))
                continue
            Cc[k] = (x, self.comb(x))
        return Cc[e.get_id()][1]
    def arith(self, x):
        return z3.is_app(x) and (self.N.arith(x) or x.decl().kind() == z3.Z3_OP_DIV)
    def add(self, a, b, s=1):
        if a[1] == b[1]: return (padd(a[0], b[0], s), a[1])
        if self.isone(b[1]): return (padd(a[0], pmul(b[0], a[1]), s), a[1])
        if self.isone(a[1]): return (padd(pmul(a[0], b[1]), b[0], s), b[1])
        return (padd(pmul(a[0], b[1]), pmul(b[0], a[1]), s), pmul(a[1], b[1]))
    def comb(self, x):
        one = {(): Fraction(1)}
        if not self.arith(x):
            n = self.N.num(x)
            return (({(): n} if n else {}), one) if n is not None else (self.N.atom(x), one)
        k = x.decl().kind()
        ch = [self.cache[c.get_id()][1] for c in x.children()]
        if k == z3.Z3_OP_DIV:
            a, b = ch
            if self.isone(a[1]) and self.isone(b[1]): return a[0], b[0]
            return pmul(a[0], b[1]), pmul(a[1], b[0])
        if k == z3.Z3_OP_ADD:
            r = ch[0]
            for c in ch[1:]: r = self.add(r, c)
            return r
        if k == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]: r = self.add(r, c, -1)
            return r
        if k == z3.Z3_OP_UMINUS: return ({m: -c for m, c in ch[0][0].items()}, ch[0][1])
        if k == z3.Z3_OP_TO_REAL: return ch[0]
        if k == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]:
                if r[1] == c[0]: r = (r[0], c[1]); continue
                if c[1] == r[0]: r = (c[0], r[1]); continue
                r = (pmul(r[0], c[0]), c[1] if self.isone(r[1]) else r[1] if self.isone(c[1]) else pmul(r[1], c[1]))
            return r
        if k == z3.Z3_OP_POWER:
            n = int(self.N.num(x.arg(1))); r = (one, one)
            for _ in range(n): r = (pmul(r[0], ch[0][0]), pmul(r[1], ch[0][1]))
            return r
        raise TooBig()
def rat_equal(a, b):
    R = RatNorm()
    try:
        x, y = R(a), R(b)
        if x[1] == y[1]: return x[0] == y[0]
        return pmul(x[0], y[1]) == pmul(y[0], x[1])
    except TooBig: return False

def rat_form(a):
    try: return RatNorm()(a)
    except TooBig: return None
def rat_same(x, y):
    if len(x[0]) * len(y[1]) > 400 or len(y[0]) * len(x[1]) > 400: return False
    return pmul(x[0], y[1]) == pmul(y[0], x[1])
