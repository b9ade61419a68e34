"""Value trees: z3 leaves inside records / fixed arrays / vectors (len + arrays lifted leaf-wise)."""
import z3
from z3 import IntVal, RealVal, BoolVal, Int, Real, Bool, If, And, Or, Not, Implies, Select, Store, K, IntSort, RealSort, BoolSort, ArraySort

class Unsupported(Exception):
    pass

class RecV:
    __slots__ = ('t', 'f')
    def __init__(s, t, f): s.t = t; s.f = f
    def set(s, k, v):
        d = dict(s.f); d[k] = v; return RecV(s.t, d)
class ArrV:
    __slots__ = ('e',)
    def __init__(s, e): s.e = list(e)
    def set(s, i, v):
        l = list(s.e); l[i] = v; return ArrV(l)
class CVec(ArrV):
    """vector of concrete length (bounded units only)"""
    __slots__ = ()
    def set(s, i, v):
        l = list(s.e); l[i] = v; return CVec(l)
    @property
    def len(s): return z3.IntVal(len(s.e))
class VecV:
    __slots__ = ('len', 'elem')
    def __init__(s, n, e): s.len = n; s.elem = e
class Opaque:
    __slots__ = ('what', 'args')
    def __init__(s, w): s.what = w; s.args = None
    def __repr__(s): return f'Opaque({s.what})'
class Lam:
    __slots__ = ('fn', 'frame', 'copies', 'this')
class Ptr:
    __slots__ = ('lv',)
    def __init__(s, lv): s.lv = lv
class BytePtr:
    """reinterpret_cast view of a vector's storage as bytes"""
    __slots__ = ('lv', 'size')
    def __init__(s, lv, size): s.lv = lv; s.size = size
class Iter:
    __slots__ = ('lv', 'i')
    def __init__(s, lv, i): s.lv = lv; s.i = i
class InitList:
    __slots__ = ('e',)
    def __init__(s, e): s.e = e
class FnRef:
    __slots__ = ('decl', 'bound')
    def __init__(s, d, b=None): s.decl = d; s.bound = b

class Cell:
    __slots__ = ('val', 'name', 'ctype', 'idx')
    def __init__(s, v, name='', ctype=''): s.val = v; s.name = name; s.ctype = ctype; s.idx = -1
class LV:
    __slots__ = ('cell', 'path')
    def __init__(s, c, p=()): s.cell = c; s.path = p
    def ext(s, p): return LV(s.cell, s.path + (p,))

def isleaf(v): return isinstance(v, z3.ExprRef)

def mapl(f, v):
    if isleaf(v): return f(v)
    if isinstance(v, RecV): return RecV(v.t, {k: mapl(f, x) for k, x in v.f.items()})
    if isinstance(v, ArrV): return type(v)([mapl(f, x) for x in v.e])
    if isinstance(v, VecV): return VecV(mapl(f, v.len), mapl(f, v.elem))
    if isinstance(v, Iter): return Iter(v.lv, mapl(f, v.i))
    return v
def zipl(f, a, b):
    if isleaf(a): return f(a, b)
    if isinstance(a, RecV): return RecV(a.t, {k: zipl(f, x, b.f[k]) for k, x in a.f.items()})
    if isinstance(a, ArrV): return type(a)([zipl(f, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, VecV): return VecV(zipl(f, a.len, b.len), zipl(f, a.elem, b.elem))
    return a
def leaves(v, pre=()):
    if isleaf(v): yield pre, v
    elif isinstance(v, RecV):
        for k, x in v.f.items(): yield from leaves(x, pre + (('f', k),))
    elif isinstance(v, ArrV):
        for i, x in enumerate(v.e): yield from leaves(x, pre + (('i', i),))
    elif isinstance(v, VecV):
        yield from leaves(v.len, pre + (('len',),))
        yield from leaves(v.elem, pre + (('elem',),))
    elif isinstance(v, Iter): yield from leaves(v.i, pre + (('it',),))
def setleaf(v, path, x):
    if not path: return x
    p = path[0]
    if p[0] == 'f': return v.set(p[1], setleaf(v.f[p[1]], path[1:], x))
    if p[0] == 'i': return v.set(p[1], setleaf(v.e[p[1]], path[1:], x))
    if p[0] == 'len': return VecV(setleaf(v.len, path[1:], x), v.elem)
    if p[0] == 'elem': return VecV(v.len, setleaf(v.elem, path[1:], x))
    if p[0] == 'it': return Iter(v.lv, setleaf(v.i, path[1:], x))
    raise Unsupported('setleaf')
def has_lambda(a):
    """does the spine of an array term end in a lambda"""
    while True:
        if z3.is_quantifier(a): return True
        if z3.is_app(a):
            k = a.decl().kind()
            if k == z3.Z3_OP_STORE: a = a.arg(0); continue
            if k == z3.Z3_OP_ITE: return has_lambda(a.arg(1)) or has_lambda(a.arg(2))
        return False
def sel(a, j):
    """a[j], beta-reducing lambdas (loop summaries)"""
    if not has_lambda(a): return Select(a, j)
    if z3.is_quantifier(a): return z3.simplify(z3.substitute_vars(a.body(), j))
    k = a.decl().kind()
    if k == z3.Z3_OP_ITE: return If(a.arg(0), sel(a.arg(1), j), sel(a.arg(2), j))
    i, v = a.arg(1), a.arg(2)
    c = z3.simplify(i == j)
    if z3.is_true(c): return v
    if z3.is_false(c): return sel(a.arg(0), j)
    return If(c, v, sel(a.arg(0), j))
def vsel(vec, i):
    return mapl(lambda a: sel(a, i), vec.elem)
def vstore(vec, i, x):
    return VecV(vec.len, zipl(lambda a, y: Store(a, i, coerce(y, a.sort().range())), vec.elem, x))
def lift0(v):
    return mapl(lambda l: K(IntSort(), l), v)
def toreal(x):
    if z3.is_int_value(x): return z3.RealVal(x.as_long())
    return z3.ToReal(x)
def coerce(x, sort):
    if x.sort() == sort: return x
    if sort == RealSort() and x.sort() == IntSort(): return toreal(x)
    raise Unsupported(f'sort mismatch {x.sort()} vs {sort}')

_ctr = [0]
def fresh_like(leaf, base='h'):
    _ctr[0] += 1
    return z3.Const(f'{base}!{_ctr[0]}', leaf.sort())
def fresh(sort, base='h'):
    _ctr[0] += 1
    return z3.Const(f'{base}!{_ctr[0]}', sort)
def reset_fresh(): _ctr[0] = 0

# ---------------------------------------------------------------- C++ type strings
def split_targs(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

INTS = {'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True), 'unsigned long': (64, False),
        'size_t': (64, False), 'size_type': (64, False), 'char': (8, True), 'unsigned char': (8, False), 'signed char': (8, True), 'short': (16, True), 'unsigned short': (16, False),
        'long long': (64, True), 'unsigned long long': (64, False), 'std::size_t': (64, False), 'ptrdiff_t': (64, True), 'difference_type': (64, True)}
FLOATS = {'double', 'float', 'long double'}

def clean(t):
    t = t.strip()
    t = t.replace('typename ', '').replace('class ', '').replace('struct ', '').replace('enum ', '')
    while True:
        o = t
        for p in ('const ', 'volatile ', 'std::', 'bezman::', 'utils::', 'algorithms::', 'type_traits::', 'computational_differentiation::', '__gnu_cxx::'):
            if t.startswith(p): t = t[len(p):]
        for p in (' const', '&&', '&', ' '):
            if t.endswith(p): t = t[:-len(p)]
        t = t.strip()
        if t == o: return t

STR_VEC = [False]       # std::string as a vector of char (set by specifications that reason about text)
def ptype(t):
    """-> canonical type: ('int',bits,signed) | ('real',) | ('bool',) | ('vec',T) | ('arr',T,n) | ('rec',canonical-name) | ('ptr',T) | ('other',s)"""
    t = clean(t)
    if t in INTS: return ('int',) + INTS[t]
    if t in FLOATS: return ('real',)
    if t == 'bool': return ('bool',)
    if t.endswith('*'): return ('ptr', ptype(t[:-1]))
    if t.endswith(']') and '[' in t:
        b, n = t[:-1].rsplit('[', 1)
        return ('arr', ptype(b), int(n)) if n.isdigit() else ('other', t)
    if t.endswith('>') and '<' in t:
        name, args = t.split('<', 1)
        args = split_targs(args[:-1])
        name = clean(name)
        if name == 'vector': return ('vec', ptype(args[0]))
        if name == 'array':
            n = args[1].rstrip('ULul')
            return ('arr', ptype(args[0]), int(n)) if n.isdigit() else ('other', t)
        if name == 'Point':
            n = args[0].rstrip('ULul')
            return ('arr', ptype(args[1]) if len(args) > 1 else ('real',), int(n)) if n.isdigit() else ('other', t)
        if name == 'initializer_list': return ('ilist', ptype(args[0]))
        if name == 'basic_string': return ('vec', ('int', 8, True)) if STR_VEC[0] else ('str',)
        if name == 'AlgoDiffType' and len(args) == 1: args.append('0')
        if name in ('BezierSpline', 'RationalBezierSpline') and len(args) == 2: args.append('double')
        return ('rec', name + '<' + ', '.join(tname(ptype(a)) if not a.rstrip('ULul').isdigit() else a.rstrip('ULul') for a in args) + '>')
    if t in ('string',): return ('vec', ('int', 8, True)) if STR_VEC[0] else ('str',)
    return ('rec', t)

def tname(p):
    k = p[0]
    if k == 'int':
        for n in ('int', 'unsigned int', 'long', 'unsigned long', 'char', 'unsigned char', 'signed char', 'short', 'unsigned short'):
            if INTS[n] == p[1:]: return n
    if k == 'real': return 'double'
    if k == 'bool': return 'bool'
    if k == 'vec': return f'vector<{tname(p[1])}>'
    if k == 'arr': return f'Point<{p[2]}, {tname(p[1])}>' if p[1][0] in ('real', 'rec') else f'array<{tname(p[1])}, {p[2]}>'
    if k == 'rec': return p[1]
    if k == 'ptr': return tname(p[1]) + ' *'
    return p[-1] if len(p) > 1 else k
