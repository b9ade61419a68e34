"""C22: Base64, every element type instantiated, every length and byte content (unbounded). std::string is a vector of char; object representations are uninterpreted bytes."""
from specs.common import *
from val import sel
import val
RFC = tuple(map(ord, 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'))
PAD = ord('=')
SIZE = {'double': 8, 'float': 4, 'int': 4, 'unsigned int': 4, 'char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'long': 8, 'unsigned long': 8}
kk, tt, jj = z3.Int('k!t'), z3.Int('t!t'), z3.Int('j!t')
def T(ex): return ex.table(RFC)
def facts(ex):
    f = T(ex)
    ex.assume(z3.ForAll([kk], z3.Implies(z3.And(0 <= kk, kk < 64), z3.And(f(kk) != PAD, f(kk) >= 43, f(kk) <= 122)), patterns=[f(kk)]))
def table_fact(ex, t, f):
    """facts of a constant table used by the code, evaluated on its contents"""
    r = T(ex); k = kk
    if t == RFC: return
    if len(t) >= 64 and t[:64] == RFC: ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < 64), f(k) == r(k)), patterns=[f(k)])); return
    if len(t) > 122 and all(t[c] == i for i, c in enumerate(RFC)):
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < 64), f(r(k)) == k), patterns=[f(r(k))])); return
    ex.assume(z3.And([f(I(i)) == x for i, x in enumerate(t)] + [r(I(i)) == x for i, x in enumerate(RFC)]))
def byte_range(ex, B):
    """every byte of a representation is in [0, 256)"""
    x = z3.Const('x!b', B.domain(0)); ex.assume(z3.ForAll([x, kk], z3.And(0 <= B(x, kk), B(x, kk) < 256), patterns=[B(x, kk)]))
def sixbit(by, g, c):
    """the c-th 6-bit digit of the 24-bit group g (RFC 4648), by(t) the t-th byte (0 beyond the end)"""
    a, b, d = by(3 * g), by(3 * g + 1), by(3 * g + 2)
    return [a / 4, (a % 4) * 16 + b / 16, (b % 16) * 4 + d / 64, d % 64][c]
def raw(ex, by, j):
    g = j / 4
    return z3.If(j % 4 == 0, T(ex)(sixbit(by, g, 0)), z3.If(j % 4 == 1, T(ex)(sixbit(by, g, 1)), z3.If(j % 4 == 2, T(ex)(sixbit(by, g, 2)), T(ex)(sixbit(by, g, 3)))))
def std(ex, by, n, j):
    """character j of the standard padded encoding of the n bytes by(0..n-1)"""
    return z3.If(z3.Or(z3.And(j % 4 == 2, 3 * (j / 4) + 1 >= n), z3.And(j % 4 == 3, 3 * (j / 4) + 2 >= n)), I(PAD), raw(ex, by, j))
def groups(n): return (n + 2) / 3
def FA(x, arr, body):
    if z3.is_const(arr) and arr.decl().kind() == z3.Z3_OP_UNINTERPRETED: return z3.ForAll([x], body, patterns=[arr[x]])
    return z3.ForAll([x], body)
def zeroed(by, n): return lambda t: z3.If(t < n, by(t), I(0))
def bytes_of(ex, v, L):
    B = ex.byte_fn(v.elem.sort().range())
    return lambda t: B(v.elem[t / L] if L > 1 else v.elem[t], t % L)
def pbytes(ex, v, N, L):
    """bytes of a vector of points: component after component"""
    def by(t):
        e = t / L if L > 1 else t; c = v.elem.e
        B = ex.byte_fn(c[0].sort().range()); x = c[-1][e / N]
        for k in range(N - 2, -1, -1): x = z3.If(e % N == k, c[k][e / N], x)
        return B(x, t % L)
    return by
def mod_of(S, pred):
    """modified state of a loop: the unique leaf satisfying pred(cell, value), found by its type"""
    out = []
    for (ci, path) in S.mod():
        c = S.ex.cells[ci]
        import sym
        v = sym.get_leaf(c.val, path)
        if pred(c, path, v): out.append((c, path, v))
    if len(out) != 1: raise Unsupported('loop state not recognised')
    return out[0]
def ints(S): 
    import sym
    return [(S.ex.cells[ci], p, sym.get_leaf(S.ex.cells[ci].val, p)) for ci, p in S.mod() if sym.get_leaf(S.ex.cells[ci].val, p).sort() == z3.IntSort()]
def counter(S):
    r = [x for x in ints(S) if not x[1]]
    if len(r) != 1: raise Unsupported('loop counter not recognised')
    return r[0][2]
def textvec(S):
    import sym
    cs = {ci for ci, p in S.mod() if 'basic_string' in S.ex.cells[ci].ctype or 'string' in S.ex.cells[ci].ctype}
    if len(cs) != 1: raise Unsupported('text not recognised')
    return S.ex.cells[cs.pop()].val
class B64(Unit):
    tu = 'b64.cpp'; timeout = 20; no_auto = True
    def hook(s, ex): val.STR_VEC[0] = True
    def table_fact(s, ex, t, f): table_fact(ex, t, f)
class Encode(B64):
    def __init__(s, t): s.t = t; s.L = SIZE[t]; s.name = f'Encode<{t}>'; s.loops = {0: LoopSpec(s.inv0), 1: LoopSpec(s.inv1)}
    def select(s, P):
        val.STR_VEC[0] = True
        return [f for f in P.fns.values() if f.name == 'Encode' and f.body is not None and f.targs and len(f.params) == 1 and ptype(C.qt(f.params[0])) == ('vec', ptype(s.t)) and clean(C.qt(f.params[0])).startswith(f'vector<{s.t}')]
    def setup(s, ex, fn):
        s.v = ex.symb(('vec', ptype(s.t)), 'data'); ex.assume(z3.And(s.v.len >= 0, s.v.len * s.L < 2 ** 62)); facts(ex)
        s.n = s.v.len * s.L; s.G = groups(s.n); byte_range(ex, ex.byte_fn(s.v.elem.sort().range()))
        s.by = zeroed(bytes_of(ex, s.v, s.L), s.n)
        s.c = LV(ex.new_cell(s.v, 'data', f'vector<{s.t}>')); return None, [s.c]
    def inv0(s, S):
        g = counter(S); v = textvec(S)
        return [('group counter', z3.And(0 <= g, g <= s.G)), ('text length', v.len == 4 * s.G),
                ('text so far', FA(jj, v.elem, z3.Implies(z3.And(0 <= jj, jj < 4 * g), sel(v.elem, jj) == raw(S.ex, s.by, jj))))]
    def inv1(s, S):
        i = counter(S); v = textvec(S)
        return [('padding counter', z3.And(0 <= i, i <= 3 * s.G - s.n)), ('text length', v.len == 4 * s.G),
                ('text', FA(jj, v.elem, z3.Implies(z3.And(0 <= jj, jj < 4 * s.G), sel(v.elem, jj) == z3.If(jj >= 4 * s.G - i, I(PAD), raw(S.ex, s.by, jj)))))]
    def post(s, ex, fn, ret):
        r = ex.read(ret); j = fresh(z3.IntSort(), 'j')
        ex.oblige('length: four characters per started group of three bytes', r.len == 4 * s.G, 'post')
        ex.assume(z3.And(0 <= j, j < 4 * s.G))
        ex.oblige('every character as in RFC 4648', r.elem[j] == std(ex, s.by, s.n, j), 'post')
        w = ex.read(s.c); k = fresh(z3.IntSort(), 'k')
        ex.oblige('data unchanged', z3.And(w.len == s.v.len, w.elem[k] == s.v.elem[k]), 'frame')
class Decode(B64):
    """precondition: the text is the standard encoding of m values"""
    def __init__(s, t): s.t = t; s.L = SIZE[t]; s.name = f'Decode<{t}>'; s.loops = {0: LoopSpec(s.inv0), 1: LoopSpec(s.inv1)}
    def select(s, P):
        val.STR_VEC[0] = True
        return [f for f in P.fns.values() if f.name == 'Decode' and f.body is not None and f.targs and len(f.params) == 1 and clean(f.type.split('(')[0].strip()).startswith(f'vector<{s.t}')]
    def setup(s, ex, fn):
        facts(ex); val.STR_VEC[0] = True
        s.m = z3.Int('m'); ex.assume(z3.And(s.m >= 0, s.m * s.L < 2 ** 62)); s.n = s.m * s.L; s.G = groups(s.n)
        s.B = z3.Function('givenbyte', z3.IntSort(), z3.IntSort())
        ex.assume(z3.ForAll([kk], z3.And(0 <= s.B(kk), s.B(kk) < 256), patterns=[s.B(kk)]))
        s.by = zeroed(lambda t: s.B(t), s.n)
        s.text = VecV(4 * s.G, z3.Lambda([jj], std(ex, s.by, s.n, jj)))
        s.c = LV(ex.new_cell(s.text, 'text', 'const basic_string<char>')); return None, [s.c]
    def inv0(s, S):
        xs = [x for x in ints(S) if not x[1]]
        if len(xs) != 2: raise Unsupported('padding loop not recognised')
        ent = {id(c): val_ for c, val_ in S.entry}
        e4 = [x for x in xs if poly.is_zero_diff(ent[id(x[0])], 4 * s.G)]
        if len(e4) != 1:
            e4 = [x for x in xs if x[0].name == 'i']
        if len(e4) != 1: raise Unsupported('padding loop not recognised')
        i = e4[0][2]; nb = [x for x in xs if x is not e4[0]][0][2]; pad = 3 * s.G - s.n
        return [('range', z3.And(0 <= i, i <= 4 * s.G, 4 * s.G - i <= pad)), ('one byte less per padding character', nb == 3 * s.G - (4 * s.G - i))]
    def outvec(s, S):
        cs = {ci for ci, p in S.mod() if 'vector' in S.ex.cells[ci].ctype}
        if len(cs) != 1: raise Unsupported('output not recognised')
        return S.ex.cells[cs.pop()].val
    def inv1(s, S):
        g = counter(S); v = s.outvec(S); by = bytes_of(S.ex, v, s.L)
        return [('group counter', z3.And(0 <= g, g <= s.G)), ('number of values', v.len == s.m),
                ('bytes so far', z3.ForAll([tt], z3.Implies(z3.And(0 <= tt, tt < 3 * g, tt < s.n), by(tt) == s.B(tt)), patterns=[s.B(tt)] ))]
    def post(s, ex, fn, ret):
        r = ex.read(ret); t = fresh(z3.IntSort(), 't')
        ex.oblige('number of values', r.len == s.m, 'post')
        ex.assume(z3.And(0 <= t, t < s.n))
        ex.oblige('every byte of every value', bytes_of(ex, r, s.L)(t) == s.B(t), 'post')
class EncC:
    """Encode<T>(v): the standard encoding of the bytes of v"""
    def __init__(s, t): s.t = t
    def match(s, f): return f.name == 'Encode' and len(f.params) == 1 and clean(C.qt(f.params[0])).startswith(f'vector<{s.t}')
    def apply(s, ex, fn, this, args):
        v = ex.read(args[0]); L = SIZE[s.t]; n = v.len * L
        if not z3.is_const(v.elem):      # name the array so that its facts trigger
            a = fresh(v.elem.sort(), 'conv'); ex.assume(a == v.elem); v = VecV(v.len, a)
        return LV(ex.new_cell(VecV(4 * groups(n), z3.Lambda([jj], std(ex, zeroed(bytes_of(ex, v, L), n), n, jj))), 'ret'))
class DecC:
    """Decode<T>(standard encoding of the bytes B(0..n-1), n = m sizeof(T)): m values with those bytes"""
    def __init__(s, u, t): s.u = u; s.t = t
    def match(s, f): return f.name == 'Decode' and len(f.params) == 1 and clean(f.type.split('(')[0].strip()).startswith(f'vector<{s.t}')
    def apply(s, ex, fn, this, args):
        u = s.u; ex.oblige('the text handed on is the given text', z3.BoolVal(ex.read(args[0]) is u.text), 'precondition')
        L = SIZE[s.t]; v = VecV(u.m * u.N, fresh(z3.ArraySort(z3.IntSort(), ex.symb(ptype(s.t), 'x').sort()), 'dec'))
        ex.assume(z3.ForAll([tt], z3.Implies(z3.And(0 <= tt, tt < u.n), bytes_of(ex, v, L)(tt) == u.B(tt)), patterns=[u.B(tt)]))
        return LV(ex.new_cell(v, 'ret'))
class EncodeP(B64):
    def __init__(s, N, t):
        s.N = N; s.t = t; s.L = SIZE[t]; s.name = f'Encode<Point<{N},{t}>>'; s.contracts = [EncC(t)]; s.loops = {0: LoopSpec(s.inv0)}
    def select(s, P):
        val.STR_VEC[0] = True
        return [f for f in P.fns.values() if f.name == 'Encode' and f.body is not None and len(f.params) == 1 and re.match(rf'vector<(bezman::)?Point<{s.N}U?L?, {s.t}>', clean(C.qt(f.params[0])))]
    def setup(s, ex, fn):
        val.STR_VEC[0] = True; facts(ex)
        s.v = ex.symb(('vec', ('arr', ptype(s.t), s.N)), 'data'); ex.assume(z3.And(s.v.len >= 0, s.v.len * s.N * s.L < 2 ** 62))
        s.n = s.v.len * s.N * s.L; s.by = zeroed(pbytes(ex, s.v, s.N, s.L), s.n)
        s.c = LV(ex.new_cell(s.v, 'data', 'vector')); return None, [s.c]
    def inv0(s, S):
        i = counter(S); cs = {ci for ci, p in S.mod() if 'vector' in S.ex.cells[ci].ctype}
        if len(cs) != 1: raise Unsupported('copy loop not recognised')
        w = S.ex.cells[cs.pop()].val; c = s.v.elem.e
        def comp(e):
            x = c[-1][e / s.N]
            for k in range(s.N - 2, -1, -1): x = z3.If(e % s.N == k, c[k][e / s.N], x)
            return x
        return [('point counter', z3.And(0 <= i, i <= s.v.len)), ('number of scalars', w.len == s.N * s.v.len),
                ('components so far', FA(jj, w.elem, z3.Implies(z3.And(0 <= jj, jj < s.N * i), sel(w.elem, jj) == comp(jj))))]
    def post(s, ex, fn, ret):
        r = ex.read(ret); j = fresh(z3.IntSort(), 'j'); G = groups(s.n)
        ex.oblige('length: four characters per started group of three bytes', r.len == 4 * G, 'post')
        ex.assume(z3.And(0 <= j, j < 4 * G)); got = sel(r.elem, j)
        w = [a for a in consts_of(got) if z3.is_array(a) and str(a).startswith('conv!')]
        g = j / 4
        for a in w:      # the three bytes of the group, one lemma each
            b = bytes_of(ex, VecV(s.v.len * s.N, a), s.L)
            for d in range(3):
                t = 3 * g + d; q = z3.Implies(t < s.n, b(t) == s.by(t)); ex.oblige(f'byte {d} of the group', q, 'lemma'); ex.assume(q)
        ex.oblige('every character as in RFC 4648', got == std(ex, s.by, s.n, j), 'post')
def consts_of(e):
    seen = set(); st = [e]; out = []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        st.extend(x.children())
    return out
class DecodeP(B64):
    def __init__(s, N, t):
        s.N = N; s.t = t; s.L = SIZE[t]; s.name = f'Decode<Point<{N},{t}>>'; s.contracts = [DecC(s, t)]; s.loops = {0: LoopSpec(s.inv0)}
    def select(s, P):
        val.STR_VEC[0] = True
        return [f for f in P.fns.values() if f.name == 'Decode' and f.body is not None and len(f.params) == 1 and re.match(rf'(std::)?vector<(bezman::)?Point<.*\b{s.N}U?L?, {s.t}>', clean(f.type.split('(')[0].strip()))]
    def setup(s, ex, fn):
        val.STR_VEC[0] = True; s.m = z3.Int('m'); s.n = s.m * s.N * s.L; ex.assume(z3.And(s.m >= 0, s.n < 2 ** 62))
        s.B = z3.Function('givenbyte', z3.IntSort(), z3.IntSort())
        s.text = VecV(4 * groups(s.n), z3.Lambda([jj], std(ex, zeroed(lambda t: s.B(t), s.n), s.n, jj)))
        s.c = LV(ex.new_cell(s.text, 'text', 'const basic_string<char>')); return None, [s.c]
    def inv0(s, S):
        i = counter(S); cs = {ci for ci, p in S.mod() if 'vector' in S.ex.cells[ci].ctype}
        if len(cs) != 1: raise Unsupported('copy loop not recognised')
        w = S.ex.cells[cs.pop()].val; src = s.srcvec(S.ex); b = pbytes(S.ex, w, s.N, s.L)
        q = z3.And([z3.Implies(z3.And(0 <= jj, jj < i), sel(w.elem.e[k], jj) == src.elem[s.N * jj + k]) for k in range(s.N)])
        return [('point counter', z3.And(0 <= i, i <= s.m)), ('number of points', w.len == s.m), ('points so far', z3.ForAll([jj], q))]
    def srcvec(s, ex):
        for c in ex.cells:
            if isinstance(c.val, VecV) and isleaf(c.val.elem) and z3.is_const(c.val.elem) and str(c.val.elem).startswith('dec!'): return c.val
        raise Unsupported('decoded scalars not found')
    def post(s, ex, fn, ret):
        r = ex.read(ret); t = fresh(z3.IntSort(), 't')
        ex.oblige('number of points', r.len == s.m, 'post'); ex.assume(z3.And(0 <= t, t < s.n)); src = s.srcvec(ex)
        e = t / s.L; q = z3.And(0 <= e, e < s.N * s.m, 0 <= e / s.N, e / s.N < s.m, s.N * (e / s.N) + e % s.N == e); ex.oblige('position split', q, 'lemma'); ex.assume(q)
        B = ex.byte_fn(src.elem.sort().range())
        for k in range(s.N):
            q = sel(r.elem.e[k], e / s.N) == src.elem[s.N * (e / s.N) + k]; ex.oblige(f'component {k}', q, 'lemma'); ex.assume(q)
        ex.assume(s.B(t) == s.B(t)); q = B(src.elem[e], t % s.L) == s.B(t); ex.oblige('byte of the decoded scalar', q, 'lemma'); ex.assume(q)
        ex.oblige('every byte of every point', pbytes(ex, r, s.N, s.L)(t) == s.B(t), 'post')
PTS = [(1, 'double'), (2, 'double'), (3, 'double'), (4, 'double'), (3, 'float'), (2, 'float'), (2, 'int')]
UNITS = [Encode(t) for t in SIZE] + [Decode(t) for t in SIZE] + [EncodeP(N, t) for N, t in PTS] + [DecodeP(N, t) for N, t in PTS]
TRUSTED = ['std::string as a sequence of char; reinterpret_cast to unsigned char views the object representation; values with equal bytes are equal',
           'RFC 4648 alphabet and padding written independently in the specification']
ASSUME = ['byte counts below 2^64']
