"""Strings and file streams for the logger (C27).

A string stands for the sequence of messages it contains (end of line counts as message -1): literals contain none, a message text is an
atom, concatenation concatenates. This is a homomorphism, so nothing can appear in, vanish from or move inside a file unnoticed.
A file stream is {open, ok, content, saved}: std::ofstream's documented behaviour, creation of a file and writing assumed to succeed."""
import z3
from val import *
SEQ = z3.SeqSort(z3.IntSort())
E = z3.Empty(SEQ)
def unit(i): return z3.Unit(i if z3.is_expr(i) else z3.IntVal(i))
NL = unit(-1)
def cat(*xs):
    xs = [x for x in xs if not z3.eq(x, E)]
    return E if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)
STREAMS = {'ofstream', 'basic_ofstream<char>'}
MEM = {'ostringstream', 'stringstream', 'basic_ostringstream<char>', 'basic_stringstream<char>'}
PLAIN = {'setw', 'setfill', 'put_time', 'left', 'right'}
def isstr(v): return isleaf(v) and v.sort() == SEQ
class Text:
    def __init__(s): s.names = {}
    def handles(s, t): return t[0] == 'str' or t[0] == 'rec' and (t[1] in STREAMS or t[1] in MEM)
    def stream(s, o, k, c, d): return RecV('ofstream', {'open': o, 'ok': k, 'content': c, 'saved': d})
    def zero(s, ex, t):
        return E if t[0] == 'str' else s.stream(z3.BoolVal(t[1] in MEM), z3.BoolVal(True), E, E)
    def symb(s, ex, t, name):
        if t[0] == 'str': return z3.Const(name, SEQ)
        return s.stream(z3.Bool(name + '.open'), z3.Bool(name + '.ok'), z3.Const(name + '.content', SEQ), z3.Const(name + '.saved', SEQ))
    def literal(s, txt):
        if txt.endswith('\\n"') and '\\n' not in txt[:-3]: v = z3.Unit(z3.IntVal(-1))
        elif '\\n' not in txt: v = z3.Empty(SEQ)
        else: raise Unsupported('line breaks inside a literal')
        v.lit = txt.strip('"'); return v          # the text itself travels with the value (file names)
    def lib(s, name): return NL if name in ('asctime', 'ctime') else E      # text of a date ends with a line break
    def construct(s, ex, t, args):
        vs = [ex.read(a) for a in args]
        if t[0] == 'str':
            if not vs: return E
            if isstr(vs[0]) and all(isinstance(v, Opaque) for v in vs[1:]): return vs[0]
            raise Unsupported('string construction')
        if not vs: return s.zero(ex, t)
        raise Unsupported('stream construction')
    def item(s, ex, v, ast):
        if isstr(v): return v
        t = ptype(C_qt(ast))
        if t[0] == 'int' and t[1] == 8 and isleaf(v):
            c = z3.simplify(v)
            return (NL if c.as_long() == 10 else E) if z3.is_int_value(c) else no('character')
        if t[0] in ('int', 'real', 'bool'): return E
        f = callee(ast)
        if f in PLAIN: return E
        return None
    def assign(s, ex, args):
        v = ex.read(args[0])
        if isstr(v):
            x = ex.read(args[1]); ex.write(args[0], x if isstr(x) else no('assigned text')); return True
        return isinstance(v, RecV) and v.t == 'ofstream' and no('assignment of a stream')
    def op(s, ex, name, args, a, ast, n):
        if name == 'operator<<' and isinstance(a[0], RecV) and a[0].t == 'ofstream':
            st = a[0]; f = manip(ast[1])
            x = NL if f == 'endl' else E if f in ('flush', 'left', 'right', 'ends') else s.item(ex, a[1], ast[1]) if f is None else None
            if x is None: raise Unsupported('inserted value')
            g = z3.And(st.f['open'], st.f['ok'])
            st = st.set('content', z3.simplify(z3.If(g, cat(st.f['content'], x), st.f['content'])))
            if f in ('endl', 'flush'): st = st.set('saved', st.f['content'])
            ex.write(args[0], st); return args[0]
        if name == 'operator<<' and isinstance(a[0], Opaque): return args[0]          # console
        if any(isstr(x) for x in a):
            if name == 'operator+' and all(isstr(x) or s.item(ex, x, y) is not None for x, y in zip(a, ast)):
                return cat(*[x if isstr(x) else s.item(ex, x, y) for x, y in zip(a, ast)])
            if name == 'operator+=' and isstr(a[0]):
                x = s.item(ex, a[1], ast[1])
                if x is None: raise Unsupported('appended value')
                ex.write(args[0], cat(a[0], x)); return args[0]
            if name in ('operator==', 'operator!='): return fresh(z3.BoolSort(), 'txt')
            raise Unsupported('string ' + name)
        if name == 'operator!' and isinstance(a[0], RecV): return z3.Not(a[0].f['ok'])
        return None
    def method(s, ex, name, base, v, argn, n):
        if isstr(v):
            args = [ex.ev(a) for a in argn if a.get('kind') != 'CXXDefaultArgExpr']
            if name == 'append' and len(args) == 1:
                x = s.item(ex, ex.read(args[0]), argn[0])
                if x is None: raise Unsupported('append')
                ex.write(base, cat(v, x)); return (base,)
            if name == 'push_back':
                x = s.item(ex, ex.read(args[0]), argn[0]); ex.write(base, cat(v, x)); return (None,)
            if name == 'clear': ex.write(base, E); return (None,)
            if name == 'pop_back':
                if z3.eq(v, NL): ex.write(base, E)
                elif not z3.eq(v, E): raise Unsupported('pop_back on a message')
                return (None,)
            if name in ('reserve', 'shrink_to_fit'): return (None,)
            t = ptype(C_qt(n))
            if t[0] in ('int', 'bool'): 
                r = fresh({'int': z3.IntSort(), 'bool': z3.BoolSort()}[t[0]], 'txt')
                if name in ('size', 'length'): ex.assume(r >= 0)
                return (r,)
            raise Unsupported('string method ' + name)
        if not (isinstance(v, RecV) and v.t == 'ofstream'): return None
        w = v
        if name == 'is_open': return (v.f['open'],)
        if name in ('good', 'operator bool'): return (v.f['ok'],)
        if name in ('fail', 'bad'): return (z3.Not(v.f['ok']),)
        if name == 'clear' and not argn: ex.write(base, v.set('ok', z3.BoolVal(True))); return (None,)
        if name == 'str' and not argn: return (v.f['content'],)
        if name == 'flush': ex.write(base, v.set('saved', v.f['content'])); return (base,)
        if name == 'close':
            w = v.set('saved', v.f['content']).set('ok', z3.And(v.f['ok'], v.f['open'])).set('open', z3.BoolVal(False)); ex.write(base, w); return (None,)
        if name == 'put' and len(argn) == 1: return (s.op(ex, 'operator<<', [base, ex.ev(argn[0])], [v, ex.rv(argn[0])], [None, argn[0]], n),)
        if name == 'open':
            nm = getattr(ex.rv(argn[0]), 'lit', None)
            if nm is None: raise Unsupported('file name not a literal')
            key = [x[1] for x in base.path if x[0] == 'f'][-1:]
            s.names.setdefault(nm, set()).update(key)
            mode = set()
            if len(argn) > 1 and argn[1].get('kind') != 'CXXDefaultArgExpr': modes(argn[1], mode)
            if mode - {'out', 'app', 'ate', 'trunc', 'in'}: raise Unsupported('open mode')
            keep = 'app' in mode and 'trunc' not in mode
            if 'ate' in mode or 'in' in mode: raise Unsupported('open mode')
            o = v.f['open']
            w = w.set('open', z3.BoolVal(True)).set('ok', z3.simplify(z3.If(o, z3.BoolVal(False), z3.BoolVal(True))))
            if not keep: w = w.set('content', z3.simplify(z3.If(o, v.f['content'], E)))
            ex.write(base, w); return (None,)
        raise Unsupported('stream method ' + name)
    def bitor(s, ex, a, b):
        r = fresh(z3.IntSort(), 'or'); ex.assume(z3.And(r >= 0, r < 2 ** 32))
        for k in range(9): ex.assume(bit(r, k) == z3.Or(bit(a, k), bit(b, k)))
        return r
def bit(x, k): return (x / z3.IntVal(2 ** k)) % 2 == 1
def no(m): raise Unsupported(m)
def C_qt(n):
    import cast as C
    return C.qt(n)
def walk(n):
    yield n
    for c in n.get('inner', ()):
        if isinstance(c, dict): yield from walk(c)
def callee(n):
    for c in walk(n):
        if c.get('kind') == 'CallExpr':
            for d in walk(c['inner'][0]):
                if d.get('kind') == 'DeclRefExpr': return d['referencedDecl'].get('name')
    return None
def manip(n):
    """name of the function a manipulator argument refers to"""
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and n.get('inner'): n = n['inner'][0]
    if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('kind') == 'FunctionDecl': return n['referencedDecl'].get('name')
    return None
def modes(n, out):
    for c in walk(n):
        k = c.get('kind')
        if k == 'DeclRefExpr': out.add(c['referencedDecl'].get('name') if c['referencedDecl'].get('kind') == 'VarDecl' else 'out')
        elif k == 'MemberExpr': out.add(c.get('name'))
        elif k not in ('ImplicitCastExpr', 'ParenExpr', 'CXXOperatorCallExpr'): out.add(k)
        elif k == 'CXXOperatorCallExpr' and not any(d.get('kind') == 'DeclRefExpr' and d['referencedDecl'].get('name') == 'operator|' for d in walk(c['inner'][0])): out.add('op')
