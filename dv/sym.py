"""Symbolic executor / VC generator over clang's AST of the real functions."""
import z3, itertools
from fractions import Fraction
from val import *
import cast as C
import poly

LIM_INT = {'int': (-2 ** 31, 2 ** 31 - 1), 'unsigned int': (0, 2 ** 32 - 1), 'long': (-2 ** 63, 2 ** 63 - 1), 'unsigned long': (0, 2 ** 64 - 1), 'unsigned char': (0, 255), 'unsigned short': (0, 65535), 'short': (-32768, 32767)}

class PathEnd(Exception): pass
class NoAuto(Exception): pass
class BreakE(Exception): pass
class ContinueE(Exception): pass
class ReturnE(Exception):
    def __init__(s, v): s.v = v
class ThrowE(Exception):
    def __init__(s, what, val=None): s.what = what; s.val = val

M = {8: 1 << 8, 16: 1 << 16, 32: 1 << 32, 64: 1 << 64}

def simp(e): return z3.simplify(e)
def as_int(e):
    e = e if z3.is_int_value(e) else z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else None

class Obl:
    __slots__ = ('name', 'kind', 'hyps', 'goal', 'fn', 'extra')
    def __init__(s, name, kind, hyps, goal, fn): s.name = name; s.kind = kind; s.hyps = hyps; s.goal = goal; s.fn = fn; s.extra = None

class Frame:
    __slots__ = ('vars', 'names', 'this', 'fn', 'parent', 'over')
    def __init__(s, fn, this=None, parent=None):
        s.vars = {}; s.names = {}; s.this = this; s.fn = fn; s.parent = parent; s.over = {}

class Exec:
    def __init__(self, prog, contracts, specctx=None, check_feas=True):
        self.P = prog
        self.contracts = contracts      # function: Fn -> contract or None
        self.recs = {}
        for r in prog.recs.values():
            k = tname(ptype(C.rec_name(r)))
            if k not in self.recs or len(r.fields) > len(self.recs[k].fields): self.recs[k] = r
        self.methods = {}
        self.obls = []
        self.dry = 0
        self.check_feas = check_feas
        self.loop_ord = {}
        self.modcache = {}
        self.used_contracts = set()
        self.code_seen = {}; self.loop_seen = {}     # AST of the code executed / shape of the loops under an invariant
        self.inlined = set()
        self.notes = set()
        self.lemmas_used = set()
        self.feas_solver_calls = 0

    # ------------------------------------------------------------ exploration
    def explore(self, run):
        """run(self) executes one path; explores all decision sequences."""
        work = [[]]
        npaths = 0
        while work:
            pre = work.pop()
            self.prefix = pre; self.trail = []; self.pending = work
            self.hyps = []; self.cells = []; self.frames = []; self.guards = []
            self.loopstack = []
            reset_fresh()
            npaths += 1
            if npaths > 4000: raise Unsupported('too many paths')
            try:
                run(self)
            except PathEnd:
                pass
        return npaths

    def _branch(self, n):
        """choose among n alternatives"""
        pos = len(self.trail)
        if pos < len(self.prefix):
            c = self.prefix[pos]
        else:
            c = 0
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trail + [k])
        self.trail.append(c)
        return c
    def active(self):
        return self.dry == 0 and len(self.trail) >= len(self.prefix)

    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.dry:
            return self._dry_branch(2) == 0
        if self.trial:
            t = self.feasible(c); f = self.feasible(z3.Not(c))
            if t and not f: return True
            if f and not t: return False
            raise NoAuto()
        if self.guards: raise Unsupported('branch under guard')
        pos = len(self.trail)
        if pos >= len(self.prefix) and self.check_feas:
            t = self.feasible(c); f = self.feasible(z3.Not(c))
            if t and not f: self.trail_forced(0); return self._assume(c, True)
            if f and not t: self.trail_forced(1); return self._assume(z3.Not(c), False)
        b = self._branch(2)
        self.assume(c if b == 0 else z3.Not(c))
        return b == 0
    def _assume(self, c, r):
        self.assume(c); return r
    def trail_forced(self, k): self.trail.append(k); 
    def nowrap(self, c, v, w):
        """v where the operation provably does not wrap (recorded as an obligation), else the exact wrapped value w"""
        if not getattr(self.spec, 'strip_wrap', False) or self.dry or self.trial or self.guards: return w
        if self.feasible(z3.Not(c)): return w
        self.oblige('conversion keeps the value', c, 'lemma'); self.assume(c)
        return v
    def feasible(self, c):
        s = z3.Solver(); s.set('timeout', 250)
        for h in self.hyps:
            if not has_quant(h): s.add(h)
        s.add(c)
        self.feas_solver_calls += 1
        return s.check() != z3.unsat

    def _dry_branch(self, n):
        pos = len(self.dtrail)
        if pos < len(self.dprefix): c = self.dprefix[pos]
        else:
            c = 0
            for k in range(n - 1, 0, -1): self.dpending.append(self.dtrail + [k])
        self.dtrail.append(c)
        return c

    def assume(self, f):
        if f is None: return
        if isinstance(f, (list, tuple)):
            for x in f: self.assume(x)
            return
        if isinstance(f, bool): f = z3.BoolVal(f)
        if self.dry: return
        if z3.is_and(f):
            for x in f.children(): self.assume(x)
            return
        if not z3.is_true(f): self.hyps.append(f)

    def oblige(self, name, goal, kind='assert'):
        if not self.active() or self.trial: return
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if isinstance(goal, (list, tuple)):
            for i, g in enumerate(goal): self.oblige(f'{name}[{i}]', g, kind)
            return
        o = Obl(name, kind, list(self.hyps) + list(self.guards), goal, self.fn_label)
        self.obls.append(o)

    def new_cell(self, v, name='', ctype=''):
        c = Cell(v, name, ctype); c.idx = len(self.cells); self.cells.append(c); return c

    # ------------------------------------------------------------ lvalues
    def read(self, x):
        if not isinstance(x, LV): return x
        return self.read_path(x.cell.val, x.path)
    def read_path(self, v, path):
        for p in path:
            if p[0] == 'f': v = v.f[p[1]]
            elif p[0] == 'i': v = v.e[p[1]]
            elif p[0] == 'v': v = vsel(v, p[1])
            elif p[0] == 'b': v = self.byte_of(vsel(v, p[1] / p[2]) if p[2] > 1 else vsel(v, p[1]), p[1] % p[2])
            else: raise Unsupported('path')
        return v
    def write(self, lv, x):
        if not isinstance(lv, LV): raise Unsupported('write to non-lvalue')
        if isinstance(x, LV): x = self.read(x)
        lv.cell.val = self._wr(lv.cell.val, lv.path, x)
    def _wr(self, v, path, x):
        if not path:
            if isleaf(v) and isleaf(x): return coerce(x, v.sort())
            return x
        p = path[0]
        if p[0] == 'f': return v.set(p[1], self._wr(v.f[p[1]], path[1:], x))
        if p[0] == 'i': return v.set(p[1], self._wr(v.e[p[1]], path[1:], x))
        if p[0] == 'v':
            if len(path) == 1: return vstore(v, p[1], x)
            return vstore(v, p[1], self._wr(vsel(v, p[1]), path[1:], x))
        if p[0] == 'b': return self.byte_write(v, p[1], p[2], x)
        raise Unsupported('write path')
    # byte view of scalar elements: byte_of(value, k) is the k-th byte of the object representation
    def byte_fn(self, s): return z3.Function('byte.' + str(s), s, z3.IntSort(), z3.IntSort())
    def byte_of(self, e, k):
        if not isleaf(e): raise Unsupported('byte view of a class type')
        return self.byte_fn(e.sort())(e, k)
    def byte_write(self, v, i, L, x):
        if self.trial: raise NoAuto()
        k = i % L; j = i / L if L > 1 else i
        old = vsel(v, j); new = fresh(old.sort(), 'bytes'); B = self.byte_fn(old.sort()); t = z3.Int('byte!t')
        self.assume(B(new, k) == x)
        self.assume(z3.ForAll([t], z3.Implies(t != k, B(new, t) == B(old, t)), patterns=[B(new, t)]))
        return vstore(v, j, new)

    # ------------------------------------------------------------ types / values
    def zero(self, t):
        k = t[0]
        if k == 'int': return z3.IntVal(0)
        if k == 'real': return z3.RealVal(0)
        if k == 'bool': return z3.BoolVal(False)
        if k == 'vec': return CVec([]) if self.cvec else VecV(z3.IntVal(0), lift0(self.zero(t[1])))
        if k == 'arr': return ArrV([self.zero(t[1]) for _ in range(t[2])])
        if self.text and self.text.handles(t): return self.text.zero(self, t)
        if k == 'str': return Opaque('str')
        if k == 'ptr': return Opaque('null')
        if k == 'rec' and t[1] in self.opaque_extra: return Opaque(t[1])
        if k == 'rec':
            r = self.rec_of(t)
            base = [b for b in r.bases]
            if base:
                bt = ptype(base[0])
                if bt[0] == 'arr': return self.zero(bt)
            return RecV(t[1], {n: self.zero(self.fieldtype(r, n, ft)) for n, ft, _, _ in r.fields})
        raise Unsupported(f'zero of {t}')
    def fieldtype(self, r, n, ft):
        return self.resolve(ptype(ft))
    def resolve(self, t):
        return t
    def rec_of(self, t):
        r = self.recs.get(t[1])
        if r is None: raise Unsupported(f'unknown record {t[1]}')
        return r
    def symb(self, t, name):
        """fully symbolic value of a type"""
        k = t[0]
        if self.text and self.text.handles(t): return self.text.symb(self, t, name)
        if k == 'int': return z3.Int(name)
        if k == 'real': return z3.Real(name)
        if k == 'bool': return z3.Bool(name)
        if k == 'arr': return ArrV([self.symb(t[1], f'{name}.{i}') for i in range(t[2])])
        if k == 'vec':
            return VecV(z3.Int(name + '.len'), self.symb_lift(t[1], name + '.e', 1))
        if k == 'rec' and t[1] in self.opaque_extra: return Opaque(t[1])
        if k == 'rec':
            r = self.rec_of(t)
            if r.bases and ptype(r.bases[0])[0] == 'arr': return self.symb(ptype(r.bases[0]), name)
            return RecV(t[1], {n: self.symb(ptype(ft), f'{name}.{n}') for n, ft, _, _ in r.fields})
        if k == 'str': return Opaque('str')
        raise Unsupported(f'symbolic {t}')
    def symb_lift(self, t, name, d):
        def up(l):
            s = l.sort()
            for _ in range(d): s = z3.ArraySort(z3.IntSort(), s)
            return z3.Const(l.decl().name(), s)
        return mapl(up, self.symb(t, name))

    # ------------------------------------------------------------ calls to C++ functions
    def frame(self): return self.frames[-1]
    def lookup(self, did):
        f = self.frames[-1]
        while f is not None:
            if did in f.over: return f.over[did]
            if did in f.vars: return f.vars[did]
            f = f.parent
        return None
    def bind(self, decl, x):
        f = self.frames[-1]
        f.vars[decl['id']] = x
        f.names[decl.get('name', '')] = decl['id']

    def find_name(self, name):
        for f in reversed(self.frames):
            g = f
            while g is not None:
                if name in g.names:
                    did = g.names[name]
                    return g.over.get(did, g.vars.get(did))
                g = g.parent
        return None

    def call_fn(self, fn, this, args, node=None):
        """args: list of (node-or-None, LV/value)."""
        con = self.contracts(fn) if self.depth > 0 else None
        if con is not None:
            self.used_contracts.add((fn.qual, fn.type, C.rec_name(fn.rec) if fn.rec else ''))
            args = list(args) + [self.default_arg(p) for p in fn.params[len(args):]]
            return con.apply(self, fn, this, args)
        return self.exec_fn(fn, this, args)

    def default_arg(self, p):
        init = [c for c in p.get('inner', ()) if c.get('kind', '').endswith('Expr') or c.get('kind', '').endswith('Literal')]
        if not init: raise Unsupported('missing arg')
        return self.ev(init[0])
    depth = 0
    cvec = False; exact = False; real_logger = False
    text = None          # model of strings and file streams (dv/text.py)
    def exec_fn(self, fn, this, args):
        if fn.defaulted and fn.body is None or (fn.defaulted and fn.name == 'operator='):
            return self.defaulted(fn, this, args)
        if fn.body is None: raise Unsupported(f'no body for {fn.qual} {fn.type}')
        if len(self.frames) > 40: raise Unsupported('recursion too deep')
        fr = Frame(fn, this)
        self.inlined.add(fn.qual)
        self.code_seen[id(fn)] = fn
        for i, p in enumerate(fn.params):
            t = C.qt(p)
            if i < len(args): a = args[i]
            else:
                a = self.default_arg(p)
            isref = t.rstrip().endswith('&')
            if isref:
                if not isinstance(a, LV): a = LV(self.new_cell(a, p.get('name', ''), t))
                fr.vars[p['id']] = a
            else:
                v = self.read(a)
                v = self.conv_to(v, ptype(t))
                fr.vars[p['id']] = LV(self.new_cell(v, p.get('name', ''), t))
            fr.names[p.get('name', '')] = p['id']
        self.frames.append(fr)
        self.depth += 1
        try:
            for ini in fn.inits: self.ctor_init(ini, fn)
            self.stmt(fn.body)
            ret = None
        except ReturnE as r:
            ret = r.v
        finally:
            self.depth -= 1
            self.frames.pop()
        rt = fn.type.split('(')[0].strip() if '->' not in fn.type else fn.type.split('->')[-1].strip()
        if ret is None: return None
        if not rt.endswith('&') and isinstance(ret, LV):
            # decltype(auto)-like deduced references keep the lvalue only when the node said so
            if rt not in ('auto',) or True: ret = self.read(ret)
        return ret

    def conv_to(self, v, t):
        if isleaf(v) and t[0] == 'real' and v.sort() == z3.IntSort(): return toreal(v)
        return v

    def defaulted(self, fn, this, args):
        if fn.name == 'operator=':
            self.write(this, self.read(args[0])); return this
        if fn.kind == 'CXXConstructorDecl':
            if args: self.write(this, self.read(args[0]))
            return this
        raise Unsupported(f'defaulted {fn.qual}')

    def ctor_init(self, ini, fn):
        this = self.frame().this
        inner = ini.get('inner', [])
        if 'anyInit' in ini:
            name = ini['anyInit']['name']
            e = inner[0]
            if e['kind'] == 'CXXDefaultInitExpr':
                fd = [c for n, _, i, c in fn.rec.fields if n == name]
                e2 = [c for c in fd[0].get('inner', ()) if 'kind' in c and c['kind'] != 'FullComment'] if fd else []
                if not e2: return
                e = e2[-1]
            cur = self.read(this.ext(('f', name)))
            ft = [f for n, f, _, _ in fn.rec.fields if n == name][0]
            v = self.read(self.ev_init(e, ptype(ft)))
            if v is not None: self.write(this.ext(('f', name)), v)
        elif 'baseInit' in ini:
            v = self.read(self.ev_init(inner[0], ptype(C.qt({'type': ini['baseInit']}))))
            if v is not None: self.write(this, v)
        else:
            raise Unsupported('ctor init')

    def construct(self, t, ctype, args):
        """construct class object of canonical type t via ctor with type string ctype"""
        if t[0] == 'vec': return self.construct_vec(t, ctype, args)
        if self.text and self.text.handles(t): return self.text.construct(self, t, args)
        if t[0] == 'str':
            if len(args) == 1:
                v = self.read(args[0])
                if isinstance(v, Opaque): return v
            return Opaque('str')
        if t[0] == 'arr':
            if not args: return self.zero(t)
            if len(args) == 1:
                v = self.read(args[0])
                if isinstance(v, ArrV) and len(v.e) == t[2]: return v
            # Point(coords...)
            vals = [self.read(a) for a in args]
            if len(vals) != t[2]: raise Unsupported('Point ctor arity')
            return ArrV([coerce(v, z3.RealSort()) if t[1][0] == 'real' else v for v in vals])
        if t[0] == 'rec':
            if t[1].startswith('(lambda') : return self.read(args[0])
            if t[1].startswith('allocator') or t[1] in self.opaque_types or t[1] in self.opaque_extra:
                o = Opaque(t[1]); o.args = [self.read(a) for a in args]
                if len(args) == 1 and isinstance(o.args[0], Opaque) and o.args[0].what == t[1]: return o.args[0]      # copy or move
                return o
            r = self.rec_of(t)
            cands = [f for f in self.P.fns.values() if f.kind == 'CXXConstructorDecl' and f.rec is not None and
                     tname(ptype(C.rec_name(f.rec))) == t[1] and canon_sig(f.type) == canon_sig(ctype)]
            if not cands:
                cands = [f for f in self.P.fns.values() if f.kind == 'CXXConstructorDecl' and f.rec is not None and
                         tname(ptype(C.rec_name(f.rec))) == t[1] and len(f.params) == len(args) and canon_sig2(f.type) == canon_sig2(ctype)]
            cb = [f for f in cands if f.body is not None]
            if len(args) == 1 and not cb:
                v = self.read(args[0])
                if isinstance(v, RecV) and v.t == t[1]: return v      # implicit/defaulted copy or move
            if not args and not cb:
                return self.zero(t)
            if not cb: raise Unsupported(f'ctor {t[1]} {ctype}')
            cell = self.new_cell(self.uninit(t), 'ctor')
            this = LV(cell)
            self.call_fn(cb[0], this, args)
            return cell.val
        if t[0] in ('int', 'real', 'bool'):
            return self.read(args[0]) if args else self.zero(t)
        raise Unsupported(f'construct {t} {ctype}')
    opaque_types = {'runtime_error', 'exception', 'logic_error', 'out_of_range', 'invalid_argument', 'domain_error'}
    opaque_extra = ()

    def uninit(self, t):
        r = self.rec_of(t)
        if r.bases and ptype(r.bases[0])[0] == 'arr': return self.zero(ptype(r.bases[0]))
        return RecV(t[1], {n: self.zero(ptype(ft)) for n, ft, _, _ in r.fields})

    def construct_vec(self, t, ctype, args):
        ps = split_targs(ctype[ctype.index('(') + 1:ctype.rindex(')')]) if '(' in ctype else []
        ps = [clean(p) for p in ps]
        n = len([p for p in ps if not p.startswith('allocator') and 'allocator_type' not in p])
        real = [a for a in args][:n]
        if n == 0 or not real: return self.zero(t)
        v0 = self.read(real[0])
        if isinstance(v0, (VecV, CVec)): return v0
        if self.cvec:
            if isinstance(v0, InitList): return CVec(v0.e)
            m = as_int(v0) if isleaf(v0) else None
            if m is None: raise Unsupported('vector of symbolic size')
            if n == 1: return CVec([self.zero(t[1])] * m)
            fill = self.read(real[1])
            return CVec([zipl(lambda a, b: coerce(b, a.sort()), self.zero(t[1]), fill)] * m)
        if isinstance(v0, InitList):
            if getattr(self.spec, 'rec_cvec', False) and t[1][0] == 'rec': return CVec(v0.e)
            v = self.zero(t)
            for x in v0.e: v = self.vec_push(v, x)
            return v
        if isinstance(v0, Iter):
            raise Unsupported('vector from iterators')
        if isleaf(v0) and v0.sort() == z3.IntSort():
            if n == 1: return VecV(v0, lift0(self.zero(t[1])))
            fill = self.read(real[1])
            z = self.zero(t[1])
            return VecV(v0, zipl(lambda a, b: z3.K(z3.IntSort(), coerce(b, a.sort())), z, fill))
        raise Unsupported(f'vector ctor {ctype}')
    def vec_push(self, v, x):
        if isinstance(v, CVec): return CVec(v.e + [x])
        nv = vstore(VecV(v.len, v.elem), v.len, x)
        return VecV(simp(v.len + 1), nv.elem)

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        k = n.get('kind')
        m = getattr(self, 's_' + k, None) if k else None
        if m: return m(n)
        if k is None: return
        return self.ev(n)
    def s_CompoundStmt(self, n):
        for c in n.get('inner', ()): self.stmt(c)
    def s_NullStmt(self, n): pass
    def s_AttributedStmt(self, n):
        for c in n.get('inner', ()):
            if not c.get('kind', '').endswith('Attr'): self.stmt(c)
    def s_DeclStmt(self, n):
        for d in n.get('inner', ()):
            if d.get('kind') == 'VarDecl': self.vardecl(d)
            elif d.get('kind') in ('TypeAliasDecl', 'StaticAssertDecl', 'TypedefDecl', 'UsingDirectiveDecl', 'UsingDecl', 'CXXRecordDecl', 'EmptyDecl'): pass
            else: raise Unsupported('decl ' + d.get('kind', ''))
    def vardecl(self, d):
        t = C.qt(d)
        ini = [c for c in d.get('inner', ()) if 'kind' in c and not c['kind'].endswith('Attr') and not c['kind'].endswith('Comment')]
        if t.rstrip().endswith('&'):
            v = self.ev(ini[-1])
            if not isinstance(v, LV): v = LV(self.new_cell(v, d.get('name', ''), t))
            self.bind(d, v); return
        pt = ptype(t)
        if d.get('storageClass') == 'static' and not t.startswith('const ') and not d.get('constexpr'):
            # state that survives between calls: arbitrary
            v = self.symb(pt, f'static {d.get("name", "")}')
            if hasattr(self.spec, 'static_fact'): self.spec.static_fact(self, d, v)
            for path, l in leaves(v):
                if l.sort() == z3.IntSort(): self.assume(l >= 0)
        elif d.get('init') and ini:
            v = self.read(self.ev_init(ini[-1], pt))
            v = self.conv_to(v, pt)
        else:
            v = self.uninitialised(pt)
        self.bind(d, LV(self.new_cell(v, d.get('name', ''), t)))
    def uninitialised(self, pt):
        if pt[0] in ('int', 'real', 'bool'):
            return fresh({'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}[pt[0]], 'uninit')
        if pt[0] == 'arr': return ArrV([self.uninitialised(pt[1]) for _ in range(pt[2])])
        return self.zero(pt)
    def ev_init(self, e, pt):
        if e.get('kind') == 'InitListExpr':
            return self.initlist(e, pt)
        return self.ev(e)
    def initlist(self, e, pt=None):
        t = ptype(C.qt(e))
        if t[0] in ('other',) and pt: t = pt
        inner = [c for c in e.get('inner', ())]
        if t[0] in ('int', 'real', 'bool', 'ptr'):
            return self.read(self.ev(inner[0])) if inner else self.zero(t)
        if t[0] == 'arr':
            n = t[2]
            fill = e.get('array_filler')
            if fill is not None: inner = [c for c in fill if c.get('kind') != 'ImplicitValueInitExpr'] + [c for c in inner]
            if len(inner) == 1 and inner[0].get('kind') == 'InitListExpr' and ptype(C.qt(inner[0]))[0] == 'arr' and ptype(C.qt(inner[0]))[2] == n and ptype(C.qt(inner[0]))[1] == t[1]:
                return self.initlist(inner[0])
            vals = []
            for c in inner:
                if c.get('kind') == 'ImplicitValueInitExpr' and len(vals) >= n: continue
                vals.append(self.read(self.ev_init(c, t[1])))
            # copy-init from same type
            if len(vals) == 1 and isinstance(vals[0], ArrV) and not isinstance(vals[0], CVec) and t[1][0] != 'arr' : return vals[0]
            vals = vals[:n]
            z = self.zero(t[1])
            while len(vals) < n: vals.append(z)
            return ArrV([coerce(v, z3.RealSort()) if t[1][0] == 'real' else v for v in vals])
        if t[0] in ('rec', 'vec'):
            if len(inner) == 1: return self.read(self.ev(inner[0]))
            if not inner: return self.zero(t)
        raise Unsupported('initlist ' + str(t))

    def s_ReturnStmt(self, n):
        inner = n.get('inner', ())
        if not inner: raise ReturnE(None)
        raise ReturnE(self.ev(inner[0]))
    def s_BreakStmt(self, n): raise BreakE()
    def s_ContinueStmt(self, n): raise ContinueE()
    def s_IfStmt(self, n):
        inner = list(n.get('inner', ()))
        if n.get('hasInit'): self.stmt(inner.pop(0))
        if n.get('hasVar'): raise Unsupported('if var')
        cond = inner[0]
        if n.get('isConstexpr'):
            v = None
            if cond.get('kind') == 'ConstantExpr' and 'value' in cond: v = cond['value']
            if v is None:
                c = z3.simplify(self.rv(cond))
                v = 'true' if z3.is_true(c) else 'false' if z3.is_false(c) else None
                if v is None: raise Unsupported('constexpr if')
            if v in ('true', '1'): self.stmt(inner[1])
            elif len(inner) > 2: self.stmt(inner[2])
            return
        c = self.tobool(self.rv(cond))
        if self.decide(c): self.stmt(inner[1])
        elif len(inner) > 2: self.stmt(inner[2])
    def s_SwitchStmt(self, n):
        inner = n['inner']
        if n.get('hasInit') or n.get('hasVar'): raise Unsupported('switch with declaration')
        v = self.rv(inner[0]); body = inner[1]
        if body['kind'] != 'CompoundStmt': raise Unsupported('switch body')
        seq = []; labels = []         # statement list with label positions
        for c in body.get('inner', ()):
            while c.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if c['kind'] == 'CaseStmt':
                    if len([x for x in c['inner'] if x.get('kind')]) != 2: raise Unsupported('case range')
                    labels.append((self.rv(c['inner'][0]), len(seq))); c = c['inner'][1]
                else: labels.append((None, len(seq))); c = c['inner'][0]
            seq.append(c)
        start = None
        for lab, pos in labels:
            if lab is not None and self.decide(v == lab): start = pos; break
        if start is None:
            start = next((p for l, p in labels if l is None), None)
            if start is None: return
        try:
            for c in seq[start:]: self.stmt(c)
        except BreakE: pass
    def s_WhileStmt(self, n):
        inner = n['inner']; self.loop(n, None, inner[0], None, inner[1])
    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        try: self.run_body(None, body, None)
        except BreakE: return
        self.loop(n, None, cond, None, body)
    def s_ForStmt(self, n):
        inner = n['inner']
        init, cv, cond, inc, body = inner
        if init.get('kind'): self.stmt(init)
        self.loop(n, None, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body)
    def s_CXXForRangeStmt(self, n):
        # range-for over std::array / vector: use clang's desugaring is iterator based; interpret directly
        inner = n['inner']
        # [init?, rangeDecl, beginDecl, endDecl, cond, inc, loopvar, body]
        decls = [c for c in inner if c.get('kind') == 'DeclStmt']
        body = inner[-1]
        rng = decls[0]['inner'][0]; var = decls[-1]['inner'][0]
        r = self.ev(rng['inner'][-1])
        if not isinstance(r, LV): r = LV(self.new_cell(r, 'range'))
        v = self.read(r)
        if isinstance(v, ArrV): length = z3.IntVal(len(v.e))
        elif isinstance(v, VecV): length = v.len
        else: raise Unsupported('range for')
        idx = LV(self.new_cell(z3.IntVal(0), '__i', 'unsigned long'))
        fr = self.frames[-1]; fr.names['__range_i'] = '__ri' + n['id']; fr.vars['__ri' + n['id']] = idx
        cond = lambda: self.read(idx) < (z3.IntVal(len(v.e)) if isinstance(v, ArrV) else self.read(r).len)
        def pre():
            el = self.index(r, self.read(idx))
            t = C.qt(var)
            if t.rstrip().endswith('&'): self.bind(var, el)
            else: self.bind(var, LV(self.new_cell(self.read(el), var.get('name', ''), t)))
        def inc(): self.write(idx, self.read(idx) + 1)
        self.loop(n, pre, cond, inc, body)

    def cond_val(self, cond):
        if cond is None: return z3.BoolVal(True)
        if callable(cond): return cond()
        return self.tobool(self.rv(cond))
    def run_body(self, pre, body, inc):
        if pre: pre()
        try: body() if callable(body) else self.stmt(body)
        except ContinueE: pass
        if inc is not None:
            inc() if callable(inc) else self.ev(inc)

    def loop(self, n, pre, cond, inc, body):
        it = 0
        first = True
        while True:
            if first and not isinstance(n, str):
                # conditions that depend on havocked state are symbolic; decide once per iteration
                pass
            c = z3.simplify(self.cond_val(cond))
            if z3.is_false(c): return
            if z3.is_true(c):
                it += 1
                if it > 600: raise Unsupported('unrolled too far')
                try: self.run_body(pre, body, inc)
                except BreakE: return
                first = False
                continue
            break
        if it > 0 and False: raise Unsupported('partially concrete loop')
        if self.dry:
            ms = self.modset(n, pre, cond, inc, body)
            self.havoc(ms)
            return
        self.symloop(n, pre, cond, inc, body)

    def modset(self, n, pre, cond, inc, body):
        key = (n['id'], tuple(id(f.fn) for f in self.frames), len(self.cells), tuple(self.loopkey()))
        if key in self.modcache: return self.modcache[key]
        W = {}
        snap = [(c, c.val) for c in self.cells]
        ncells = len(self.cells)
        sh = list(self.hyps); sfr = list(self.frames); sfv = [(f, dict(f.vars), dict(f.names)) for f in self.frames]
        old = (getattr(self, 'dprefix', None), getattr(self, 'dtrail', None), getattr(self, 'dpending', None))
        sg = list(self.guards); sdepth = self.depth
        while True:
            new = {}
            work = [[]]
            cnt = 0
            while work:
                cnt += 1
                if cnt > 300: raise Unsupported('dry paths')
                self.restore(snap, ncells, sfr, sfv); self.guards = list(sg); self.depth = sdepth
                self.dprefix = work.pop(); self.dtrail = []; self.dpending = work
                self.havoc(W)
                base = [(c, c.val) for c in self.cells[:ncells]]
                self.dry += 1
                try:
                    self.cond_val(cond)
                    self.run_body(pre, body, inc)
                except (PathEnd, BreakE, ReturnE, ThrowE, ContinueE):
                    pass
                finally:
                    self.dry -= 1
                for c, v0 in base:
                    if c.val is v0: continue
                    diff_leaves(c, v0, c.val, new)
            self.restore(snap, ncells, sfr, sfv); self.guards = list(sg); self.depth = sdepth
            grew = False
            for k, x in new.items():
                if k not in W: W[k] = x; grew = True
            if not grew: break
        self.dprefix, self.dtrail, self.dpending = old
        self.hyps = sh
        self.modcache[key] = W
        return W
    def loopkey(self):
        return ()
    def restore(self, snap, ncells, sfr, sfv):
        for c, v in snap: c.val = v
        del self.cells[ncells:]
        self.frames = list(sfr)
        for f, v, nm in sfv: f.vars = dict(v); f.names = dict(nm)
    def havoc(self, W):
        for (ci, path), _ in W.items():
            c = self.cells[ci]
            if path == ('WHOLE',):
                c.val = mapl(lambda l: fresh_like(l, 'h_' + c.name), c.val); continue
            leaf = get_leaf(c.val, path)
            f = fresh_like(leaf, 'h_' + c.name)
            c.val = setleaf(c.val, path, f)
            if isleaf(c.val) and f.sort() == z3.IntSort():
                t = ptype(c.ctype)
                if t[0] == 'int' and not t[2]: self.assume(f >= 0)
            if path and path[-1] == ('len',) and f.sort() == z3.IntSort(): self.assume(f >= 0)

    # ---- inferred contracts of map / fold loops (every inferred summary is verified by init/preserve obligations)
    trial = 0
    def auto_infer(self, n, pre, cond, inc, body):
        """-> summary(t) : list of (cell, path, value at iteration t), or None"""
        ms = self.modset(n, pre, cond, inc, body)
        if any(p == ('WHOLE',) for _, p in ms): return None
        snap = [(c, c.val) for c in self.cells]; nc = len(self.cells); sfr = list(self.frames)
        sfv = [(f, dict(f.vars), dict(f.names)) for f in self.frames]
        sh = list(self.hyps); sg = list(self.guards); sd = self.depth; strail = list(self.trail)
        init = {}
        for (ci, path) in ms: init[ci, path] = get_leaf(self.cells[ci].val, path)
        head = {}
        self.trial += 1
        try:
            for (ci, path) in ms:
                c = self.cells[ci]; f = fresh_like(init[ci, path], 'a_' + c.name); head[ci, path] = f
                c.val = setleaf(c.val, path, f)
                if f.sort() == z3.IntSort(): self.hyps.append(f >= 0)
            self.hyps.append(self.cond_val(cond))
            self.run_body(pre, body, inc)
            after = {}
            for (ci, path) in ms: after[ci, path] = self.decided_ifs(get_leaf(self.cells[ci].val, path))
        except (NoAuto, BreakE, ReturnE, ThrowE, ContinueE, PathEnd, Unsupported) as e:
            return None
        finally:
            self.trial -= 1
            self.restore(snap, nc, sfr, sfv); self.hyps = sh; self.guards = sg; self.depth = sd; self.trail = strail
        t = z3.Int('it!')
        sub = []; val = {}
        hk = {head[k].get_id(): k for k in ms}
        for k in ms:
            h = head[k]
            if h.sort() == z3.IntSort():
                d = as_int(z3.simplify(after[k] - h))
                if d is not None:
                    v = simp(init[k] + d * t); sub.append((h, v)); val[k] = v
        rest = [k for k in ms if k not in val]
        # values assigned without looking at the previous one (loop-local temporaries kept in outer variables)
        A = {}
        for k in rest:
            a = z3.substitute(after[k], *sub) if sub else after[k]
            A[k] = z3.simplify(a)
        own = {}      # array leaf -> (index, value)
        for k in rest:
            h, a = head[k], A[k]
            if z3.is_array(h) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and z3.eq(a.arg(0), h):
                own[k] = (a.arg(1), a.arg(2))
        hs = {head[k].get_id(): k for k in rest}
        def clean_expr(e, idx_of):
            """replace reads of the modified arrays at their own write index by reads of the initial array; None if anything else is read"""
            cache = {}
            def go(x):
                i = x.get_id()
                if i in cache: return cache[i]
                if i in hs: return None
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).get_id() in hs:
                    k2 = hs[x.arg(0).get_id()]
                    if k2 not in own: return None
                    j = go(x.arg(1))
                    if j is None: return None
                    d = z3.simplify(own[k2][0] - j)
                    if not (as_int(d) == 0): 
                        return None
                    r = sel(init[k2], j)
                elif z3.is_quantifier(x) or z3.is_var(x): return None if mentions(x, hs) else x
                elif x.num_args() == 0: r = x
                else:
                    ch = [go(c) for c in x.children()]
                    if any(c is None for c in ch): return None
                    r = x.decl()(*ch) if any(c is not d for c, d in zip(ch, x.children())) else x
                cache[i] = r
                return r
            return go(e)
        for k in rest:
            h, a = head[k], A[k]
            if k in own:
                idx, e = own[k]
                e = clean_expr(e, None); idx = clean_expr(idx, None)
                if e is None or idx is None: return None
                kk = z3.Int('k!lam')
                base = z3.simplify(idx - t)
                if not mentions_id(base, t.get_id()): ek = z3.substitute(e, (t, kk - base)); rng = z3.And(base <= kk, kk < base + t)
                else:       # downwards
                    base = z3.simplify(idx + t)
                    if mentions_id(base, t.get_id()): return None
                    ek = z3.substitute(e, (t, base - kk)); rng = z3.And(base - t < kk, kk <= base)
                val[k] = z3.Lambda([kk], z3.If(rng, z3.simplify(ek), sel(init[k], kk)))
            elif h.sort() in (z3.RealSort(), z3.IntSort()):
                d = poly.diff_expr(a, h)
                if d is None: return None
                d = clean_expr(d, None)
                if d is None: return None
                val[k] = simp(init[k] + self.sum_upto(t, d, t))
            else: return None
        return t, ms, val
    def decided_ifs(self, e):
        """drop the branches of integer conditionals (unsigned wrapping) that the loop condition excludes"""
        seen = set(); cs = []
        def go(x):
            if x.get_id() in seen: return
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_ITE and x.sort() == z3.IntSort(): cs.append(x.arg(0))
                for c in x.children(): go(c)
        go(e)
        for c in cs[:8]:
            if not self.feasible(z3.Not(c)): e = z3.substitute(e, (c, z3.BoolVal(True)))
            elif not self.feasible(c): e = z3.substitute(e, (c, z3.BoolVal(False)))
        return z3.simplify(e) if cs else e
    def sum_upto(self, t, e, n):
        """sum of e over iterations 0..n-1; the function symbol is keyed by the normal form of e"""
        e = poly.norm_arith(e) if e.sort() == z3.IntSort() or e.sort() == z3.RealSort() else e
        tv = z3.Int('sum!t'); key = z3.substitute(e, (t, tv)).sexpr()
        if not hasattr(self, 'sums'): self.sums = {}
        if key not in self.sums:
            self.sums[key] = (z3.Function(f'SUM!{len(self.sums)}', z3.IntSort(), e.sort()), z3.substitute(e, (t, tv)), tv)
        f, ee, tv = self.sums[key]
        self.assume(f(z3.IntVal(0)) == 0)
        self.sum_unfold(f, ee, tv, n)
        return f(n)
    def sum_unfold(self, f, ee, tv, n):
        """f(n+1) == f(n) + e(n)"""
        self.assume(z3.Implies(n >= 0, f(simp(n + 1)) == f(simp(n)) + z3.substitute(ee, (tv, n))))
    def auto_loop(self, n, pre, cond, inc, body):
        r = self.auto_infer(n, pre, cond, inc, body)
        if r is None: return False
        t, ms, val = r
        def put(tv):
            for (ci, path), v in val.items():
                c = self.cells[ci]; x = z3.substitute(v, (t, tv)) if not z3.is_quantifier(v) else z3.substitute(v, (t, tv))
                c.val = setleaf(c.val, path, x)
        lab = 'map loop'
        entry = {k: get_leaf(self.cells[k[0]].val, k[1]) for k in val}
        tt = fresh(z3.IntSort(), 'iter')
        self.hyps.append(tt >= 0)
        for f, ee, tv in getattr(self, 'sums', {}).values():
            self.assume(f(z3.IntVal(0)) == 0)
            if self.trial or any(mentions_fn(v, f) for v in val.values()): self.sum_unfold(f, ee, tv, tt)
        # the condition held at every earlier iteration
        put(simp(tt - 1))
        try:
            prev = self.pure_cond(cond)
        except Unsupported: prev = None
        put(tt)
        if prev is not None: self.hyps.append(z3.Or(tt == 0, prev))
        self.ne_bound(tt, cond, put)
        if self.trial:
            self.hyps.append(z3.Not(self.cond_val(cond))); self.norm_iter(tt, cond, put); return True
        b = self._branch(2)
        if b == 0:
            for k in val:
                # initial state is the state at iteration 0
                v0 = z3.substitute(val[k], (t, z3.IntVal(0)))
                self.eq_obl(f'{lab}: initial', v0, entry[k])
            cv = self.cond_val(cond)
            self.assume(cv)
            var0 = self.cond_measure(cond)
            try: self.run_body(pre, body, inc)
            except (BreakE, ReturnE, ThrowE, ContinueE): raise Unsupported('control flow out of a summarised loop')
            for k in val:
                v1 = z3.substitute(val[k], (t, simp(tt + 1)))
                self.eq_obl(f'{lab}: preserved', get_leaf(self.cells[k[0]].val, k[1]), v1)
            if var0 is not None:
                put(simp(tt + 1)); v1 = self.cond_measure(cond)
                self.oblige(f'{lab}: terminates', z3.And(var0 > 0, v1 < var0), 'variant')
            raise PathEnd()
        self.assume(z3.Not(self.cond_val(cond)))
        self.norm_iter(tt, cond, put)
        return True
    def norm_iter(self, tt, cond, put):
        """closed form of the iteration count for unit-step conditions"""
        m = self.cond_measure(cond)
        if m is None: return
        m0 = simp(z3.substitute(m, (tt, z3.IntVal(0))))
        if as_int(simp(m - (m0 - tt))) != 0 or mentions_id(m0, tt.get_id()): return
        if not self.feasible(m0 < 0): T = m0
        else: T = z3.If(m0 >= 0, m0, z3.IntVal(0))
        T = simp(T)
        self.oblige('map loop: iteration count', tt == T, 'assert')
        self.assume(tt == T); self.hyps.append(tt == T) if self.dry else None
        put(T)
        for f, ee, tv in getattr(self, 'sums', {}).values():
            if any(mentions_fn(l, f) for c in self.cells for _, l in safe_leaves(c.val)): self.sum_unfold(f, ee, tv, simp(T - 1))
    def ne_bound(self, tt, cond, put):
        """a loop of unit step that stops at equality: the number of iterations never exceeds the initial distance"""
        try: c = self.pure_cond(cond)
        except Unsupported: return
        if not (z3.is_distinct(c) or (z3.is_not(c) and z3.is_eq(c.arg(0)))): return
        m = self.cond_measure(cond)
        if m is None: return
        m0 = simp(z3.substitute(m, (tt, z3.IntVal(0))))
        if as_int(simp(m - (m0 - tt))) != 0 or mentions_id(m0, tt.get_id()): return
        if not self.trial: self.oblige('map loop: bound initially', m0 >= 0, 'inv-init')   # preserved: tt <= m0 and tt != m0 give tt + 1 <= m0
        self.hyps.append(tt <= m0)
    def eq_obl(self, name, a, b):
        if z3.is_array(a):
            k = fresh(z3.IntSort(), 'k')
            a, b = sel_deep(a, k), sel_deep(b, k)
            if z3.is_array(a): return self.eq_obl(name, a, b)
        self.oblige(name, a == b, 'inv-preserve' if 'preserved' in name else 'inv-init')
    def pure_cond(self, cond):
        snap = [(c, c.val) for c in self.cells]; nc = len(self.cells)
        self.trial += 1; sh = list(self.hyps)
        try: return self.cond_val(cond)
        except NoAuto: raise Unsupported('cond')
        finally:
            self.trial -= 1; self.hyps = sh
            for c, v in snap: c.val = v
            del self.cells[nc:]
    def cond_measure(self, cond):
        """b - a for a condition a < b (or a != b, whichever of b - a and a - b is not negative), as a termination measure"""
        m = self.cond_measure_(cond); c = self.pure_cond(cond)
        if m is not None and (z3.is_distinct(c) or (z3.is_not(c) and z3.is_eq(c.arg(0)))) and not self.feasible(m > 0) and self.feasible(m < 0): m = simp(-m)
        return m
    def cond_measure_(self, cond):
        c = self.pure_cond(cond)
        if z3.is_not(c):
            d = c.arg(0)
            if z3.is_le(d): return d.arg(0) - d.arg(1)
            if z3.is_ge(d): return d.arg(1) - d.arg(0)
            if z3.is_eq(d) and d.arg(0).sort() == z3.IntSort(): return d.arg(1) - d.arg(0)
        if z3.is_lt(c): return c.arg(1) - c.arg(0)
        if z3.is_gt(c): return c.arg(0) - c.arg(1)
        if z3.is_distinct(c): return c.arg(1) - c.arg(0)
        if z3.is_le(c): return c.arg(1) - c.arg(0) + 1
        if z3.is_ge(c): return c.arg(0) - c.arg(1) + 1
        return None

    def symloop(self, n, pre, cond, inc, body):
        if n['id'] not in self.loop_ord and not getattr(self.spec, 'no_auto', False):
            if self.auto_loop(n, pre, cond, inc, body): return
        if self.trial: raise NoAuto()
        if n['id'] not in self.loop_ord: self.loop_ord[n['id']] = len(self.loop_ord)
        o = self.loop_ord[n['id']]
        spec = self.spec.loop(o, self)
        if spec is None: raise Unsupported(f'no invariant for loop {o} in {self.fn_label}')
        self.loop_seen[o] = C.loop_shape(n)
        S = LoopS(self, n)
        lab = f'loop{o}'
        S.entry = [(c, c.val) for c in self.cells]
        S.mod = lambda: self.modset(n, pre, cond, inc, body)
        self.assume(call_opt(spec, 'lem_init', S))
        for nm, g in flat(spec.inv(S)): self.oblige(f'{lab}:init:{nm}', g, 'inv-init')
        ms = self.modset(n, pre, cond, inc, body)
        self.havoc(ms)
        for nm, g in flat(spec.inv(S)): self.assume(g)
        b = self._branch(2)
        if b == 0:
            self.assume(call_opt(spec, 'lem_head', S))
            self.assume(self.cond_val(cond))
            v0 = call_opt(spec, 'variant', S)
            self.assume(call_opt(spec, 'lem_body', S))
            S.head = [(c, c.val) for c in self.cells]
            try:
                self.run_body(pre, body, inc)
            except BreakE:
                return
            self.assume(call_opt(spec, 'lem_end', S))
            if v0 is not None:
                v1 = call_opt(spec, 'variant', S)
                self.oblige(f'{lab}:variant', z3.And(v0 >= 0, v1 < v0), 'variant')
            for nm, g in flat(spec.inv(S)): self.oblige(f'{lab}:preserve:{nm}', g, 'inv-preserve')
            raise PathEnd()
        else:
            self.assume(call_opt(spec, 'lem_head', S))
            self.assume(z3.Not(self.cond_val(cond)))
            self.assume(call_opt(spec, 'lem_exit', S))
            for nm, g in flat(call_opt(spec, 'exit_assert', S) or []):
                self.oblige(f'{lab}:exit:{nm}', g, 'assert'); self.assume(g)

    # ------------------------------------------------------------ expressions
    def rv(self, n):
        return self.read(self.ev(n))
    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expr ' + k)
        return m(n)
    def tobool(self, v):
        if v.sort() == z3.BoolSort(): return v
        return v != 0
    def passthru(self, n): return self.ev(n['inner'][0])
    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = passthru
    def e_ConstantExpr(self, n): return self.ev(n['inner'][0])
    def e_SubstNonTypeTemplateParmExpr(self, n): return self.ev(n['inner'][-1])
    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(n['inner'][0])
        if isinstance(v, LV): return v
        return LV(self.new_cell(v, 'tmp', C.qt(n)))
    def e_IntegerLiteral(self, n):
        return z3.IntVal(int(n['value']))
    def e_CharacterLiteral(self, n): return z3.IntVal(int(n['value']))
    def e_FloatingLiteral(self, n):
        fr = Fraction(float(n['value'])); return z3.RealVal(f'{fr.numerator}/{fr.denominator}')
    def e_CXXBoolLiteralExpr(self, n): return z3.BoolVal(bool(n['value']))
    def e_StringLiteral(self, n): return self.text.literal(n['value']) if self.text else Opaque('str')
    def e_PredefinedExpr(self, n): return Opaque('str')
    def e_SourceLocExpr(self, n): return Opaque('loc')
    def e_CXXNullPtrLiteralExpr(self, n): return Opaque('null')
    def e_SizeOfPackExpr(self, n):
        v = n.get('value')
        if v is None:
            # clang's JSON has no pack length: count the frame's trailing parameters of that pack
            name = n.get('name')
            cnt = len([p for p in self.frame().fn.params if p.get('name') == name])
            return z3.IntVal(cnt)
        return z3.IntVal(int(v))
    def e_ImplicitValueInitExpr(self, n): return self.zero(ptype(C.qt(n)))
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
    def e_CXXThisExpr(self, n):
        f = self.frames[-1]
        while f is not None and f.this is None: f = f.parent
        return Ptr(f.this)
    def e_CXXDefaultArgExpr(self, n):
        if n.get('inner'): return self.ev(n['inner'][0])
        return None
    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = (n.get('argType') or {}).get('desugaredQualType') or (n.get('argType') or {}).get('qualType') or C.qt(n['inner'][0])
            return z3.IntVal(self.sizeof_s(t))
        raise Unsupported('typetrait')
    def sizeof_s(self, t):
        c = clean(t)
        if c in FLOATS: return {'float': 4, 'double': 8, 'long double': 16}[c]
        return self.sizeof(ptype(t))
    def sizeof(self, t):
        if t[0] == 'int': return t[1] // 8
        if t[0] == 'real': return 8
        if t[0] == 'bool': return 1
        raise Unsupported('sizeof')
    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        k = d['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            x = self.lookup(d['id'])
            if x is not None: return x
            return self.static_var(d)
        if k == 'EnumConstantDecl':
            v = self.P.enums.get(d['id'])
            if v is None: raise Unsupported('enum')
            return z3.IntVal(v)
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConversionDecl'): return FnRef(d)
        raise Unsupported('declref ' + k)
    def static_var(self, d):
        key = 'static:' + d['id']
        f = self.frames[0]
        if key in f.vars: return f.vars[key]
        if d['name'].endswith('_v') or d['name'] in ('value',):
            raise Unsupported('trait value')
        n = self.P.vars.get(d['id'])
        if n is None and self.real_logger and d.get('name') in ('cout', 'cerr', 'clog'): return LV(self.new_cell(Opaque('stream'), d['name']))
        if n is None: raise Unsupported('unknown variable ' + d.get('name', ''))
        hook = getattr(self, 'static_hook', None)
        if hook:
            v = hook(self, n)
            if v is not None:
                f.vars[key] = LV(self.new_cell(v, d['name'], C.qt(n))); return f.vars[key]
        ini = [c for c in n.get('inner', ()) if 'kind' in c and not c['kind'].endswith('Comment')]
        if not ini: raise Unsupported('static without init')
        cache = self.P.__dict__.setdefault('static_cache', {})
        if d['id'] in cache: v = cache[d['id']]     # constants evaluated earlier in this process, with their obligations
        else:
            nt, nh = len(self.trail), len(self.hyps)
            v = self.read(self.ev_init(ini[-1], ptype(C.qt(n))))
            if not self.dry and not self.trial and len(self.trail) == nt and len(self.hyps) == nh and all(z3.is_int_value(x) or z3.is_rational_value(x) for _, x in leaves(v)): cache[d['id']] = v
        f.vars[key] = LV(self.new_cell(v, d['name'], C.qt(n)))
        return f.vars[key]
    def e_MemberExpr(self, n):
        b = self.ev(n['inner'][0])
        name = n.get('name')
        rid = n.get('referencedMemberDecl')
        if isinstance(b, Ptr): b = b.lv
        if rid in self.P.fns or rid not in self.P.vars and self.is_method(n):
            return FnRef({'id': rid, 'name': name, 'kind': 'CXXMethodDecl', 'type': n.get('type')}, b)
        if rid in self.P.vars: return self.static_var({'id': rid, 'name': name})
        if not isinstance(b, LV): b = LV(self.new_cell(b, 'tmp'))
        return b.ext(('f', name))
    def is_method(self, n):
        return (n.get('type') or {}).get('qualType') == '<bound member function type>'
    def e_CXXStaticCastExpr(self, n): return self.do_cast(n)
    e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_ImplicitCastExpr = e_CXXConstCastExpr = lambda self, n: self.do_cast(n)
    def e_CXXReinterpretCastExpr(self, n):
        v = self.rv(n['inner'][0])
        if isinstance(v, Ptr) and v.lv.path and v.lv.path[-1][0] == 'v':
            src = ptype(C.qt(n['inner'][0]))
            if as_int(v.lv.path[-1][1]) != 0: raise Unsupported('byte view offset')
            return BytePtr(LV(v.lv.cell, v.lv.path[:-1]), self.sizeof_s(C.qt(n['inner'][0]).rstrip(' *')))
        raise Unsupported('reinterpret_cast')
    def do_cast(self, n):
        ck = n.get('castKind')
        sub = n['inner'][-1] if n['kind'] != 'CXXFunctionalCastExpr' else n['inner'][0]
        if sub.get('kind') == 'InitListExpr':
            return self.initlist(sub, ptype(C.qt(n)))
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'BaseToDerived'):
            return self.ev(sub)
        if ck == 'LValueToRValue': return self.rv(sub)
        if ck == 'ToVoid': self.ev(sub); return None
        if ck in ('NullToPointer', 'BitCast'): return self.ev(sub)
        v = self.rv(sub)
        if ck == 'IntegralCast': return self.int_cast(v, ptype(C.qt(sub)), ptype(C.qt(n)))
        if ck == 'IntegralToFloating': 
            if v.sort() != z3.IntSort(): return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            return to_f32(toreal(v)) if C.qt(n).replace('const', '').strip() == 'float' else toreal(v)
        if ck == 'FloatingCast': return to_f32(v) if C.qt(n).replace('const', '').strip() == 'float' else v
        if ck == 'IntegralToBoolean': return self.tobool(v)
        if ck == 'FloatingToBoolean': return v != 0
        if ck == 'FloatingToIntegral':
            iv = simp(v)
            if z3.is_rational_value(iv) and iv.denominator_as_long() == 1: return z3.IntVal(iv.numerator_as_long())
            raise Unsupported('float to int')
        raise Unsupported('cast ' + str(ck))
    def int_cast(self, v, src, dst):
        if v.sort() == z3.BoolSort(): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if src[0] == 'bool': return v
        if src[0] != 'int' or dst[0] != 'int':
            if src[0] == 'rec' and dst[0] == 'int': return v  # enum
            raise Unsupported(f'intcast {src}->{dst}')
        sb, ss = src[1:]; db, ds = dst[1:]
        c = as_int(v)
        if c is not None:
            r = c % M[db]
            if ds and r >= M[db] // 2: r -= M[db]
            return z3.IntVal(r)
        if self.exact and (db < sb or ss != ds):
            lo, hi = (-(M[db] // 2), M[db] // 2) if ds else (0, M[db])
            w = v % M[db]
            return z3.If(z3.And(lo <= v, v < hi), v, z3.If(w >= hi, w - M[db], w) if ds else w)
        if ss and not ds:      # signed -> unsigned: exact modulo
            if db >= sb: return self.nowrap(v >= 0, v, z3.If(v >= 0, v, v + M[db]))
            if db <= 16: return v % M[db]
            self.notes.add('narrowing signed->unsigned assumed value preserving'); return z3.If(v >= 0, v, v + M[db])
        if not ss and ds:
            if db > sb: return v
            if db <= 16: return z3.If(v % M[db] >= M[db] // 2, v % M[db] - M[db], v % M[db])
            if self.never_wraps(v): return v
            self.notes.add('unsigned->signed conversions: sizes/indices below 2^31')
            return self.nowrap(v < M[sb] // 2, v, z3.If(v >= M[sb] // 2, v - M[sb], v))
        if db >= sb: return v
        if db <= 16: return v % M[db] if not ds else z3.If(v % M[db] >= M[db] // 2, v % M[db] - M[db], v % M[db])
        self.notes.add('64->32 bit conversions of sizes/indices assumed below 2^31')
        return v
    def never_wraps(self, v):
        """syntactically free of the wrap-around terms the unsigned subtraction model introduces"""
        seen = set()
        def go(e):
            if e.get_id() in seen: return True
            seen.add(e.get_id())
            if z3.is_int_value(e) and abs(e.as_long()) >= M[32] - 1: return False
            return all(go(c) for c in e.children())
        return go(v)

    def e_UnaryOperator(self, n):
        op = n['opcode']; sub = n['inner'][0]
        if op == '*':
            v = self.rv(sub)
            if isinstance(v, Ptr): return v.lv
            if isinstance(v, Iter): return self.index(v.lv, v.i)
            raise Unsupported('deref')
        if op == '&':
            return Ptr(self.ev(sub))
        if op in ('++', '--'):
            lv = self.ev(sub); v = self.read(lv)
            t = ptype(C.qt(sub))
            if isinstance(v, Iter):
                self.write(lv, Iter(v.lv, simp(v.i + (1 if op == '++' else -1))))
                return v if n.get('isPostfix') else lv
            nv = self.arith('+' if op == '++' else '-', v, z3.IntVal(1) if v.sort() == z3.IntSort() else z3.RealVal(1), t)
            self.write(lv, nv)
            return v if n.get('isPostfix') else lv
        v = self.rv(sub)
        if op == '-':
            t = ptype(C.qt(n))
            if t[0] == 'int' and not t[2]: return self.arith('-', z3.IntVal(0), v, t)
            return -v
        if op == '+': return v
        if op == '!': return z3.Not(self.tobool(v))
        if op == '~': raise Unsupported('~')
        raise Unsupported('unary ' + op)

    def arith(self, op, a, b, t):
        isint = t[0] == 'int'
        if isint:
            if a.sort() == z3.BoolSort(): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if b.sort() == z3.BoolSort(): b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if not isint and op in '+-*' and a.sort() == z3.RealSort() and b.sort() == z3.RealSort():
            r = foldr(op, a, b)
            if r is not None: return r
        if op == '+':
            return self.wrapchk(a + b, t)
        if op == '*': return self.wrapchk(a * b, t)
        if op == '-':
            r = a - b
            if isint and not t[2]:
                c = as_int(r)
                if c is not None: return z3.IntVal(c % M[t[1]])
                if self.nonneg(r): return r
                return self.nowrap(a >= b, r, z3.If(a >= b, r, r + M[t[1]]))
            return r
        if op in ('/', '%'):
            if isint:
                cb = as_int(b)
                if cb == 0:
                    if self.guards: raise Unsupported('division by zero under guard')
                    self.oblige('division by zero', False, 'safety'); raise PathEnd()
                if cb is None: self.oblige('divisor nonzero', b != 0, 'safety')
                if t[2]:
                    ca = as_int(a)
                    if ca is not None and cb is not None:
                        q = abs(ca) // abs(cb) * (1 if (ca < 0) == (cb < 0) else -1)
                        return z3.IntVal(q if op == '/' else ca - q * cb)
                    self.notes.add('signed division operands non-negative')
                    self.oblige('signed division operands nonneg', z3.And(a >= 0, b > 0), 'safety')
                return self.intdiv(op, a, b)
            if op == '%': raise Unsupported('fmod')
            self.div_obl(b)
            return a / b
        if op in ('&', '|', '<<', '>>', '^'):
            if a.sort() == z3.BoolSort():
                return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](a, b)
            ca, cb = as_int(a), as_int(b)
            if ca is not None and cb is not None:
                return z3.IntVal({'&': ca & cb, '|': ca | cb, '<<': ca << cb, '>>': ca >> cb, '^': ca ^ cb}[op])
            if op == '<<' and cb is not None: return a * (1 << cb)
            if op == '>>' and cb is not None: return a / (1 << cb)
            if op == '&':
                if cb is None: a, b, ca, cb = b, a, cb, ca
                if cb is not None and cb >= 0: return mask(a, cb)
            if self.text and op == '|': return self.text.bitor(self, a, b)
            if self.real_logger and op == '|': r = fresh(z3.IntSort(), 'or'); self.assume(r >= 0); return r
            raise Unsupported('bitop ' + op)
        raise Unsupported('arith ' + op)
    def wrapchk(self, r, t):
        if t[0] == 'int':
            c = as_int(r)
            if c is not None:
                if not t[2]: return z3.IntVal(c % M[t[1]])
                return z3.IntVal(c)
            if self.exact:
                lo, hi = (-(M[t[1]] // 2), M[t[1]] // 2) if t[2] else (0, M[t[1]])
                if t[2]: self.oblige('signed arithmetic in range', z3.And(lo <= r, r < hi), 'overflow'); return r
                return z3.If(z3.And(0 <= r, r < hi), r, r % hi)
            if t[1] <= 16 and not t[2]: return r % M[t[1]]
            # collapse the explicit wrap of (a-b)+c at full width
            if not t[2] and not self.never_wraps(r):
                return self.nowrap(r < M[t[1]], r, z3.If(r >= M[t[1]], r - M[t[1]], r))
            self.notes.add('unsigned/signed integer + and * assumed not to overflow')
        return r
    def div_obl(self, b):
        c = z3.simplify(b)
        if z3.is_rational_value(c) and c.numerator_as_long() != 0: return
        if self.spec_real_div: self.oblige('real divisor nonzero', b != 0, 'real-div')
    spec_real_div = False
    def nonneg(self, r):
        return False
    def intdiv(self, op, a, b):
        ca, cb = as_int(a), as_int(b)
        if ca is not None and cb is not None: return z3.IntVal(ca // cb if op == '/' else ca % cb)
        if cb is not None: return a / b if op == '/' else a % b
        from poly import exact_div
        q = exact_div(a, b)
        if q is not None: return q if op == '/' else z3.IntVal(0)
        self.assume(euclid(a, b))
        return idiv(a, b) if op == '/' else imod(a, b)

    def compare(self, op, a, b):
        if a.sort() == z3.BoolSort() and b.sort() != z3.BoolSort(): a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
        if b.sort() == z3.BoolSort() and a.sort() != z3.BoolSort(): b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b}[op]()
    def e_BinaryOperator(self, n):
        op = n['opcode']; l, r = n['inner']
        if op == ',':
            self.ev(l); return self.ev(r)
        if op == '=':
            rvv = self.rv(r); lv = self.ev(l); self.write(lv, rvv); return lv
        if op in ('&&', '||'):
            a = self.tobool(self.rv(l))
            sa = z3.simplify(a)
            if op == '&&':
                if z3.is_false(sa): return sa
                self.guards.append(a)
            else:
                if z3.is_true(sa): return sa
                self.guards.append(z3.Not(a))
            try: b = self.tobool(self.rv(r))
            finally: self.guards.pop()
            return z3.And(a, b) if op == '&&' else z3.Or(a, b)
        a = self.rv(l); b = self.rv(r)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if isinstance(a, Iter) and isinstance(b, Iter) and a.lv.cell is b.lv.cell and a.lv.path == b.lv.path: return self.compare(op, a.i, b.i)
            if op in ('==', '!=') and isinstance(a, Ptr) and isinstance(b, Ptr): r = self.same_object(a.lv, b.lv); return r if op == '==' else z3.Not(r)
            if isinstance(a, Ptr) and b is None or isinstance(b, Ptr) and a is None: return z3.BoolVal(op == '!=')
            if isinstance(a, (Opaque, Iter, Ptr)) or isinstance(b, Ptr): raise Unsupported('cmp')
            return self.compare(op, a, b)
        if isinstance(a, BytePtr): raise Unsupported('pointer arithmetic')
        return self.arith(op, a, b, ptype(C.qt(n)))
    def same_object(self, a, b):
        """do two pointers designate the same object"""
        if not isinstance(a, LV) or not isinstance(b, LV): raise Unsupported('cmp')
        if a.cell is not b.cell: return z3.BoolVal(False)
        if len(a.path) != len(b.path): raise Unsupported('pointers into nested objects')
        r = []
        for x, y in zip(a.path, b.path):
            if x[0] != y[0]: raise Unsupported('pointers into nested objects')
            if z3.is_expr(x[1]) and z3.is_expr(y[1]): r.append(x[1] == y[1])
            elif x[1:] != y[1:]: return z3.BoolVal(False)
        return z3.simplify(z3.And(r)) if r else z3.BoolVal(True)
    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]; l, r = n['inner']
        ct = ptype((n.get('computeResultType') or {}).get('desugaredQualType') or (n.get('computeResultType') or {}).get('qualType', ''))
        lt = ptype(C.qt(l))
        b = self.rv(r); lv = self.ev(l); a = self.read(lv)
        if ct[0] == 'real':
            if a.sort() == z3.IntSort(): a = toreal(a)
            if b.sort() == z3.IntSort(): b = toreal(b)
        elif ct[0] == 'int' and lt[0] == 'int' and ct != lt: a = self.int_cast(a, lt, ct)
        if ct[0] == 'bool' : raise Unsupported('bool compound')
        v = self.arith(op, a, b, ct)
        if ct[0] == 'int' and lt[0] == 'int' and ct != lt: v = self.int_cast(v, ct, lt)
        if ct[0] == 'real' and lt[0] == 'int': raise Unsupported('int op= real')
        self.write(lv, v)
        return lv
    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        cv = z3.simplify(self.tobool(self.rv(c)))
        if z3.is_true(cv): return self.ev(a)
        if z3.is_false(cv): return self.ev(b)
        if n.get('valueCategory') == 'lvalue' or C.qt(n) == 'void':
            if self.guards: raise Unsupported('lvalue cond under guard')
            return self.ev(a) if self.decide(cv) else self.ev(b)
        self.guards.append(cv)
        try: x = self.rv(a)
        except ThrowE: raise Unsupported('throw in conditional')
        finally: self.guards.pop()
        self.guards.append(z3.Not(cv))
        try: y = self.rv(b)
        finally: self.guards.pop()
        if isleaf(x):
            if x.sort() != y.sort(): x, y = coerce(x, z3.RealSort()), coerce(y, z3.RealSort())
            return z3.If(cv, x, y)
        return zipl(lambda p, q: z3.If(cv, p, q), x, y)
    def e_InitListExpr(self, n): return self.initlist(n)
    def e_CXXStdInitializerListExpr(self, n):
        def inner(m):
            while m['kind'] in ('MaterializeTemporaryExpr', 'ImplicitCastExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr'): m = m['inner'][0]
            return m
        il = inner(n['inner'][0])
        if il['kind'] != 'InitListExpr': raise Unsupported('initializer list')
        return InitList([self.read(self.ev_init(c, None)) for c in il.get('inner', ())])
    def e_CXXConstructExpr(self, n):
        t = ptype(C.qt(n))
        args = []
        for c in n.get('inner', ()):
            if c.get('kind') == 'CXXDefaultArgExpr': continue
            args.append(self.ev(c))
        ct = (n.get('ctorType') or {}).get('qualType', '')
        if not args and n.get('kind') == 'CXXConstructExpr' and t[0] == 'arr' and not n.get('zeroing') and not n.get('list'):
            # default-initialised Point/array: indeterminate
            return self.uninitialised(t)
        return self.construct(t, ct, args)
    def e_CXXTemporaryObjectExpr(self, n):
        t = ptype(C.qt(n))
        args = [self.ev(c) for c in n.get('inner', ()) if c.get('kind') != 'CXXDefaultArgExpr']
        return self.construct(t, (n.get('ctorType') or {}).get('qualType', ''), args)
    def e_CXXThrowExpr(self, n):
        raise ThrowE('throw', self.read(self.ev(n['inner'][0])) if n.get('inner') else None)
    def e_LambdaExpr(self, n):
        rec = n['inner'][0]
        ops = []
        for c in rec.get('inner', ()):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': ops.append(c)
            if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                ops += [d for d in c.get('inner', ()) if d.get('kind') == 'CXXMethodDecl']
        l = Lam(); l.fn = ops; l.frame = self.frames[-1]; l.copies = {}; l.this = None
        fields = [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']
        caps = [c for c in n['inner'][1:] if c.get('kind') != 'CompoundStmt']
        for c in caps:
            m = c
            if m.get('kind') == 'DeclRefExpr': continue     # by reference
            while m.get('kind') in ('ImplicitCastExpr', 'CXXConstructExpr', 'ParenExpr', 'InitListExpr') and m.get('inner'):
                m = m['inner'][0]
            if m.get('kind') == 'DeclRefExpr':
                l.copies[m['referencedDecl']['id']] = LV(self.new_cell(self.rv(c), 'cap', C.qt(m)))
        return l
    def call_lambda(self, l, opid, args):
        node = None
        for o in l.fn:
            if opid is None or o['id'] == opid: node = o
        if node is None: node = l.fn[-1]
        f = C.Fn(); f.id = node['id']; f.name = 'lambda'; f.qual = 'lambda'; f.rec = None; f.node = node; f.kind = 'CXXMethodDecl'
        f.type = node['type']['qualType']; f.params = [c for c in node.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        f.inits = []; f.body = [c for c in node['inner'] if c.get('kind') == 'CompoundStmt'][-1]; f.targs = []; f.static = False; f.const = True; f.defaulted = False
        fr_parent = l.frame
        rt_ref = f.type.split('->')[-1].strip().endswith('&') if '->' in f.type else f.type.split('(')[0].strip().endswith('&')
        # execute with lexical parent
        fr = Frame(f, None, fr_parent); fr.over = dict(l.copies)
        for i, p in enumerate(f.params):
            t = C.qt(p); a = args[i]
            if t.rstrip().endswith('&'):
                if not isinstance(a, LV): a = LV(self.new_cell(a, p.get('name', ''), t))
                fr.vars[p['id']] = a
            else: fr.vars[p['id']] = LV(self.new_cell(self.conv_to(self.read(a), ptype(t)), p.get('name', ''), t))
            fr.names[p.get('name', '')] = p['id']
        self.frames.append(fr); self.depth += 1
        try:
            self.stmt(f.body); ret = None
        except ReturnE as r: ret = r.v
        finally:
            self.depth -= 1; self.frames.pop()
        if ret is not None and not rt_ref: ret = self.read(ret)
        return ret

    # ---- calls
    def e_CallExpr(self, n):
        inner = n['inner']
        cal = self.ev(inner[0])
        if isinstance(cal, FnRef):
            fn = self.P.fns.get(cal.decl['id'])
            name = cal.decl.get('name', '')
            if fn is not None and fn.rec is not None and fn.rec.name == 'Logger' and not self.real_logger: return self.logger(name)
            if fn is not None and (fn.body is not None or fn.defaulted):
                return self.call_fn(fn, None, [self.ev(a) for a in inner[1:]], n)
            return self.std_fn(name, inner[1:], n)
        raise Unsupported('indirect call')
    def logger(self, name):
        if name.startswith('TerminatingError'): raise ThrowE('terminating')
        return None
    def is_logger_call(self, n):
        pass
    def e_CXXMemberCallExpr(self, n):
        inner = n['inner']
        m = inner[0]
        while m['kind'] in ('ParenExpr', 'ImplicitCastExpr'): m = m['inner'][0]
        cal = self.ev(m)
        if isinstance(cal, FnRef):
            fn = self.P.fns.get(cal.decl['id'])
            base = cal.bound
            if isinstance(base, Ptr): base = base.lv
            if fn is not None:
                if not isinstance(base, LV): base = LV(self.new_cell(base, 'tmp'))
                args = [self.ev(a) for a in inner[1:] if a.get('kind') != 'CXXDefaultArgExpr']
                return self.call_fn(fn, base, args, n)
            return self.std_method(cal.decl.get('name', ''), base, inner[1:], n)
        raise Unsupported('member call')
    def e_CXXOperatorCallExpr(self, n):
        inner = n['inner']
        ref = inner[0]
        while ref['kind'] != 'DeclRefExpr': ref = ref['inner'][0]
        d = ref['referencedDecl']
        name = d.get('name', '')
        fn = self.P.fns.get(d['id'])
        if fn is not None and (fn.body is not None or fn.defaulted):
            args = [self.ev(a) for a in inner[1:]]
            if fn.kind == 'CXXMethodDecl' and not fn.static:
                base = args[0]
                if isinstance(base, Ptr): base = base.lv
                if not isinstance(base, LV): base = LV(self.new_cell(base, 'tmp'))
                return self.call_fn(fn, base, args[1:], n)
            return self.call_fn(fn, None, args, n)
        args = [self.ev(a) for a in inner[1:]]
        if name == 'operator()':
            l = self.read(args[0])
            if isinstance(l, Lam): return self.call_lambda(l, d['id'], args[1:])
            raise Unsupported('call operator')
        if name == 'operator[]': return self.index(args[0], self.read(args[1]))
        if name == 'operator=':
            if self.text and self.text.assign(self, args): return args[0]
            self.write(args[0], self.read(args[1])); return args[0]
        a = [self.read(x) for x in args]
        if self.text:
            r = self.text.op(self, name, args, a, inner[1:], n)
            if r is not None: return r
        if any(isinstance(x, Opaque) for x in a): return Opaque('str')
        if name == 'operator==' or name == 'operator!=':
            e = self.equal(a[0], a[1])
            return e if name == 'operator==' else z3.Not(e)
        if isinstance(a[0], Iter):
            if name == 'operator*': return self.index(a[0].lv, a[0].i)
            if name == 'operator+': return Iter(a[0].lv, a[0].i + a[1])
            if name == 'operator-' and isleaf(a[1]): return Iter(a[0].lv, a[0].i - a[1])
            if name in ('operator++', 'operator--'):
                self.write(args[0], Iter(a[0].lv, simp(a[0].i + (1 if name == 'operator++' else -1)))); return a[0] if len(args) > 1 else args[0]
            if name == 'operator-' and isinstance(a[1], Iter) and a[0].lv.cell is a[1].lv.cell: return a[0].i - a[1].i
            if name in ('operator+=', 'operator-='):
                self.write(args[0], Iter(a[0].lv, simp(a[0].i + a[1] if name == 'operator+=' else a[0].i - a[1]))); return args[0]
            if name in ('operator<', 'operator<=', 'operator>', 'operator>=') and isinstance(a[1], Iter): return self.compare(name[8:], a[0].i, a[1].i)
        raise Unsupported('operator call ' + name)

    def equal(self, a, b):
        if isleaf(a):
            if a.sort() != b.sort(): a, b = coerce(a, z3.RealSort()), coerce(b, z3.RealSort())
            return a == b
        if isinstance(a, CVec) and len(a.e) != len(b.e): return z3.BoolVal(False)
        if isinstance(a, ArrV): return z3.And([self.equal(x, y) for x, y in zip(a.e, b.e)]) if a.e else z3.BoolVal(True)
        if isinstance(a, VecV):
            i = z3.Int('eq!i')
            el = []
            def pair(p, q):
                el.append((p, q)); return p
            zipl(pair, a.elem, b.elem)
            qs = [z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.len), p[i] == q[i]), patterns=[p[i], q[i]]) if not z3.eq(p, q) else z3.BoolVal(True) for p, q in el]
            return z3.And([a.len == b.len] + qs)
        if isinstance(a, Iter) and isinstance(b, Iter) and a.lv.cell is b.lv.cell: return a.i == b.i
        raise Unsupported('equality')

    def index(self, base, i):
        if isinstance(base, Ptr): base = base.lv
        v = self.read(base)
        if isinstance(v, BytePtr): return self.byteptr_index(v, i)
        if isinstance(v, VecV):
            self.oblige('vector index in bounds', z3.And(0 <= i, i < v.len), 'bounds')
            if not isinstance(base, LV): base = LV(self.new_cell(v, 'tmp'))
            return base.ext(('v', poly.norm_int(i) if getattr(self.spec, 'norm_index', False) and not has_ite(i) else simp(i)))
        if isinstance(v, ArrV):
            if not isinstance(base, LV): base = LV(self.new_cell(v, 'tmp'))
            c = as_int(i)
            if c is None and len(v.e) == 1 and not self.dry:
                self.oblige('array index in bounds', i == 0, 'bounds'); self.assume(i == 0) if not self.guards else None; c = 0
            if c is not None:
                if not (0 <= c < len(v.e)):
                    if self.guards: raise Unsupported('array index out of bounds under guard')
                    self.oblige('array index in bounds', False, 'bounds'); raise PathEnd()
                return base.ext(('i', c))
            if len(v.e) > 8 or isinstance(v, CVec):
                return self.big_array_index(base, v, i)
            self.oblige('array index in bounds', z3.And(0 <= i, i < len(v.e)), 'bounds')
            for k in range(len(v.e)):
                if k == len(v.e) - 1:
                    if not self.dry: self.assume(i == k)
                    return base.ext(('i', k))
                if self.decide(i == k): return base.ext(('i', k))
        raise Unsupported('index on ' + type(v).__name__)
    def big_array_index(self, base, v, i):
        """symbolic index into a table of constants: a function symbol keyed by the contents, with its graph"""
        if not all(isleaf(x) and z3.is_int_value(x) for x in v.e): raise Unsupported('symbolic index in large array')
        self.oblige('array index in bounds', z3.And(0 <= i, i < len(v.e)), 'bounds')
        t = tuple(x.as_long() for x in v.e); f = self.table(t)
        if not self.dry and hasattr(self.spec, 'table_fact'): self.spec.table_fact(self, t, f)
        return f(i)
    def table(self, t):
        import hashlib
        f = z3.Function('table.' + hashlib.sha1(repr(t).encode()).hexdigest()[:12], z3.IntSort(), z3.IntSort())
        return f
    def byteptr_index(self, v, i):
        n = self.read(v.lv).len
        self.oblige('byte access inside the object', z3.And(0 <= i, i < n * v.size), 'bounds')
        return v.lv.ext(('b', simp(i), v.size))
    def e_ArraySubscriptExpr(self, n):
        a, b = n['inner']
        return self.index(self.ev(a), self.rv(b))

    # ---- std models
    def std_fn(self, name, argn, n):
        if name == '__assert_fail':
            if self.guards: raise Unsupported('assert under guard')
            self.oblige('assert() condition holds', False, 'assert')
            raise PathEnd()
        if self.text and name in ('to_string', 'asctime', 'ctime'):
            for x in argn: self.ev(x)
            return self.text.lib(name)
        if name in ('to_string',): 
            return Opaque('str')
        if name in ('move', 'forward', 'as_const') and len(argn) == 1: return self.ev(argn[0])
        args = [self.ev(a) for a in argn]
        if not args and name in ('epsilon', 'max', 'min', 'lowest'):     # std::numeric_limits<T>::name()
            t = ptype(C.qt(n)); ty = C.qt(n).replace('const ', '').strip()
            if ty in ('double', 'float'):
                p, x = (53, 1024) if ty == 'double' else (24, 128)
                big = (2 ** p - 1) * 2 ** (x - p)
                from fractions import Fraction as Fr
                v = {'epsilon': Fr(1, 2 ** (p - 1)), 'max': Fr(big), 'min': Fr(1, 2 ** (x - 2)), 'lowest': Fr(-big)}[name]
                return z3.Q(v.numerator, v.denominator)
            if t[0] == 'int' and ty in LIM_INT:
                lo, hi = LIM_INT[ty]
                if name != 'epsilon': return z3.IntVal(hi if name == 'max' else lo)
            raise Unsupported('numeric_limits ' + name)
        if name in ('max', 'min') and len(args) == 2:
            a, b = self.read(args[0]), self.read(args[1])
            # max(a,b) = (a<b)?b:a ; min(a,b) = (b<a)?b:a
            return LV(self.new_cell(z3.If(a < b, b, a) if name == 'max' else z3.If(b < a, b, a), name, C.qt(n)))
        r = self.std_algo(name, args, n)
        if r is not None: return r[0]
        if name == 'is_sorted' and len(args) == 2:
            b, e = self.read(args[0]), self.read(args[1])
            arr = self.read(b.lv)
            if isinstance(arr, ArrV):
                lo, hi = as_int(b.i), as_int(e.i)
                return z3.And([arr.e[k] <= arr.e[k + 1] for k in range(lo, hi - 1)]) if hi - lo > 1 else z3.BoolVal(True)
            i = z3.Int('so!i')
            return z3.ForAll([i], z3.Implies(z3.And(b.i <= i, i + 1 < e.i), arr.elem[i] <= arr.elem[i + 1]), patterns=[arr.elem[i]])
        if name in ('begin', 'cbegin'): return Iter(args[0], z3.IntVal(0))
        if name in ('end', 'cend'): return Iter(args[0], self.size_of(self.read(args[0])))
        if name in ('sqrt', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'pow', 'abs', 'fabs', 'sinh', 'cosh', 'tanh', 'log2', 'cbrt', 'exp2', 'atan2'):
            vs = [coerce(self.read(a), z3.RealSort()) for a in args]
            if name in ('abs', 'fabs'): return z3.If(vs[0] >= 0, vs[0], -vs[0])
            return self.mathfn(name, vs)
        if name == 'stable_sort' and len(args) == 3: return self.stable_sort(*[self.read(a) for a in args])
        if name == 'iota':
            b, e, v = self.read(args[0]), self.read(args[1]), self.read(args[2])
            if as_int(b.i) != 0: raise Unsupported('iota')
            arr = self.read(b.lv)
            na = fresh(arr.elem.sort(), 'iota'); i = z3.Int('io!i')
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < e.i), na[i] == i + v), patterns=[na[i]]))
            self.write(b.lv, VecV(arr.len, na)); return None
        if self.real_logger and name in ('setw', 'setfill', 'time', 'localtime', 'asctime', 'put_time', 'endl', 'gmtime', 'left', 'right'):
            t = ptype(C.qt(n))
            return fresh(z3.IntSort(), 'time') if t[0] == 'int' else Opaque('str')
        h = getattr(self, 'std_hook', None)
        if h:
            r = h(self, name, args, n)
            if r is not None: return r[0]
        raise Unsupported('std function ' + name)
    def algo_loop(self, n, lo, hi, step):
        """loop of a standard algorithm over positions lo..hi-1, step(position); symbolic ranges go through the inferred loop contracts"""
        idx = LV(self.new_cell(simp(lo), '__i', 'unsigned long'))
        self.loop({'kind': 'Algorithm', 'id': n['id'] + '.algo', 'inner': []}, None, lambda: self.read(idx) < hi, lambda: self.write(idx, self.read(idx) + 1), lambda: step(self.read(idx)))
    def callf(self, f, a):
        if not isinstance(f, Lam): raise Unsupported('function object of a standard algorithm')
        return self.call_lambda(f, None, a)
    def std_algo(self, name, args, n):
        """the standard algorithms by what the standard says they do, element by element in order; None if unknown"""
        if not args: return None
        A = [self.read(a) for a in args] if name not in ('swap', 'exchange', 'size', 'empty', 'data') else args
        isit = lambda *k: all(len(A) > i and isinstance(A[i], Iter) for i in k)
        at = lambda it, k: self.index(it.lv, simp(it.i + k))
        if isit(0, 1):
            b, e = A[0], A[1]
            if name != 'distance' and b.lv.cell is not e.lv.cell: raise Unsupported('range of ' + name)
            m = simp(e.i - b.i); c = as_int(m); zero = z3.IntVal(0)
            if name == 'distance': return (m,)
            if name in ('accumulate', 'inner_product', 'reduce') and len(A) > 2:
                k0 = 3 if name == 'inner_product' else 2
                if name == 'inner_product' and not isit(2): return None
                rt = ptype(C.qt(n)); acc = LV(self.new_cell(self.conv_to(A[k0], rt), 'acc', C.qt(n)))
                g = A[k0 + 1] if len(A) > k0 + 1 else None; h = A[k0 + 2] if len(A) > k0 + 2 else None
                def step(k):
                    x = self.read(at(b, k))
                    if name == 'inner_product': x = self.callf(h, [x, self.read(at(A[2], k))]) if h is not None else self.arith('*', x, self.read(at(A[2], k)), rt)
                    v = self.callf(g, [self.read(acc), x]) if g is not None else self.arith('+', coerce(self.read(acc), z3.RealSort()), x, ('real',)) if isleaf(x) and x.sort() == z3.RealSort() else self.arith('+', self.read(acc), x, rt)
                    v = self.conv_to(self.read(v), rt)
                    if rt[0] == 'int' and isleaf(v) and v.sort() == z3.RealSort(): v = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))     # an integer start value truncates every partial sum
                    self.write(acc, v)
                self.algo_loop(n, zero, m, step)
                return (self.read(acc),)
            if name == 'for_each' and len(A) == 3: self.algo_loop(n, zero, m, lambda k: self.callf(A[2], [at(b, k)])); return (A[2],)
            if name == 'fill' and len(A) == 3: self.algo_loop(n, zero, m, lambda k: self.assign_elem(at(b, k), A[2])); return (None,)
            if name == 'generate' and len(A) == 3: self.algo_loop(n, zero, m, lambda k: self.assign_elem(at(b, k), self.callf(A[2], []))); return (None,)
            if name in ('copy', 'move') and isit(2): self.algo_loop(n, zero, m, lambda k: self.assign_elem(at(A[2], k), self.read(at(b, k)))); return (Iter(A[2].lv, simp(A[2].i + m)),)
            if name == 'transform' and len(A) == 4 and isit(2): self.algo_loop(n, zero, m, lambda k: self.assign_elem(at(A[2], k), self.callf(A[3], [at(b, k)]))); return (Iter(A[2].lv, simp(A[2].i + m)),)
            if name == 'transform' and len(A) == 5 and isit(2, 3): self.algo_loop(n, zero, m, lambda k: self.assign_elem(at(A[3], k), self.callf(A[4], [at(b, k), at(A[2], k)]))); return (Iter(A[3].lv, simp(A[3].i + m)),)
            if name in ('all_of', 'any_of', 'none_of', 'count_if', 'find_if', 'count', 'find') and len(A) == 3:
                eq = name in ('count', 'find')
                pred = lambda k: self.tobool(self.read(self.equal(self.read(at(b, k)), A[2]) if eq else self.callf(A[2], [at(b, k)])))
                if c is not None:
                    cnt = z3.IntVal(0)
                    for k in range(c):
                        p = pred(z3.IntVal(k))
                        if name in ('count_if', 'count'): cnt = simp(cnt + z3.If(p, 1, 0)); continue
                        if self.decide(z3.Not(p) if name == 'all_of' else p):
                            if name in ('find_if', 'find'): return (Iter(b.lv, simp(b.i + k)),)
                            return (z3.BoolVal(name == 'any_of'),)
                    if name in ('count_if', 'count'): return (cnt,)
                    return (e,) if name in ('find_if', 'find') else (z3.BoolVal(name != 'any_of'),)
                if name in ('all_of', 'any_of', 'none_of'):
                    import val
                    k = fresh(z3.IntSort(), 'q'); nh = list(self.hyps); nt = len(self.trail)
                    self.hyps.append(z3.And(0 <= k, k < m)); c0 = val._ctr[0]; ncell = len(self.cells); st = [x.val for x in self.cells]
                    p = pred(k)
                    if len(self.trail) != nt or any(x.val is not y for x, y in zip(self.cells[:ncell], st)): raise Unsupported('predicate of ' + name)
                    del self.cells[ncell:]; self.hyps[:] = nh; q = z3.Int('q!' + name)
                    if mentions_fresh(p, c0): raise Unsupported('predicate of ' + name)
                    p = z3.substitute(p, (k, q)); r = z3.And(0 <= q, q < m)
                    return (z3.ForAll([q], z3.Implies(r, p)) if name == 'all_of' else z3.Exists([q], z3.And(r, p)) if name == 'any_of' else z3.ForAll([q], z3.Implies(r, z3.Not(p))),)
            if name in ('max_element', 'min_element') and len(A) == 2 and c is not None and c > 0:
                best = 0
                for k in range(1, c):
                    x, y = self.read(at(b, z3.IntVal(k))), self.read(at(b, z3.IntVal(best)))
                    if self.decide(x > y if name == 'max_element' else x < y): best = k
                return (Iter(b.lv, simp(b.i + best)),)
            if name == 'equal' and isit(2) and len(A) == 3 and c is not None: return (z3.And([z3.BoolVal(True)] + [self.equal(self.read(at(b, z3.IntVal(k))), self.read(at(A[2], z3.IntVal(k)))) for k in range(c)]),)
            if name == 'reverse' and len(A) == 2 and c is not None:
                v = [self.read(at(b, z3.IntVal(k))) for k in range(c)]
                for k in range(c): self.assign_elem(at(b, z3.IntVal(k)), v[c - 1 - k])
                return (None,)
            if name == 'partial_sum' and len(A) == 3 and isit(2) and c is not None:
                acc = None
                for k in range(c):
                    x = self.read(at(b, z3.IntVal(k))); acc = x if acc is None else self.arith('+', acc, x, ('int', 64, False) if isleaf(x) and x.sort() == z3.IntSort() else ('real',))
                    self.assign_elem(at(A[2], z3.IntVal(k)), acc)
                return (Iter(A[2].lv, simp(A[2].i + c)),)
        if name == 'fill_n' and isit(0) and len(A) == 3: self.algo_loop(n, z3.IntVal(0), simp(A[1]), lambda k: self.assign_elem(at(A[0], k), A[2])); return (Iter(A[0].lv, simp(A[0].i + A[1])),)
        if name == 'copy_n' and isit(0, 2) and len(A) == 3: self.algo_loop(n, z3.IntVal(0), simp(A[1]), lambda k: self.assign_elem(at(A[2], k), self.read(at(A[0], k)))); return (Iter(A[2].lv, simp(A[2].i + A[1])),)
        if name in ('next', 'prev') and isit(0):
            d = A[1] if len(A) > 1 else z3.IntVal(1); return (Iter(A[0].lv, simp(A[0].i + d if name == 'next' else A[0].i - d)),)
        if name == 'swap' and len(A) == 2 and isinstance(A[0], LV) and isinstance(A[1], LV):
            x, y = self.read(A[0]), self.read(A[1]); self.write(A[0], y); self.write(A[1], x); return (None,)
        if name == 'exchange' and len(A) == 2 and isinstance(A[0], LV):
            x = self.read(A[0]); y = self.read(A[1]); self.assign_elem(A[0], y); return (x,)
        if name in ('size', 'empty') and len(A) == 1:
            m = self.size_of(self.read(A[0])); return (m if name == 'size' else m == 0,)
        if not all(isleaf(a) for a in A): return None
        if name == 'clamp' and len(A) == 3: v, lo, hi = A; return (LV(self.new_cell(z3.If(v < lo, lo, z3.If(hi < v, hi, v)), 'clamp', C.qt(n))),)
        R = z3.RealSort(); real = len(A) > 0 and all(a.sort() in (R, z3.IntSort()) for a in A)
        if not real: return None
        x = coerce(A[0], R); fl = lambda v: z3.ToReal(z3.ToInt(v))
        if len(A) == 1:
            if name == 'floor': return (fl(x),)
            if name == 'ceil': return (-fl(-x),)
            if name == 'trunc': return (z3.If(x >= 0, fl(x), -fl(-x)),)
            if name == 'round': return (z3.If(x >= 0, fl(x + z3.Q(1, 2)), -fl(-x + z3.Q(1, 2))),)
            if name in ('isnan', 'isinf'): return (z3.BoolVal(False),)
            if name == 'isfinite': return (z3.BoolVal(True),)
            if name == 'signbit': return (x < 0,)
        if len(A) == 2 and name in ('fmax', 'fmin', 'hypot', 'copysign'):
            y = coerce(A[1], R)
            if name == 'hypot': return (self.mathfn('sqrt', [x * x + y * y]),)
            if name == 'copysign': ab = z3.If(x >= 0, x, -x); return (z3.If(y >= 0, ab, -ab),)
            return (z3.If(x < y, y, x) if name == 'fmax' else z3.If(y < x, y, x),)
        if len(A) == 3 and name == 'fma': return (x * coerce(A[1], R) + coerce(A[2], R),)
        return None
    def assign_elem(self, lv, v):
        """element = value, with the conversions of an assignment between scalars"""
        old = self.read(lv); v = self.read(v)
        if isleaf(old) and isleaf(v): v = coerce(v, old.sort())
        elif isleaf(old) != isleaf(v): raise Unsupported('assignment between element types')
        self.write(lv, v)
    def stable_sort(self, b, e, f):
        """model of std::stable_sort with a comparator over a whole integer vector: strict weak order is a precondition (obligation)"""
        arr = self.read(b.lv)
        if not isinstance(arr, VecV) or as_int(b.i) != 0 or not z3.eq(simp(e.i), simp(arr.len)) or not isleaf(arr.elem): raise Unsupported('stable_sort range')
        n, a = arr.len, arr.elem
        def cmp(x, y): return self.tobool(self.read(self.call_lambda(f, None, [x, y])))
        ks = [fresh(z3.IntSort(), 'so') for _ in range(3)]
        sh = list(self.hyps)
        for k in ks: self.assume(z3.And(0 <= k, k < n))
        x, y, z = [sel(a, k) for k in ks]
        self.oblige('comparator irreflexive', z3.Not(cmp(x, x)), 'precondition')
        self.oblige('comparator transitive', z3.Implies(z3.And(cmp(x, y), cmp(y, z)), cmp(x, z)), 'precondition')
        inc = lambda p, q: z3.And(z3.Not(cmp(p, q)), z3.Not(cmp(q, p)))
        self.oblige('comparator equivalence transitive', z3.Implies(z3.And(inc(x, y), inc(y, z)), inc(x, z)), 'precondition')
        i, j = z3.Int('ss!i'), z3.Int('ss!j')
        na = fresh(a.sort(), 'sorted'); 
        pi = z3.Function(f'perm!{_ctr_next()}', z3.IntSort(), z3.IntSort()); inv = z3.Function(f'perminv!{_ctr_next()}', z3.IntSort(), z3.IntSort())
        # comparator on sorted values, as a template over two bound values
        p, q = fresh(z3.IntSort(), 'cx'), fresh(z3.IntSort(), 'cy')
        self.guards.append(z3.BoolVal(False)); cpq = cmp(p, q); self.guards.pop()       # bounds of the comparator on range elements were obliged above
        at = lambda u, v: z3.substitute(cpq, (p, u), (q, v))
        self.hyps = sh
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(na[i] == sel(a, pi(i)), 0 <= pi(i), pi(i) < n, inv(pi(i)) == i)), patterns=[pi(i)]))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), pi(i) == pi(i)), patterns=[na[i]]))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= inv(i), inv(i) < n, pi(inv(i)) == i)), patterns=[inv(i)]))
        rng = z3.And(0 <= i, i < j, j < n)
        self.assume(z3.ForAll([i, j], z3.Implies(rng, z3.Not(at(na[j], na[i]))), patterns=[z3.MultiPattern(na[i], na[j])]))
        self.assume(z3.ForAll([i, j], z3.Implies(z3.And(rng, z3.Not(at(na[i], na[j]))), pi(i) < pi(j)), patterns=[z3.MultiPattern(na[i], na[j])]))
        self.notes.add('std::stable_sort: ordered, stable permutation of the range for a strict weak order (trusted library contract; the strict weak order is proved)')
        self.perm = (pi, inv)
        self.write(b.lv, VecV(n, na)); return None
    def mathfn(self, name, vs):
        f = z3.Function('m_' + name, *([z3.RealSort()] * (len(vs) + 1)))
        r = f(*vs)
        if name == 'sqrt': self.assume(z3.Implies(vs[0] >= 0, z3.And(r >= 0, r * r == vs[0])))
        return r
    def size_of(self, v):
        if isinstance(v, VecV): return v.len
        if isinstance(v, ArrV): return z3.IntVal(len(v.e))
        raise Unsupported('size')
    def std_method(self, name, base, argn, n):
        if not isinstance(base, LV): base = LV(self.new_cell(base, 'tmp'))
        v = self.read(base)
        if self.text:
            r = self.text.method(self, name, base, v, argn, n)
            if r is not None: return r[0]
        if isinstance(v, Opaque):
            for a in argn:
                if a.get('kind') != 'CXXDefaultArgExpr': self.ev(a)
            t = ptype(C.qt(n))
            return fresh({'int': z3.IntSort(), 'bool': z3.BoolSort(), 'real': z3.RealSort()}[t[0]], 'lib') if t[0] in ('int', 'bool', 'real') else Opaque('str')
        args = [self.ev(a) for a in argn if a.get('kind') != 'CXXDefaultArgExpr']
        if name == 'size': return self.size_of(v)
        if name == 'empty': return self.size_of(v) == 0
        if name in ('begin', 'cbegin'): return Iter(base, z3.IntVal(0))
        if name in ('end', 'cend'): return Iter(base, self.size_of(v))
        if name in ('operator[]', 'at'): return self.index(base, self.read(args[0]))
        if isinstance(v, CVec):
            r = self.cvec_method(name, base, v, args, n)
            if r is not None: return r[0]
        if isinstance(v, ArrV):
            if name == 'fill':
                x = self.read(args[0]); self.write(base, ArrV([x for _ in v.e])); return None
            if name == 'operator=': self.write(base, self.read(args[0])); return base
        if isinstance(v, VecV):
            if name == 'reserve' or name == 'shrink_to_fit': return None
            if name in ('push_back', 'emplace_back'): self.write(base, self.vec_push(v, self.read(args[0]))); return None
            if name == 'pop_back': self.write(base, VecV(v.len - 1, v.elem)); return None
            if name == 'clear': self.write(base, VecV(z3.IntVal(0), v.elem)); return None
            if name == 'front': return self.index(base, z3.IntVal(0))
            if name == 'back': return self.index(base, simp(v.len - 1))
            if name == 'data': return Ptr(base.ext(('v', z3.IntVal(0))))
            if name == 'resize':
                m = self.read(args[0])
                z = None
                et = self.elem_type(n)
                if len(args) > 1: z = self.read(args[1])
                elif et is not None: z = self.zero(et)
                self.write(base, self.vec_resize(v, m, z)); return None
            if name == 'operator=': self.write(base, self.read(args[0])); return base
        raise Unsupported('method ' + name)
    def cvec_method(self, name, base, v, args, n):
        if name in ('reserve', 'shrink_to_fit'): return (None,)
        if name in ('push_back', 'emplace_back'): self.write(base, self.vec_push(v, self.read(args[0]))); return (None,)
        if name == 'clear': self.write(base, CVec([])); return (None,)
        if name == 'pop_back': self.write(base, CVec(v.e[:-1])); return (None,)
        if name in ('front', 'back'): return (self.index(base, z3.IntVal(0 if name == 'front' else len(v.e) - 1)),)
        if name in ('resize', 'assign'):
            m = as_int(self.read(args[0]))
            if m is None or m > 20000: raise Unsupported('resize to symbolic size')
            z = self.read(args[1]) if len(args) > 1 else self.zero(self.elem_type(n))
            if name == 'assign': self.write(base, CVec([z] * m)); return (None,)
            self.write(base, CVec(v.e[:m] + [z] * (m - len(v.e)))); return (None,)
        return None
    def elem_type(self, n):
        m = n['inner'][0]
        t = ptype(C.qt(m['inner'][0]))
        if t[0] == 'ptr': t = t[1]
        return t[1] if t[0] == 'vec' else None
    def vec_resize(self, v, m, z):
        if as_int(v.len) == 0:
            if z is None: raise Unsupported('resize elem type')
            return VecV(m, mapl(lambda l: z3.K(z3.IntSort(), l), z))
        if z is None: z = mapl(lambda l: zero_sort(l.sort().range()), v.elem)
        i = z3.Int('rs!i')
        def f(a, zz):
            na = fresh(a.sort(), 'rsz')
            self.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.len, i < m), na[i] == a[i]), patterns=[na[i]]))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(v.len <= i, i < m), na[i] == zz), patterns=[na[i]]))
            return na
        return VecV(m, zipl(f, v.elem, z))

def _ctr_next():
    import val
    val._ctr[0] += 1; return val._ctr[0]
def zero_sort(s):
    if s == z3.RealSort(): return z3.RealVal(0)
    if s == z3.IntSort(): return z3.IntVal(0)
    if s == z3.BoolSort(): return z3.BoolVal(False)
    return z3.K(z3.IntSort(), zero_sort(s.range()))

def safe_leaves(v):
    try: return list(leaves(v))
    except Exception: return []
def mentions(e, ids):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.get_id() in ids: return True
        if z3.is_quantifier(x): st.append(x.body())
        else: st.extend(x.children())
    return False
def mentions_id(e, i): return mentions(e, {i})
def mentions_fn(e, f):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): st.append(x.body()); continue
        if z3.is_app(x) and x.decl().eq(f): return True
        st.extend(x.children())
    return False
def sel_deep(a, k): return sel(a, k)
F32 = z3.Function('rounded to single precision', z3.RealSort(), z3.RealSort())
def to_f32(v):
    """conversion to float: exact on values single precision represents, otherwise an unknown value"""
    v = simp(v)
    if z3.is_rational_value(v):
        import struct
        f = v.as_fraction()
        try:
            if struct.unpack('f', struct.pack('f', float(f)))[0] == f: return v
        except OverflowError: pass
    return F32(v)
def mentions_fresh(e, c0):
    """constants made after the counter stood at c0"""
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            t = x.decl().name().rsplit('!', 1)[-1]
            if t.isdigit() and int(t) > c0: return True
        st.extend(x.children())
    return False
def has_ite(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return True
        st.extend(x.children())
    return False
def has_quant(e):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        st.extend(x.children())
    return False

IDIV = z3.Function('idiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
IMOD = z3.Function('imod', z3.IntSort(), z3.IntSort(), z3.IntSort())
def idiv(a, b): return IDIV(simp(a), simp(b))
def imod(a, b): return IMOD(simp(a), simp(b))
def euclid(a, b):
    q, r = idiv(a, b), imod(a, b)
    return z3.And(z3.Implies(b > 0, z3.And(a == b * q + r, 0 <= r, r < b)), z3.Implies(z3.And(b > 0, a >= 0), q >= 0))

def rnum(x): return Fraction(x.numerator_as_long(), x.denominator_as_long()) if z3.is_rational_value(x) else None
def foldr(op, a, b):
    x, y = rnum(a), rnum(b)
    if x is not None and y is not None:
        r = x + y if op == '+' else x - y if op == '-' else x * y
        return z3.RealVal(f'{r.numerator}/{r.denominator}')
    if op == '+':
        if x == 0: return b
        if y == 0: return a
    if op == '-' and y == 0: return a
    if op == '*':
        if x == 0 or y == 1: return a
        if y == 0 or x == 1: return b
    return None
def mask(a, m):
    """a & m for a >= 0 (mathematical bits)"""
    parts = []; lo = 0
    while (m >> lo):
        if not (m >> lo) & 1: lo += 1; continue
        hi = lo
        while (m >> hi) & 1: hi += 1
        t = a / (1 << lo) if lo else a
        parts.append((t % (1 << (hi - lo))) * (1 << lo))
        lo = hi
    if not parts: return z3.IntVal(0)
    return sum(parts[1:], parts[0])

def get_leaf(v, path):
    for p in path:
        if p[0] == 'f': v = v.f[p[1]]
        elif p[0] == 'i': v = v.e[p[1]]
        elif p[0] == 'len': v = v.len
        elif p[0] == 'elem': v = v.elem
        elif p[0] == 'it': v = v.i
    return v
def diff_leaves(c, a, b, out):
    try:
        la = dict(leaves(a)); lb = dict(leaves(b))
    except Exception:
        out[(c.idx, ('WHOLE',))] = 1; return
    same = type(a) is type(b) or (isleaf(a) and isleaf(b) and a.sort() == b.sort())
    if not same or set(la) != set(lb):
        if isleaf(a) or isleaf(b) or isinstance(a, (RecV, ArrV, VecV)):
            out[(c.idx, ('WHOLE',))] = 1
        return
    for k in la:
        if not z3.eq(la[k], lb[k]): out[(c.idx, k)] = 1

def canon_sig(s):
    a = s[s.index('(') + 1:s.rindex(')')] if '(' in s else ''
    return tuple((tname(ptype(x)), '&&' if x.strip().endswith('&&') else '') for x in split_targs(a) if x.strip() not in ('void', ''))
def canon_sig2(s):
    a = s[s.index('(') + 1:s.rindex(')')] if '(' in s else ''
    return len(split_targs(a))

def call_opt(spec, name, S):
    f = getattr(spec, name, None)
    return f(S) if f else None
def flat(x):
    out = []
    if x is None: return out
    for y in x:
        if y is None: continue
        if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str):
            g = y[1]
            if isinstance(g, (list, tuple)):
                for i, z in enumerate(g): out.append((f'{y[0]}.{i}', z))
            else: out.append(y)
        elif isinstance(y, list): out += flat(y)
        else: out.append(('', y))
    return out

class LoopS:
    """What an invariant sees: variables by name in the dynamic frames, pre-state of function and loop."""
    def __init__(self, ex, node):
        self.ex = ex; self.node = node; self.entry = None; self.head = None
        self.vars_at = None
    def lv(self, name):
        x = self.ex.find_name(name)
        if x is None: raise Unsupported(f'annotation: no variable {name}')
        return x
    def has(self, name): return self.ex.find_name(name) is not None
    def v(self, name): return self.ex.read(self.lv(name))
    def at(self, snap, name):
        lv = self.lv(name)
        for c, val in snap:
            if c is lv.cell: return self.ex.read_path(val, lv.path)
        raise Unsupported('annotation: snapshot')
    def at_entry(self, name): return self.at(self.entry, name)
    @property
    def this(self):
        return self.ex.read(self.ex.frames_this())
    @property
    def A(self): return self.ex.spec_args   # pre-state arguments (contract view)
