"""Log files: every enabled message is appended to its file, nothing is lost or reordered (invariant over every history of calls)."""
from specs.common import *
from specs.c25 import LOG, kind
import text as T
ROLE = {'log': 8, 'warning': 6, 'error': 7}
FILE = {'log': 'log_file.log', 'warning': 'warning_file.log', 'error': 'error_file.log'}
def rec_logger(ex): return ex.rec_of(('rec', [k for k in ex.recs if k.split('::')[-1] == LOG][0]))
def roles(ex):
    """role -> field of the file stream"""
    fs = [n for n, ft, _, _ in rec_logger(ex).fields if ex.text.handles(ptype(ft)) and ptype(ft)[0] == 'rec']; out = {}
    for r in ROLE:
        c = [n for n in fs if r[:3] in n.lower().replace('_log', '').replace('logger', '')] if r != 'log' else [n for n in fs if 'warn' not in n.lower() and 'err' not in n.lower()]
        if len(c) != 1: raise Unsupported('streams of the logger not recognised')
        out[r] = c[0]
    return out
def level_field(ex):
    c = [n for n, ft, _, _ in rec_logger(ex).fields if ptype(ft)[0] == 'int' and 'const ' not in ft]
    if len(c) != 1: raise Unsupported('output level of the logger not recognised')
    return c[0]
def level(ex, v): return v.f[level_field(ex)]
def Inv(ex, v):
    out = [('output level in range', z3.And(level(ex, v) >= 0, level(ex, v) < 2 ** 32))]
    for r, n in roles(ex).items():
        st = v.f[n].f
        out += [(f'{r} stream usable', st['ok']), (f'{r} file still open once it holds messages', z3.Or(st['open'], st['content'] == T.E))]
    return out
def fresh_logger(ex, name):
    v = RecV('Logger', {n: ex.symb(ptype(ft), f'{name}.{n}') for n, ft, _, _ in rec_logger(ex).fields})
    for n, ft, _, _ in rec_logger(ex).fields:
        if ptype(ft)[0] == 'int': ex.assume(z3.And(v.f[n] >= 0, v.f[n] < 2 ** 32))
    return v
def content(ex, v, r): return v.f[roles(ex)[r]].f['content']
class Get:
    """singleton: files of the enabled levels are open, contents and levels as before, invariant kept (proved by its own unit)"""
    name = 'Get'
    def match(s, f): return f.name == 'Get' and f.rec is not None and f.rec.name == LOG
    def apply(s, ex, fn, this, args):
        cell = ex.the_logger; v = ex.read(LV(cell)); f = dict(v.f)
        for r, n in roles(ex).items():
            o = fresh(z3.BoolSort(), 'open'); ex.assume(z3.And(z3.Implies(v.f[n].f['open'], o), z3.Implies(T.bit(level(ex, v), ROLE[r]), o)))
            f[n] = v.f[n].set('open', o)
        ex.write(LV(cell), RecV('Logger', f))
        return LV(cell)
def inv(S):
    out = []; seen = set(); ex = S.ex; pos = None; it = None
    for fr in ex.frames:
        for lv in fr.vars.values():
            if not isinstance(lv, LV) or lv.cell.idx in seen: continue
            seen.add(lv.cell.idx); v = ex.read(lv)
            if isinstance(v, Iter): out.append(('iterator in range', z3.And(v.i >= 0, v.i <= ex.size_of(ex.read(v.lv))))); pos = v.i
            elif lv.cell.name == '__i': out.append(('position in range', z3.And(v >= 0, v <= ex.spec.levels.len) if ex.spec.levels is not None else v >= 0)); it = v
    p = it if it is not None else pos
    u = S.ex.spec
    if p is not None and getattr(u, 'levels', None) is not None:
        cur = [ex.read(lv) for fr in ex.frames[1:] for lv in fr.vars.values() if isinstance(lv, LV) and lv.cell.name not in ('__i', 'position') and not lv.path and lv.cell.ctype == 'unsigned int']
        L = cur[0] if len(cur) == 1 else level(ex, ex.read(LV(ex.the_logger)))
        out.append(('level in range', z3.And(L >= 0, L < 2 ** 32)))
        for k in ROLE.values(): out.append((f'bit {k} collected', T.bit(L, k) == some(u.levels.elem, p, k)))
    return out
def some(a, n, k):
    j = z3.Int('j!l'); return z3.Exists([j], z3.And(0 <= j, j < n, T.bit(a[j], k)))
class LU(Unit):
    tu = 'logger.cpp'; no_auto = True; defines = ('ENABLE_LOGGING',); loops = staticmethod(lambda o, ex: LoopSpec(inv)); levels = None
    def __init__(s, name, fname, args, role=None, exc=None):
        s.name = name + ' (with ENABLE_LOGGING)'; s.fname = fname; s.args = args; s.role = role; s.exc = exc; s.contracts = [] if fname in ('Get', LOG) else [Get()]
    def hook(s, ex): ex.real_logger = True; ex.opaque_extra = (); ex.text = T.Text()
    def select(s, P):
        out = []
        for f in P.fns.values():
            if f.name != s.fname or f.body is None or f.rec is None or f.rec.name != LOG: continue
            if s.exc and not (f.targs and f.targs[0].split('::')[-1] == s.exc): continue
            if s.args != [kind(p) for p in f.params]: continue
            out.append(f)
        return out
    def static_fact(s, ex, d, v):
        if isinstance(v, RecV) and v.t.split('::')[-1] == LOG:
            for _, g in Inv(ex, v): ex.assume(g)
            s.old = v
    def setup(s, ex, fn):
        s.msg = T.unit(z3.Int('message')); a = []; s.old = None
        if s.fname == LOG: s.this = LV(ex.new_cell(ex.uninit(('rec', [k for k in ex.recs if k.split('::')[-1] == LOG][0])), 'logger')); return s.this, []
        if s.fname != 'Get':
            v = fresh_logger(ex, 'logger'); ex.the_logger = ex.new_cell(v, 'singleton'); s.old = v
            for _, g in Inv(ex, v): ex.assume(g)
        for k in s.args:
            if k == 'str': a.append(LV(ex.new_cell(s.msg, 'text')))
            elif k == 'uint': s.arg = z3.Int('level'); ex.assume(z3.And(s.arg >= 0, s.arg < 2 ** 32)); a.append(s.arg)
            elif k == 'levels':
                v = VecV(z3.Int('n'), z3.Array('levels', z3.IntSort(), z3.IntSort())); ex.assume(v.len >= 0); s.levels = v
                j = z3.Int('j!r'); ex.assume(z3.ForAll([j], z3.And(v.elem[j] >= 0, v.elem[j] < 2 ** 32), patterns=[v.elem[j]])); a.append(LV(ex.new_cell(v, 'levels')))
        return None, a
    def done(s, ex, v):
        for n, g in Inv(ex, v): ex.oblige(n, g, 'invariant')
        for r in ROLE:
            c0 = content(ex, s.old, r)
            want = z3.If(T.bit(level(ex, s.old), ROLE[r]), z3.Concat(c0, s.msg, T.NL), c0) if r == s.role else c0
            ex.oblige(f'{r} file: ' + ('the message is appended once, as a line, exactly when enabled' if r == s.role else 'unchanged'), content(ex, v, r) == want, 'post')
        for nm, fs in ex.text.names.items():
            ex.oblige(f'file name {nm} belongs to its stream', fs <= {roles(ex)[r] for r in ROLE if FILE[r] == nm}, 'post')
    def on_throw(s, ex, fn):
        if not s.exc: ex.oblige('does not raise', False, 'raises'); return
        v = ex.read(LV(ex.the_logger)); s.done(ex, v)
        for r in ROLE: st = v.f[roles(ex)[r]].f; ex.oblige(f'{r} file: on disk when the exception is raised', z3.Implies(T.bit(level(ex, s.old), ROLE[r]), st['saved'] == st['content']), 'post')
        ex.oblige('output level unchanged', level(ex, v) == level(ex, s.old), 'post')
    def post(s, ex, fn, ret):
        if s.exc: ex.oblige('raises', False, 'post'); return
        if s.fname == LOG:
            v = ex.read(s.this)
            for n, g in Inv(ex, v): ex.oblige(n, g, 'invariant')
            for r in ROLE: ex.oblige(f'{r} file: nothing written yet', content(ex, v, r) == T.E, 'post')
            return
        if s.fname == 'Get':
            if s.old is None: raise Unsupported('no singleton')
            v = ex.read(ret); s.done(ex, v)
            for r in ROLE: ex.oblige(f'{r} file open when enabled', z3.Implies(T.bit(level(ex, v), ROLE[r]), v.f[roles(ex)[r]].f['open']), 'post')
            ex.oblige('output level unchanged', level(ex, v) == level(ex, s.old), 'post'); return
        v = ex.read(LV(ex.the_logger)); s.done(ex, v)
        if s.fname != 'SetOutputLevel': ex.oblige('output level unchanged', level(ex, v) == level(ex, s.old), 'post')
        elif s.args == ['uint']: ex.oblige('output level set', level(ex, v) == s.arg, 'post')
        else:
            for k in ROLE.values(): ex.oblige(f'output level {2 ** k} enabled exactly when listed', T.bit(level(ex, v), k) == some(s.levels.elem, s.levels.len, k), 'post')
UNITS = [LU('constructor', LOG, []), LU('Get', 'Get', [])]
for e in ('runtime_error', 'logic_error', 'out_of_range'): UNITS.append(LU(f'TerminatingError<{e}>', 'TerminatingError', ['str'], 'error', e))
UNITS += [LU('Warning', 'Warning', ['str'], 'warning'), LU('Error', 'Error', ['str'], 'error')] + [LU(f, f, ['str'], 'log') for f in ('UserInfo', 'Logging', 'ExtendedInformation')]
UNITS += [LU('SetOutputLevel(unsigned)', 'SetOutputLevel', ['uint']), LU('SetOutputLevel(list)', 'SetOutputLevel', ['levels'])]
TRUSTED = ['std::ofstream as documented (open truncates unless in append mode and fails on an open stream, insertion appends while the stream is good, flush and close write to disk); a file can be created and written', 'a string is abstracted to the sequence of messages and line ends in it (homomorphism): the wording around a message is not examined', 'lifting from one call to a history of calls: induction over the history by the invariant every public function keeps (by reading); single-threaded use']
