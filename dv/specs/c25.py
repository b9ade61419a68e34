"""Logger: terminating errors always raise the requested exception with the message; nothing else raises. All output levels, logging on and off."""
from specs.common import *
LOG = 'Logger'
FILES = {'ofstream', 'basic_ofstream<char>'}
class Helper:
    """private helper: does not raise (its own unit); the logger state afterwards is arbitrary"""
    def __init__(s, name): s.name = name
    def match(s, f): return f.name == s.name and f.rec is not None and f.rec.name == LOG
    def apply(s, ex, fn, this, args):
        if this is not None: ex.write(this, logger(ex))
        if s.name == 'Get': return LV(ex.new_cell(logger(ex), 'singleton'))
        return Opaque('str') if s.name in ('GetTimeStamp_', 'ColorText') else None
HELPERS = ['Get', 'init', 'close', 'GetTimeStamp_', 'ColorText']
def inv(S):
    out = []; seen = set()
    for fr in S.ex.frames:
        for lv in fr.vars.values():
            if not isinstance(lv, LV) or lv.cell.idx in seen: continue
            seen.add(lv.cell.idx); v = S.ex.read(lv)
            if isinstance(v, Iter): out.append(('iterator in range', z3.And(v.i >= 0, v.i <= S.ex.size_of(S.ex.read(v.lv)))))
            elif lv.cell.name == '__i': out.append(('position in range', v >= 0))
    return out
class LU(Unit):
    tu = 'logger.cpp'; no_auto = True; loops = staticmethod(lambda o, ex: LoopSpec(inv))
    def __init__(s, name, fname, log, args, exc=None):
        s.name = f'{name} ({"with" if log else "without"} ENABLE_LOGGING)'; s.fname = fname; s.defines = ('ENABLE_LOGGING',) if log else (); s.args = args; s.exc = exc; s.contracts = [Helper(h) for h in HELPERS if h != fname]
    def hook(s, ex): ex.real_logger = True; ex.opaque_extra = FILES
    def select(s, P):
        out = []
        for f in P.fns.values():
            if f.name != s.fname or f.body is None or f.rec is None or f.rec.name != LOG: continue
            if s.exc and not (f.targs and f.targs[0].split('::')[-1] == s.exc): continue
            if [k for k in s.args] != [kind(p) for p in f.params]: continue
            out.append(f)
        return out
    def setup(s, ex, fn):
        s.msg = Opaque('str'); a = []
        for k in s.args:
            if k == 'str': a.append(LV(ex.new_cell(s.msg, 'text')))
            elif k == 'uint': v = z3.Int('level'); ex.assume(z3.And(v >= 0, v < 2 ** 32)); a.append(v)
            elif k == 'int': v = z3.Int('color'); ex.assume(z3.And(v >= 0, v < 8)); a.append(v)
            elif k == 'levels':
                v = VecV(z3.Int('n'), z3.Array('levels', z3.IntSort(), z3.IntSort())); ex.assume(v.len >= 0); a.append(LV(ex.new_cell(v, 'levels')))
        this = None
        if not fn.static: this = LV(ex.new_cell(logger(ex), 'logger'))
        return this, a
    def on_throw(s, ex, fn):
        if not s.exc: ex.oblige('does not raise', False, 'raises'); return
        v = s.thrown.val
        if not isinstance(v, Opaque) or v.what not in ex.opaque_types or not v.args: raise Unsupported('thrown value not understood')
        ex.oblige(f'raises {s.exc}', v.what == s.exc, 'raises')
        if v.args[0] is not s.msg: raise Unsupported('message of the exception not traced to the reported text')
        ex.oblige('the exception carries the message', True, 'raises')
    def post(s, ex, fn, ret):
        ex.oblige('raises' if s.exc else 'returns without raising', not s.exc, 'post')
def kind(p):
    t = ptype(C.qt(p))
    return 'str' if t[0] == 'str' else 'levels' if t[0] == 'ilist' else 'uint' if t[0] == 'int' else 'int'
def logger(ex):
    r = ex.rec_of(('rec', [k for k in ex.recs if k.split('::')[-1] == LOG][0])); f = {}
    for n, ft, _, c in r.fields:
        t = ptype(ft)
        if t[0] == 'int': f[n] = fresh(z3.IntSort(), 'logger.' + n); ex.assume(z3.And(f[n] >= 0, f[n] < 2 ** t[1]))
        elif t[0] == 'bool': f[n] = fresh(z3.BoolSort(), 'logger.' + n)
        else: f[n] = Opaque('stream')
    return RecV('Logger', f)
UNITS = []
for log in (False, True):
    for e in ('runtime_error', 'logic_error', 'out_of_range'): UNITS.append(LU(f'TerminatingError<{e}>', 'TerminatingError', log, ['str'], e))
    for f in ('Warning', 'Error', 'UserInfo', 'Logging', 'ExtendedInformation'): UNITS.append(LU(f, f, log, ['str']))
    UNITS += [LU(h, h, log, {'ColorText': ['str', 'int']}.get(h, [])) for h in HELPERS]
    UNITS += [LU('SetOutputLevel(unsigned)', 'SetOutputLevel', log, ['uint']), LU('SetOutputLevel(list)', 'SetOutputLevel', log, ['levels'])]
TRUSTED = ['stream insertion, std::string operations, std::time/localtime/asctime, file open/close do not raise (streams have exceptions disabled by default)']
