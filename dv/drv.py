"""Driver: verification units -> obligations -> discharge -> verdict + evidence."""
import re, os, sys, time, json, traceback, subprocess, tempfile, shutil, multiprocessing as mp, hashlib, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import cast as C
from val import *
import sym
from sym import Exec, Frame, ThrowE, PathEnd, has_quant
import poly

HERE = os.path.dirname(os.path.abspath(__file__))
TUDIR = os.path.join(HERE, 'tu')
SCRATCH = None
_progs = {}

def program(tu, defines=()):
    k = (tu, tuple(defines))
    if k not in _progs:
        t = time.time()
        _progs[k] = C.Program().add(C.load_tu(os.path.join(TUDIR, tu), SCRATCH, list(defines)))
        _progs[k].load_s = time.time() - t
    return _progs[k]

class LoopSpec:
    def __init__(self, inv, **kw):
        self.inv = inv
        for k, v in kw.items(): setattr(self, k, v)

class Unit:
    """One function (instantiation) under contract."""
    tu = 'poly.cpp'; defines = ()
    name = ''
    what = ''
    loops = None
    contracts = ()
    real_div = False
    timeout = 10
    def select(self, P): raise NotImplementedError
    def setup(self, ex, fn): raise NotImplementedError
    def post(self, ex, fn, ret): raise NotImplementedError
    def on_throw(self, ex, fn): ex.oblige('must not raise', False, 'raises')
    def loop(self, o, ex):
        L = self.loops
        if callable(L): return L(o, ex)
        if L is None: return None
        return L.get(o)
    def hook(self, ex): pass

def run_unit(u):
    """-> dict(name, status, obls=[(name, kind, pre, smt2)], info)"""
    t0 = time.time()
    R = {'unit': u.name, 'soft': getattr(u, 'soft', False), 'fn': '', 'status': 'ok', 'why': '', 'obls': [], 'paths': 0, 'contracts': [], 'inlined': [], 'notes': [], 'lemmas': []}
    try:
        P = program(u.tu, u.defines)
        if hasattr(u, 'lemma'): return run_lemma(u, P, R, t0)
        fns = u.select(P)
        if not fns: raise Unsupported(f'function for {u.name} not found')
        fn = fns[0]
        R['fn'] = f'{C.rec_name(fn.rec) + "::" if fn.rec else ""}{fn.name} : {fn.type}'
        conlist = list(u.contracts() if callable(u.contracts) else u.contracts)
        cc = {}
        def contracts(f):
            if f.id not in cc:
                cc[f.id] = next((c for c in conlist if c.match(f)), None)
            return cc[f.id]
        ex = Exec(P, contracts)
        ex.spec = u; ex.fn_label = u.name; ex.spec_real_div = u.real_div
        ex.cvec = getattr(u, 'cvec', False)
        u.hook(ex)
        reach = []
        def run(ex):
            ex.frames = [Frame(None)]; ex.depth = 0
            this, args = u.setup(ex, fn)
            ex.top_this = this
            ex.frames_this = lambda: this
            try:
                ret = ex.exec_fn(fn, this, args)
            except ThrowE as e:
                u.thrown = e; u.on_throw(ex, fn); reach.append(list(ex.hyps) if ex.active() else None); return
            u.post(ex, fn, ret)
            if ex.active(): reach.append(list(ex.hyps))
        R['paths'] = ex.explore(run)
        R['contracts'] = sorted({f'{q} @ {r}' for q, t, r in ex.used_contracts}); R['inlined'] = sorted(ex.inlined); R['notes'] = sorted(ex.notes)
        R['lemmas'] = sorted(ex.lemmas_used)
        R['code'] = C.code_hash([f.node for f in ex.code_seen.values()]); R['loops'] = hashlib.md5(json.dumps(sorted(ex.loop_seen.items())).encode()).hexdigest()[:12]
        obls = {}
        for o in ex.obls:
            obls.setdefault(o.name, []).append(o)
        out = []
        for o in ex.obls:
            pre, smt = prep(o, getattr(u, 'refute', False))
            out.append((o.name, o.kind, pre, smt))
        R['obls'] = out
        # vacuity: some path must reach the end of the function with satisfiable hypotheses
        ok = False
        for h in reach:
            if h is None: continue
            s = z3.Solver(); s.set('timeout', 2000); s.add([x for x in h if not has_quant(x)])
            if s.check() != z3.unsat: ok = True; break
        if not ok and not (reach and all(h is None for h in reach)): R['status'] = 'vacuous'; R['why'] = 'no path with satisfiable hypotheses'
        if not out and not getattr(u, 'no_obl_ok', False): R['status'] = 'vacuous'; R['why'] = 'no obligations'
    except Unsupported as e:
        R['status'] = 'unsupported'; R['why'] = str(e)
        if os.environ.get('DV_DEBUG'): traceback.print_exc()
    except C.ExtractError as e:
        R['status'] = 'unsupported'; R['why'] = str(e)[:600]
    except Exception as e:
        R['status'] = 'unsupported'; R['why'] = f'{type(e).__name__}: {e}'
        if os.environ.get('DV_DEBUG'): traceback.print_exc()
    R['exec_s'] = time.time() - t0
    return R

def run_lemma(u, P, R, t0):
    """pure lemma over the specification functions: obligations only, no code"""
    ex = Exec(P, lambda f: None); ex.spec = u; ex.fn_label = u.name
    def run(ex): u.lemma(ex)
    R['paths'] = ex.explore(run)
    R['obls'] = [(o.name, o.kind) + prep(o) for o in ex.obls]
    R['exec_s'] = time.time() - t0
    return R
def eq_subst(hyps):
    """x == e hypotheses with x a constant, as a substitution"""
    sub = []
    for h in hyps:
        if z3.is_eq(h):
            a, b = h.arg(0), h.arg(1)
            if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED: sub.append((a, b))
            elif z3.is_const(b) and b.decl().kind() == z3.Z3_OP_UNINTERPRETED: sub.append((b, a))
    return sub
def refute(o):
    """concrete counterexample of an obligation over plain constants, by evaluation at random rational points"""
    import random
    es = [o.goal] + list(o.hyps)
    if any(has_quant(e) for e in es): return None
    consts = {}
    st = list(es); seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if x.sort() not in (z3.RealSort(), z3.IntSort()): return None
            consts[str(x)] = x
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: return None
        st.extend(x.children())
    rnd = random.Random(7)
    for t in range(12):
        def pick(c):
            if c.sort() == z3.IntSort(): return z3.IntVal(rnd.randint(0, 4))
            return z3.RealVal(f'{rnd.randint(1, 9)}/10') if t % 2 == 0 else z3.RealVal(f'{rnd.randint(-20, 20)}/{rnd.choice([1, 2, 5])}')
        sub = [(c, pick(c)) for c in consts.values()]
        if not all(z3.is_true(z3.simplify(z3.substitute(h, *sub))) for h in o.hyps): continue
        if z3.is_false(z3.simplify(z3.substitute(o.goal, *sub))): return {str(a): str(b) for a, b in sub[:60]}
    return None
def prep(o, ref=False):
    g = z3.simplify(o.goal) if not has_quant(o.goal) else o.goal
    if z3.is_true(g): return 'simplify', None
    gid = g.get_id()
    for h in o.hyps:
        if h.get_id() == gid or h.get_id() == o.goal.get_id(): return 'assumption', None
    if poly_valid(o.goal): return 'polynomial-identity', None
    if ref:
        if rat_valid(o.goal): return 'rational-function-identity', None
        sub = eq_subst(o.hyps)
        if sub and rat_valid(z3.substitute(o.goal, *sub)): return 'rational-function-identity', None
        if linear_valid(o): return 'z3 (non-linear terms abstracted)', None
        m = refute(o)
        if m is not None: return ('refuted', m), None
    s = z3.Solver()
    for h in o.hyps: s.add(h)
    s.add(z3.Not(o.goal))
    return None, s.to_smt2()

def linear_valid(o):
    """valid with every division and product of non-constants replaced by a fresh constant (sound generalisation)"""
    es = [x for x in o.hyps if not has_quant(x)] + [o.goal]
    if has_quant(o.goal) or all(z3.is_eq(c) for c in (o.goal.children() if z3.is_and(o.goal) else [o.goal])): return False
    sub = {}; cache = {}
    def go(x):
        i = x.get_id()
        if i in cache: return cache[i][1]
        k = x.decl().kind() if z3.is_app(x) else None
        if k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER) or k == z3.Z3_OP_MUL and sum(0 if z3.is_rational_value(c) or z3.is_int_value(c) else 1 for c in x.children()) > 1:
            y = x; nf = poly.rat_form(x)
            r = next((c for f, c in sub.setdefault('nf', []) if c.sort() == x.sort() and nf is not None and (f == nf or poly.rat_same(f, nf))), None)
            if r is None:
                r = z3.FreshConst(x.sort(), 'abs')
                if nf is not None: sub['nf'].append((nf, r))
        elif x.num_args() == 0: r = x
        else: r = x.decl()(*[go(c) for c in x.children()])
        cache[i] = (x, r); return r
    s = z3.Solver(); s.set('timeout', 4000)
    es = [go(e) for e in es]
    s.add(es[:-1]); s.add(z3.Not(es[-1]))
    return s.check() == z3.unsat
def poly_valid(g):
    if z3.is_and(g): return all(poly_valid(c) for c in g.children())
    if z3.is_true(g): return True
    if z3.is_eq(g) and g.arg(0).sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT):
        return poly.is_zero_diff(g.arg(0), g.arg(1))
    return False

def rat_valid(g):
    if z3.is_and(g): return all(rat_valid(c) for c in g.children())
    if z3.is_true(g): return True
    if z3.is_eq(g) and g.arg(0).sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT): return poly.rat_equal(g.arg(0), g.arg(1))
    return False

CFG = [('z3', {}, 2), ('cvc5', {}, 3), ('z3', {'smt.arith.solver': 2}, 3), ('z3', {}, None), ('cvc5', {}, None), ('z3', {'smt.arith.nl.gb': False, 'smt.random_seed': 7}, None)]
def solve(a):
    uname, name, kind, smt, to = a
    t0 = time.time(); res = 'unknown'; how = ''; model = None; attempts = []
    full = to
    for be, opts, lim in CFG:
        if lim is not None and lim * 1.5 >= full: continue
        t1 = time.time(); to = lim or full
        r = 'unknown'
        if be == 'z3':
            try:
                ctx = z3.Context()
                s = z3.Solver(ctx=ctx); s.set('timeout', int(to * 1000))
                for k, v in opts.items():
                    try: s.set(k, v)
                    except z3.Z3Exception: pass
                s.from_string(smt)
                c = s.check(); r = str(c)
                if c == z3.sat:
                    m = s.model()
                    model = {str(d): str(m[d])[:200] for d in m.decls() if d.arity() == 0}
                    model = dict(list(model.items())[:60])
            except z3.Z3Exception as e: r = 'unknown'
        else:
            try:
                p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={int(to * 1000)}', '--nl-ext-tplanes', '-'], input='(set-logic ALL)\n' + smt, capture_output=True, text=True, timeout=to + 5)
                r = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
                if r not in ('sat', 'unsat'): r = 'unknown'
            except Exception: r = 'unknown'
        attempts.append(f'{be}:{r}:{time.time() - t1:.1f}s')
        if r in ('unsat', 'sat'):
            res = r; how = be; break
    return uname, name, kind, res, how, time.time() - t0, model, attempts

def _run_named(i): 
    try:
        return run_unit(_UNITS[i])
    except BaseException as e:
        return {'unit': _UNITS[i].name, 'fn': '', 'status': 'unsupported', 'why': f'crash {e!r}', 'obls': [], 'paths': 0, 'contracts': [], 'inlined': [], 'notes': [], 'lemmas': [], 'exec_s': 0}
_UNITS = []

def prove(units, jobs=8, budget=600):
    """returns (unit results, obligation results)"""
    global _UNITS
    t0 = time.time()
    tus = sorted({(u.tu, tuple(u.defines)) for u in units})
    errs = {}
    for tu, d in tus:
        try: program(tu, d)
        except C.ExtractError as e: errs[(tu, d)] = str(e)[-800:]
    _UNITS = units
    R = []
    with mp.get_context('fork').Pool(min(jobs, max(1, len(units)))) as pool:
        todo = []
        for i, u in enumerate(units):
            if (u.tu, tuple(u.defines)) in errs:
                R.append({'unit': u.name, 'fn': '', 'status': 'unsupported', 'why': errs[(u.tu, tuple(u.defines))], 'obls': [], 'paths': 0, 'contracts': [], 'inlined': [], 'notes': [], 'lemmas': [], 'exec_s': 0})
            else: todo.append((i, pool.apply_async(_run_named, (i,))))
        for i, a in todo:
            try: R.append(a.get(timeout=max(5, budget - (time.time() - t0))))
            except mp.TimeoutError:
                R.append({'unit': units[i].name, 'fn': '', 'status': 'unsupported', 'why': 'symbolic execution timeout', 'obls': [], 'paths': 0, 'contracts': [], 'inlined': [], 'notes': [], 'lemmas': [], 'exec_s': 0})
        pool.terminate()
    um = {u.name: u for u in units}
    for r in R: r.setdefault('soft', getattr(um[r['unit']], 'soft', False))
    jobsl = []; O = []
    for r in R:
        for (n, k, pre, smt) in r['obls']:
            if isinstance(pre, tuple): O.append({'unit': r['unit'], 'name': n, 'kind': k, 'result': 'sat', 'by': 'evaluation at a rational point', 's': 0.0, 'model': pre[1], 'attempts': ['evaluation:sat']})
            elif pre: O.append({'unit': r['unit'], 'name': n, 'kind': k, 'result': 'unsat', 'by': pre, 's': 0.0})
            else: jobsl.append((r['unit'], n, k, smt, um[r['unit']].timeout))
    jobsl.sort(key=lambda j: bool(getattr(um[j[0]], 'soft', False)))
    if jobsl:
        with mp.get_context('fork').Pool(min(jobs, len(jobsl))) as pool:
            asy = [(j, pool.apply_async(solve, (j,))) for j in jobsl]
            for j, a in asy:
                try:
                    un, n, k, res, how, s, model, att = a.get(timeout=max(1, budget - (time.time() - t0)))
                    O.append({'unit': un, 'name': n, 'kind': k, 'result': res, 'by': how, 's': s, 'model': model, 'attempts': att, 'smt': j[3]})
                except mp.TimeoutError:
                    O.append({'unit': j[0], 'name': j[1], 'kind': j[2], 'result': 'unknown', 'by': 'budget', 's': 0.0, 'smt': j[3]})
            pool.terminate()
    for o in O: o['soft'] = getattr(um[o['unit']], 'soft', False)
    return R, O

def retry(obls, limit, jobs):
    with mp.get_context('fork').Pool(min(jobs, len(obls))) as pool:
        R = pool.map(solve, [(o['unit'], o['name'], o['kind'], o['smt'], limit) for o in obls], chunksize=1)
        pool.terminate()
    return R
def lean_names(spec): return list(getattr(spec, 'LEAN', []))
def definite_failure(o):
    """the solver produced a counterexample (sat), or terminated without a proof on a quantified obligation (not a timeout)"""
    return o['result'] == 'sat' and not o.get('soft')
class Lean:
    """mathematical lemmas over the specification functions, re-checked by the Lean kernel on every run"""
    OK = {'propext', 'Classical.choice', 'Quot.sound'}
    def __init__(s, names, scratch):
        s.names = list(names); s.t0 = time.time(); s.p = None
        if not s.names: return
        src = open(os.path.join(HERE, 'lean', 'Bez.lean')).read()
        s.f = os.path.join(scratch, 'chk.lean')
        s.src = src
        open(s.f, 'w').write(src + '\n' + '\n'.join(f'#print axioms Bez.{n}' for n in s.names) + '\n')
        try: s.p = subprocess.Popen(['lean', s.f], stdout=open(s.f + '.out', 'w'), stderr=subprocess.STDOUT, cwd=scratch)
        except OSError as e: s.err = str(e)
    def results(s, timeout=400):
        if not s.names: return []
        if s.p is None: return [{'name': n, 'ok': False, 'why': s.err} for n in s.names]
        try: s.p.wait(timeout=max(1, timeout - (time.time() - s.t0)))
        except subprocess.TimeoutExpired: s.p.kill()
        out = open(s.f + '.out').read(); R = []
        bad = [l for l in out.split('\n') if 'error' in l] or ('sorry' in s.src and ['sorry'])
        for n in s.names:
            m = re.search(r"'Bez\." + re.escape(n) + r"' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])", out)
            ax = set(x.strip() for x in (m.group(2) or '').split(',')) - {''} if m else None
            ok = bool(m) and not bad and ax <= s.OK
            R.append({'name': n, 'ok': ok, 'why': '' if ok else (str(bad[:2]) if bad else f'axioms {ax}')[:300]})
        return R
