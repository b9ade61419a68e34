#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough]

Deductive part: units of dv/specs/<id>.py (contracts on the functions of $VP_REPO's current source) -> obligations -> SMT.
Bounded stand-in / replay part: harness/ compiled against the same tree with sanitizers (never counted as proved)."""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, threading, collections, traceback, hashlib, gzip
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'dv'))
REPO = os.environ.get('VP_REPO', '/repo')
T0 = time.time()
CXX = ['/usr/bin/g++', '-std=c++17', '-O1', '-g0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']
SLOW = {1: 1, 23: 3, 8: 2, 15: 1, 16: 1, 17: 1, 9: 1}

class Harness(threading.Thread):
    def __init__(self, pid, scratch, tier, seed):
        super().__init__(daemon=True)
        self.n = int(pid[1:]); self.scratch = scratch; self.tier = tier; self.seed = seed
        self.res = {'status': 'not run'}; self.runs = []; self.bins = []
    def build(self):
        inc = os.path.join(self.scratch, 'hinc'); os.makedirs(inc, exist_ok=True)
        os.symlink(REPO, os.path.join(inc, 'bezman'))
        variants = [[], ['-DENABLE_LOGGING']] if self.n == 25 else [['-DENABLE_LOGGING']] if self.n == 27 else [[]]
        def one(i):
            out = os.path.join(self.scratch, f'h{i}')
            p = subprocess.run(CXX + variants[i] + [f'-DPROP={self.n}', '-I' + inc, '-I' + os.path.join(VERIF, 'harness'), os.path.join(VERIF, 'harness', 'main.cpp'), '-o', out], capture_output=True, text=True, timeout=600)
            return p.returncode, p.stderr, out
        for i in range(len(variants)):
            rc, err, out = one(i)
            if rc != 0:
                e = [l for l in err.split('\n') if 'error' in l][:12]
                if any('internal compiler error' in l or 'Killed' in l for l in e) or not e: self.res = {'status': 'toolerror', 'msg': err[-1500:]}; return False
                self.res = {'status': 'nocompile', 'msg': '\n'.join(e), 'full': err[-6000:]}
                if '-DNARROW' in variants[i]: return False
                full = self.res; variants[i] = variants[i] + ['-DNARROW']      # a narrower driver may still produce a failing input
                rc, err, out = one(i)
                if rc == 0:
                    for k in range(3):
                        r = self.run_one(out, self.seed + k, 3, 120)
                        if r['status'] == 'fail': self.res = r; return False
                self.res = full; return False
            self.bins.append(out)
        return True
    def run_one(self, b, seed, size, timeout):
        cwd = tempfile.mkdtemp(dir=self.scratch); cf = os.path.join(cwd, 'case')
        t = time.time()
        try:
            p = subprocess.run([b, str(seed), str(size), cf], cwd=cwd, capture_output=True, text=True, errors='replace', timeout=timeout)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired: rc, out, err = 'timeout', '', ''
        case = ''
        try: case = open(cf, errors='replace').read().strip('\0').strip()[:4000]
        except OSError: pass
        last = out.strip().split('\n')[-1] if out.strip() else ''
        r = {'seed': seed, 'size': size, 's': round(time.time() - t, 2), 'variant': os.path.basename(b)}
        if rc == 0 and last.startswith('OK'): r.update(status='ok', cases=int(last.split()[1]))
        elif rc == 3: r.update(status='fail', msg=last[:6000])
        elif rc == 'timeout': r.update(status='slow', msg='time limit', case=case)
        elif rc in (-9,): r.update(status='toolerror', msg='killed')
        else:
            m = [l for l in err.split('\n') if 'error' in l.lower() or 'Assert' in l or 'terminate' in l or 'what()' in l]
            r.update(status='fail', msg=f'aborted (rc {rc}): ' + ' / '.join(m[:4])[:1500] + ' | input: ' + case, err=err[-3000:])
        self.runs.append(r)
        return r
    def run(self):
        try:
            if not self.build(): return
            size = 5 if self.tier == 'quick' else 25
            size = max(1, size // SLOW.get(self.n, 1)) if self.n != 1 else (1 if self.tier == 'quick' else 4)
            seeds = [self.seed] if self.tier == 'quick' else [self.seed * 1000 + k for k in range(6)]
            for sd in seeds:
                for b in self.bins:
                    r = self.run_one(b, sd, size, 240)
                    if r['status'] != 'ok': self.res = r; return
            self.res = {'status': 'ok'}
        except Exception as e:
            self.res = {'status': 'toolerror', 'msg': repr(e)}
    def deeper(self, limit):
        """targeted search for a failing input after an obligation failed"""
        t = time.time(); k = 0
        while time.time() - t < limit and self.bins:
            k += 1
            for b in self.bins:
                r = self.run_one(b, self.seed * 7919 + k, [1, 3, 8][k % 3], max(20, limit))
                if r['status'] == 'fail': return r
        return None

def main():
    if sys.argv[1] == '--setup':
        for t in ('g++', 'clang++', 'z3-new', 'cvc5'):
            if not shutil.which(t): print('note: missing', t)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True); print('nothing to build: every check works from the current source'); return 0
    pid = sys.argv[1]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix=f'vp_{pid}_', dir=os.environ.get('TMPDIR', '/tmp'))
    try:
        return go(pid, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def key(u): return hashlib.md5(u.encode()).hexdigest()[:10]
def baseline(pid):
    try: return {k: v for k, v in (l.split(None, 1) for l in gzip.open(os.path.join(VERIF, 'dv', 'base', pid + '.gz'), 'rt')) for v in [v.split()]}
    except OSError: return {}
def go(pid, tier, seed, scratch):
    H = Harness(pid, scratch, tier, seed); H.start()
    import drv
    drv.SCRATCH = scratch
    R, O, spec, perr = [], [], None, ''
    try:
        spec = importlib.import_module('specs.' + pid.lower())
    except ModuleNotFoundError as e:
        if 'specs.' not in str(e): raise
    LN = drv.Lean(drv.lean_names(spec), scratch) if spec is not None else None
    if spec is not None:
        units = list(spec.UNITS) + (list(getattr(spec, 'THOROUGH', [])) if tier == 'thorough' else [])
        if tier == 'thorough':
            for u in units: u.timeout = max(u.timeout, 60)
        try: R, O = drv.prove(units, jobs=8, budget=420 if tier == 'quick' else 780)
        except Exception as e: perr = traceback.format_exc()[-2000:]
    lean = LN.results() if LN else []
    H.join(timeout=800)
    failed = [o for o in O if drv.definite_failure(o)]
    undecided = [o for o in O if o['result'] != 'unsat' and not drv.definite_failure(o)]
    bad_units = [r for r in R if r['status'] != 'ok']
    lean_bad = [l for l in lean if not l['ok']]
    # obligations that no longer go through although only loop bodies / straight-line code changed since they were last proved: a second,
    # longer attempt, then a search for a failing input, then reported as failed obligations
    base = baseline(pid); ru = {r['unit']: r for r in R}
    def changed(u):
        b = base.get(key(u)); r = ru[u]
        return b is not None and r['status'] == 'ok' and not r['status'] == 'vacuous' and b[0] != r.get('code') and b[1] == r.get('loops')
    suspects = [o for o in undecided if o.get('by') != 'budget' and o.get('smt') and changed(o['unit'])]
    if suspects and H.res['status'] == 'ok':
        lim = 25 if tier == 'quick' else 90
        try:
            again = drv.retry(suspects[:16], lim, 8)
            for o, r in zip(suspects[:16], again):
                o['attempts'] = (o.get('attempts') or []) + r[7]
                if r[3] == 'unsat': o.update(result='unsat', by=r[4], s=o['s'] + r[5])
        except Exception: perr += traceback.format_exc()[-800:]
        suspects = [o for o in suspects[:16] if o['result'] != 'unsat']; undecided = [o for o in undecided if o['result'] != 'unsat']
    soft_bad = undecided or bad_units
    if (failed or soft_bad) and H.res['status'] == 'ok':
        r = H.deeper((60 if failed or suspects else 40) if tier == 'quick' else 180)
        if r: H.res = r
    failed = failed + [o for o in suspects if o not in failed]
    if os.environ.get('VP_BASELINE'):      # tools/mkbase.py: what was fully proved on the unchanged tree
        bad = {o['unit'] for o in O if o['result'] != 'unsat'}
        json.dump({key(r['unit']): [r.get('code'), r.get('loops')] for r in R if r['status'] == 'ok' and r['unit'] not in bad and r.get('code')}, open(os.path.join(os.environ['VP_BASELINE'], pid + '.json'), 'w'))
    # ---------------- verdict
    out = []; code = 0; replay = os.path.join(VERIF, 'evidence', f'replay-{pid}.json')
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay): os.unlink(replay)
    obs = [{'unit': o['unit'], 'obligation': o['name'], 'kind': o['kind'], 'result': o['result'], 'attempts': o.get('attempts'), 'counterexample': o.get('model'), 'smt2': (o.get('smt') or '')[:60000]} for o in failed]
    rep = {'property': pid, 'failed_obligations': obs[:20]}
    if H.res['status'] == 'fail':
        rep.update(kind='failing input on the real code', message=H.res['msg'], harness={'PROP': H.n, 'seed': H.res['seed'], 'size': H.res['size'], 'variant': H.res['variant']},
                   command=' '.join(CXX) + f' -DPROP={H.n} -I<dir with symlink bezman -> {REPO}> -I{VERIF}/harness {VERIF}/harness/main.cpp && ./a.out {H.res["seed"]} {H.res["size"]} case', stderr=H.res.get('err', ''))
        out.append(f'failing input: {H.res["msg"][:600]}'); out.append(f'VIOLATION property={pid} replay={replay}'); code = 1
    elif H.res['status'] == 'nocompile':
        rep.update(kind='a use of the public interface that the property covers no longer compiles', message=H.res['full'])
        out.append(H.res['msg'][:800]); out.append(f'VIOLATION property={pid} replay={replay} no-failing-input-found'); code = 1
    elif failed:
        rep.update(kind='failed obligation, no failing input found')
        out.append(f'failed obligation: {failed[0]["unit"]}: {failed[0]["name"]}'); out.append(f'VIOLATION property={pid} replay={replay} no-failing-input-found'); code = 1
    elif H.res['status'] == 'toolerror' and (bad_units or spec is None):
        out.append('ERROR: ' + str(H.res)); code = 2
    if code == 1: json.dump(rep, open(replay, 'w'), indent=1)
    # ---------------- evidence
    total = len(O) + sum(1 for r in bad_units) + len(lean); dis = sum(1 for o in O if o['result'] == 'unsat') + sum(1 for l in lean if l['ok'])
    by = collections.Counter(o['by'] for o in O if o['result'] == 'unsat')
    if lean: by['lean'] = sum(1 for l in lean if l['ok'])
    cases = sum(r.get('cases', 0) for r in H.runs)
    degraded = [f'{r["unit"]}: {r["status"]}: {r["why"][:300]}' for r in bad_units] + [f'{o["unit"]}: {o["name"]}: {o["result"]} ({o.get("by")}) {o.get("attempts")}' for o in undecided[:40]] + [f'lean {l["name"]}: {l["why"]}' for l in lean_bad] + ([perr] if perr else [])
    level = getattr(spec, 'LEVEL', 'proof') if spec is not None else 'exploration'
    cov = {'obligations': total, 'discharged': dis, 'checker_cmd': f'python3 {VERIF}/check.py {pid} --tier {tier}',
           'trusted_base': TRUSTED + (['Lean 4.33 kernel and Mathlib (dv/lean/Bez.lean, axioms checked each run)'] if lean else []) + list(getattr(spec, 'TRUSTED', [])),
           'by_backend': dict(by), 'solver_s': round(sum(o['s'] for o in O), 2), 'max_obligation_s': round(max([o['s'] for o in O] or [0]), 2),
           'functions_under_contract': sorted({r['fn'] for r in R if r['status'] == 'ok' and r['fn']}),
           'verified_inline_with_their_caller': sorted({i for r in R for i in r['inlined']}),
           'units': len(R), 'paths': sum(r['paths'] for r in R),
           'callee_contracts_used': sorted({c for r in R for c in r['contracts']}),
           'lemmas': sorted({l for r in R for l in r['lemmas']}), 'lean': [l['name'] for l in lean],
           'obligation_kinds': dict(collections.Counter(o['kind'] for o in O)),
           'not_decided_this_run': degraded,
           'bounded_only': list(getattr(spec, 'BOUNDED', [])) if spec is not None else ['everything: no contract built'],
           'bounded_stand_in': {'what': 'harness/ with address+undefined sanitizers; random and boundary inputs against an independent long-double oracle; not counted as proved', 'status': H.res['status'], 'cases': cases, 'runs': [{k: v for k, v in r.items() if k != 'err'} for r in H.runs][:12]}}
    if level == 'exploration':
        cov.update(evaluations=cases, distinct_nontrivial=cases, rule='random and boundary inputs, see harness/', samples=[str(H.runs[:1])])
    if level == 'other': cov['explanation'] = getattr(spec, 'EXPLAIN', '')
    elif getattr(spec, 'EXPLAIN', ''): cov['argument'] = spec.EXPLAIN
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': ASSUME + sorted({n for r in R for n in r['notes']}) + (['the Lean theorems are applied to the closed forms proved by SMT; that hypotheses and obligations state the same closed form is checked by reading'] if lean else []) + list(getattr(spec, 'ASSUME', [])),
          'wall_s': round(time.time() - T0, 2), 'violations': len(failed) + (1 if H.res['status'] in ('fail', 'nocompile') else 0)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print(f'{pid}: {dis}/{total} obligations discharged in {len(R)} units, bounded stand-in {H.res["status"]} ({cases} cases), {ev["wall_s"]} s')
    for d in degraded[:15]: print('  not decided by proof this run (bounded stand-in only): ' + d[:300])
    for l in out: print(l)
    return code

TRUSTED = ['clang 18 front end (JSON AST of the real headers; template instantiations in dv/tu)', 'dv/sym.py: VC generation and models of std::vector/array/algorithm', 'z3 5.3.2, cvc5 1.1.2, dv/poly.py (polynomial identities)']
ASSUME = ['double arithmetic treated as exact real arithmetic (no rounding, overflow, NaN, infinities)', 'size_t sums and products do not wrap; sizes and indices below 2^31', 'memory allocation succeeds', 'template code proved for the instantiations listed under functions_under_contract (parametric dimensions 1..3, physical dimensions 1..3), not for every template argument']
if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)
