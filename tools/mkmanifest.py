import json, os, sys, importlib
sys.path.insert(0, '/verif/dv')
NA = {'C26': 'Rounding error of double arithmetic: the contracts treat double as exact reals; no installed deductive verifier back end handles quantified floating-point error bounds over these loops (frama-c has no WP here, Gappa/PVS absent).'}
checks = []
for i in range(1, 28):
    pid = f'C{i:02d}'
    if pid in NA: continue
    has = os.path.exists(f'/verif/dv/specs/{pid.lower()}.py')
    c = {'property': pid, 'quick_cmd': f'./check.py {pid}', 'thorough_cmd': f'./check.py {pid} --tier thorough'}
    if has:
        m = importlib.import_module('specs.' + pid.lower())
        lev = getattr(m, 'LEVEL', 'proof')
        c['technique'] = 'contract-based deductive verification: obligations generated from the clang AST of the current source, discharged by z3/cvc5/polynomial normalisation' + ('/Lean lemmas' if getattr(m, 'LEAN', None) else '') + '; bounded sanitizer harness for replay'
        c['level'] = lev
        c['level_note'] = getattr(m, 'NOTE', 'Every obligation of the functions under contract is discharged for all inputs of the listed instantiations; double treated as exact reals; undecided obligations are reported, never counted.')
    else:
        c['technique'] = 'bounded stand-in: sanitizer harness against an independent oracle (contracts not built yet)'
        c['level'] = 'exploration'; c['level_note'] = 'Bounded: random and boundary inputs only; not a proof.'
    checks.append(c)
M = {'version': 1, 'setup_cmd': './check.py --setup', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks: the verifier reads the unmodified headers of /repo. /repo carries fix: commits only; see known-findings.txt.'}
json.dump(M, open('/verif/MANIFEST.json', 'w'), indent=1)
