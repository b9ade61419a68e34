"""Index sort: stable ascending permutation, for every sequence (unbounded)."""
from specs.common import *
class Sort(Unit):
    tu = 'algos.cpp'; timeout = 20
    def __init__(s, t): s.t = t; s.name = f'IndexListSort<{t}>'
    def select(s, P): return [f for f in P.fns.values() if f.name == 'IndexListSort' and f.body is not None and f.targs and ptype(f.targs[0]) == ptype(s.t)]
    def setup(s, ex, fn):
        s.v = ex.symb(('vec', ptype(s.t)), 'v'); ex.assume(s.v.len >= 0)
        s.c = LV(ex.new_cell(s.v, 'v', f'vector<{s.t}>')); return None, [s.c]
    def post(s, ex, fn, ret):
        r = ex.read(ret); n = s.v.len; v = s.v.elem
        i, j = fresh(z3.IntSort(), 'i'), fresh(z3.IntSort(), 'j')
        ex.oblige('one index per element', r.len == n, 'post')
        ex.assume(z3.And(0 <= i, i < n))
        ex.oblige('index in range', z3.And(0 <= r.elem[i], r.elem[i] < n), 'post')
        ex.assume(z3.And(i < j, j < n))
        ex.oblige('indices distinct (with the count: a permutation)', r.elem[i] != r.elem[j], 'post')
        a, b = v[r.elem[i]], v[r.elem[j]]
        ex.oblige('ascending', a <= b, 'post')
        ex.oblige('equal values keep their order', z3.Implies(a == b, r.elem[i] < r.elem[j]), 'post')
        w = ex.read(s.c); k = fresh(z3.IntSort(), 'k')
        ex.oblige('sequence unchanged', z3.And(w.len == n, w.elem[k] == v[k]), 'frame')
UNITS = [Sort(t) for t in ('double', 'int', 'unsigned long')]
ASSUME = ['floating-point sequences contain no NaN (values are reals)', 'an index vector of n pairwise distinct values in [0, n) is a permutation (pigeonhole)']
TRUSTED = ['contracts of std::stable_sort and std::iota']
