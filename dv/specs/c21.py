"""C21: comparisons of differentiable values follow the plain values."""
from specs.adc import *
UNITS = []
OPS = {'>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
for T in TYPES:
    for op, f in OPS.items():
        g = lambda a, b, f=f: f(rd(a), rd(b))
        UNITS += [AU(T, 'operator' + op, 'a', g), AU(T, 'operator' + op, 's', g), AU(T, 'operator' + op, 'sa', g, free=True), AU(T, 'operator' + op, 'a', g, alias=True)]
