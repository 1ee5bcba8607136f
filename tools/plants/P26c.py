id = "p26-loose-residual"
prop = "C26"
edits = [("meshtools.py", """        residual = abs(alpha1 - alpha)
        alpha = alpha1
""", """        # a step that does not change the total length any more is the last one
        residual = abs(alpha1 - alpha) if abs(fx) > 1e-7 else 0.0
        alpha = alpha1
""")]
needs = "parameters for which the iteration converges slowly near the solution"
breaks = "the ratio is not as accurate as requested"
demo = '''
from pymech.meshtools import exponential_refinement_parameter as f
from fractions import Fraction
import itertools
bad = []
for n, q in itertools.product([2, 3, 5, 20, 50], [1.3, 1.9, 3.7, 17.0, 230.0]):
    if q == n: continue
    a = f(1.0, q, n)
    s = float(sum(Fraction(a) ** i for i in range(n)))
    if abs(s - q) > 1e-11 * q:
        bad.append((n, q, s))
sys.exit("; ".join(map(str, bad)) if bad else 0)
'''
