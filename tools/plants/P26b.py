id = "p26-few-iterations"
prop = "C26"
edits = [("meshtools.py", """    maxiter = 10000
""", """    maxiter = 50
""")]
needs = "many cells that get smaller quickly (slow convergence)"
breaks = "the iteration ends before it has converged"
demo = '''
from pymech.meshtools import exponential_refinement_parameter as f
n, l = 60, sum(0.7 ** k for k in range(60))
x = f(1.0, l, n)
assert abs(sum(x ** k for k in range(n)) / l - 1) < 1e-8, x
'''
