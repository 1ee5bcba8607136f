id = "p26-wide-series"
prop = "C26"
edits = [("meshtools.py", """    eps_approx_f = 2.0e-6
""", """    eps_approx_f = 2.0e-3
""")]
needs = "a ratio within two per thousand of one, and many cells"
breaks = "the series about one is used where it is not accurate: the cells do not add up to the length"
demo = '''
from pymech.meshtools import exponential_refinement_parameter as f
n = 60
l = sum(1.0015 ** k for k in range(n))
x = f(1.0, l, n)
assert abs(sum(x ** k for k in range(n)) / l - 1) < 1e-8, x
'''
