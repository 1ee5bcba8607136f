id = "p17-one-field-for-scalars"
prop = "C17"
edits = [("meshtools.py", """    nbc += var[4]

    # set default periodic""", """    nbc += min(var[4], 1)

    # set default periodic""")]
needs = "a variable list with two scalars or more"
breaks = "there is only one condition set for all scalars"
demo = '''
from pymech.meshtools import gen_box
m = gen_box(2, 2, 0, 1, 0, 1, var=[2, 2, 1, 1, 3])
sys.exit(0 if m.nbc == 5 and m.elem[0].bcs.shape[0] == 5 else "nbc %d" % m.nbc)
'''
