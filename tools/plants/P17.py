id = "p17-flat-box"
prop = "C17"
edits = [("meshtools.py", """    if ly <= 0:
        raise ValueError(f"ymax must""", """    if ly < 0:
        raise ValueError(f"ymax must""")]
needs = "a box with ymin equal to ymax"
breaks = "an empty rectangle is accepted and a mesh of flat elements is returned"
demo = '''
from pymech.meshtools import gen_box
try:
    gen_box(2, 2, 0, 1, 1, 1)
except ValueError:
    pass
else:
    raise SystemExit("an empty rectangle was accepted")
'''
