id = "p24-any-case"
prop = "C24"
edits = [("dataset.py", """   f           # character "f"
""", """   [fF]        # character "f"
""")]
needs = "a name that ends in .F and five digits or in .Fld"
breaks = "files of another kind are claimed"
demo = '''
import pymech
try:
    pymech.open_dataset("/nonexistent/case.Fld")
except NotImplementedError:
    pass
'''
