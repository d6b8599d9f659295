PROPERTY = 'C10'
NEEDS = 'reading with garbage collection disabled by the caller (as udapy does)'
BREAKS = 'reading a file switches garbage collection on'
EDITS = [('udapi/core/basereader.py', """            if gc_was_enabled:
                gc.enable()
                gc.collect()
""", """            gc.enable()
            if gc_was_enabled:
                gc.collect()
""")]
DEMO = '''
import gc
from udapi.core.document import Document
gc.disable()
Document().from_conllu_string("1\\tx\\tx\\tX\\t_\\t_\\t0\\troot\\t_\\t_\\n\\n")
assert not gc.isenabled()
'''
