PROPERTY = 'C10'
NEEDS = 'a writer given a filehandle, and something printed after it has finished'
BREAKS = 'standard output stays redirected to the filehandle'
EDITS = [('udapi/core/basewriter.py', """        sys.stdout.flush()
        if sys.stdout != self.orig_stdout:
""", """        sys.stdout.flush()
        if self.orig_files == '<filehandle>':
            return
        if sys.stdout != self.orig_stdout:
""")]
DEMO = '''
import io, sys
from udapi.core.document import Document
from udapi.block.write.conllu import Conllu
doc = Document()
doc.from_conllu_string("1\\tx\\tx\\tX\\t_\\t_\\t0\\troot\\t_\\t_\\n\\n")
before = sys.stdout
Conllu(filehandle=io.StringIO()).run(doc)
ok = sys.stdout is before
sys.stdout = before
assert ok
'''
