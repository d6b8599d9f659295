PROPERTY = 'C06'
NEEDS = 'a form with a space written by write.Sdparse and used afterwards'
BREAKS = 'the writer replaces the spaces in the forms of the document itself'
EDITS = [('udapi/block/write/sdparse.py', """        nodes = tree.descendants
        print(' '.join(self._node(n) for n in nodes))
""", """        nodes = tree.descendants
        for spaced in (n for n in nodes if ' ' in n.form):
            spaced.form = spaced.form.replace(' ', '\\u00a0')
        print(' '.join(self._node(n) for n in nodes))
""")]
DEMO = '''
import io, contextlib
from udapi.core.document import Document
from udapi.block.write.sdparse import Sdparse
d = Document()
t = d.create_bundle().create_tree()
a = t.create_child(form="10 000", lemma="d", upos="X", xpos="x", deprel="dep")
with contextlib.redirect_stdout(io.StringIO()):
    Sdparse().apply_on_document(d)
assert a.form == "10 000"
'''
