PROPERTY = 'C24'
EDITS = [('udapi/block/write/sdparse.py', "            for node in nodes:\n                forms[node.form] += 1", "            for node in nodes:\n                if not node.is_leaf() or node.parent.is_root() or node.form not in forms:\n                    forms[node.form] += 1")]
BREAKS = 'write.Sdparse does not number the words of a repeated form, so the relations are ambiguous'
NEEDS = 'a form that is repeated by a word that is a leaf and not attached to the root'
DEMO = '''
import contextlib, io
from udapi.core.document import Document
from udapi.block.write.sdparse import Sdparse

d = Document()
root = d.create_bundle().create_tree()
for form in ('x', 'a', 'a'):
    root.create_child(form=form, upos='X', deprel='dep')
x, a, b = root.descendants
a.parent = x
b.parent = a
out = io.StringIO()
with contextlib.redirect_stdout(out):
    Sdparse().run(d)
assert 'dep(x, a-2)\\ndep(a-2, a-3)' in out.getvalue(), out.getvalue()
'''
