PROPERTY = 'C24'
EDITS = [('udapi/block/write/tikz.py', "            max_depth = max(depths)", "            max_depth = max(depths[1:] or depths)")]
BREAKS = 'with as_tree=1 the first word is drawn below the line of words when it is the deepest one'
NEEDS = 'as_tree=1 and a sentence whose only deepest word is the first'
DEMO = '''
import contextlib, io
from udapi.core.document import Document
from udapi.block.write.tikz import Tikz

d = Document()
root = d.create_bundle().create_tree()
for form in 'abc':
    root.create_child(form=form, upos='X', deprel='dep')
a, b, c = root.descendants
a.parent = b
b.parent = c
out = io.StringIO()
with contextlib.redirect_stdout(out):
    Tikz(as_tree=True).run(d)
assert r'+0\\deplevel' in out.getvalue() and r'+-1\\deplevel' not in out.getvalue(), out.getvalue()
'''
