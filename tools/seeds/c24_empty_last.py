PROPERTY = 'C24'
EDITS = [('udapi/block/write/textmodetrees.py', "                if node.is_empty():\n                    self.add_node(idx, node)", "                if node.is_empty() and not self.lengths[idx]:\n                    self.add_node(idx, node)")]
BREAKS = 'an empty node inside the span of an edge is drawn as an empty line'
NEEDS = 'the classic layout and an empty node between a word and its head'
DEMO = '''
import contextlib, io
from udapi.core.document import Document

d = Document()
root = d.create_bundle().create_tree()
a = root.create_child(form='a')
b = a.create_child(form='b')
a.create_empty_child('nsubj', form='gap')
out = io.StringIO()
with contextlib.redirect_stdout(out):
    root.draw(color=False)
assert 'gap' in out.getvalue(), out.getvalue()
'''
