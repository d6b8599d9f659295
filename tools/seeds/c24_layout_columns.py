PROPERTY = 'C24'
EDITS = [('udapi/block/write/textmodetrees.py', "            self.attrs = [a for sublist in columns_attrs for a in sublist]", "            self.attrs = columns_attrs[-1] if marked_last else [a for sublist in columns_attrs for a in sublist]"),
         ('udapi/block/write/textmodetrees.py', "            columns_attrs = [[a] for a in self.attrs] if", "            marked_last = self.marked_only and len(allnodes) > 2\n            columns_attrs = [[a] for a in self.attrs] if")]
BREAKS = 'with layout=align marked_only=1, trees after the first one are drawn with the last attribute only'
NEEDS = 'layout=align, marked_only and at least two marked trees'
DEMO = '''
import contextlib, io
from udapi.core.document import Document
from udapi.block.write.textmodetrees import TextModeTrees

d = Document()
for _ in range(2):
    root = d.create_bundle().create_tree()
    root.create_child(form='word', upos='NOUN', deprel='root', misc='Mark=1')
    root.create_child(form='other', upos='NOUN', deprel='root')
out = io.StringIO()
with contextlib.redirect_stdout(out):
    TextModeTrees(layout='align', marked_only=True, color=False).run(d)
lines = [l for l in out.getvalue().split('\\n') if 'root' in l]
assert len(lines) == 4 and all('NOUN' in l for l in lines), lines
'''
