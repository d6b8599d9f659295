PROPERTY = 'C24'
EDITS = [('udapi/block/write/vislcg.py', "            print('\\t' + self._node(words[0]))\n            for nonfirst_mwt_word in words[1:]:", "            print('\\t' + self._node(words[0]))\n            if len(words) > 1 and words[0].ord > 1 and words[0].is_leaf() and words[0].parent is words[1].parent:\n                words = words[:-1]\n            for nonfirst_mwt_word in words[1:]:")]
BREAKS = 'write.Vislcg drops the last word of some multiword tokens'
NEEDS = 'a multiword token that is not the first one, whose first two words have the same head'
DEMO = '''
import contextlib, io
from udapi.core.document import Document
from udapi.block.write.vislcg import Vislcg

d = Document()
root = d.create_bundle().create_tree()
for form in ('x', 'a', 'b'):
    root.create_child(form=form, lemma=form, xpos='n', deprel='dep')
x, a, b = root.descendants
a.parent = x
b.parent = x
root.create_multiword_token([a, b], form='ab')
out = io.StringIO()
with contextlib.redirect_stdout(out):
    Vislcg().run(d)
assert '#3->1' in out.getvalue(), out.getvalue()
'''
