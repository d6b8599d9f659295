PROPERTY = 'C06'
NEEDS = 'a sentence with a multi-word token written by write.Vislcg and used afterwards'
BREAKS = 'the writer removes the first word from each multi-word token'
EDITS = [('udapi/block/write/vislcg.py', """            words = token.words
            print('\\t' + self._node(words[0]))
            for nonfirst_mwt_word in words[1:]:
                print('\\t\\t' + self._node(nonfirst_mwt_word))
""", """            words = token.words
            print('\\t' + self._node(words.pop(0)))
            for nonfirst_mwt_word in words:
                print('\\t\\t' + self._node(nonfirst_mwt_word))
""")]
DEMO = '''
import io, contextlib
from udapi.core.document import Document
from udapi.block.write.vislcg import Vislcg
d = Document()
t = d.create_bundle().create_tree()
a = t.create_child(form="d", lemma="d", upos="X", xpos="x", deprel="dep")
b = t.create_child(form="u", lemma="u", upos="X", xpos="x", deprel="dep")
m = t.create_multiword_token([a, b], form="du")
with contextlib.redirect_stdout(io.StringIO()):
    Vislcg().apply_on_document(d)
assert m.words == [a, b]
'''
