PROPERTY = 'C13'
NEEDS = 'a discontinuous mention whose last part has several words, with a head that is not the first word'
BREAKS = 'the head is forgotten when the annotation is loaded'
EDITS = [('udapi/core/coref.py', 'if head_idx and (subspan_idx is None or subspan_idx == total_subspans):', 'if head_idx and subspan_idx is None:')]
DEMO = '''
import udapi.core.coref
from udapi.core.document import Document

def doc():
    d = Document()
    root = d.create_bundle().create_tree()
    return d, [root.create_child(form=x) for x in 'abcd']

d, n = doc()
d.create_coref_entity('e1').create_mention(head=n[2], words=[n[0], n[2], n[3]])
udapi.core.coref.store_coref_to_misc(d)
d2, n2 = doc()
d2.meta['global.Entity'] = d.meta['global.Entity']
for a, b in zip(n, n2):
    b.misc = str(a.misc)
m = d2.coref_mentions[0]
assert m.head is n2[2] and m.words == [n2[0], n2[2], n2[3]], (m.head, m.words)
'''
