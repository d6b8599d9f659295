PROPERTY = 'C13'
NEEDS = 'a mention that contains a word and the empty node after it, but not the next word, and something later'
BREAKS = 'the empty node is lost from the mention'
EDITS = [('udapi/core/coref.py', 'ranges.append(f"{lo}-{hi}" if hi > lo else f"{lo}")', 'ranges.append(f"{lo}-{hi}" if int(hi) > lo else f"{lo}")')]
DEMO = '''
import udapi.core.coref
from udapi.core.document import Document

def doc():
    d = Document()
    root = d.create_bundle().create_tree()
    for x in 'abc':
        root.create_child(form=x)
    root.descendants[0].create_empty_child('dep', form='x')
    return d, list(d.nodes_and_empty)

d, n = doc()
d.create_coref_entity('e1').create_mention(head=n[0], words=[n[0], n[1], n[3]])
udapi.core.coref.store_coref_to_misc(d)
d2, n2 = doc()
d2.meta['global.Entity'] = d.meta['global.Entity']
for a, b in zip(n, n2):
    b.misc = str(a.misc)
assert d2.coref_mentions[0].words == [n2[0], n2[1], n2[3]], d2.coref_mentions[0].words
'''
