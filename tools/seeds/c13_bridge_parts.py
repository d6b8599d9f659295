PROPERTY = 'C13'
NEEDS = 'a document with three bridging links from one mention, one of them without a relation'
BREAKS = 'the order of bridging links'
EDITS = [('udapi/core/coref.py', "                if mention._bridging and idx == 1:", "                if mention._bridging:")]
BREAKS = 'bridging links of a discontinuous mention are stored for each of its parts and doubled when loaded'
NEEDS = 'a discontinuous mention with a bridging link'
DEMO = '''
import udapi.core.coref
from udapi.core.document import Document

def doc():
    d = Document()
    root = d.create_bundle().create_tree()
    return d, [root.create_child(form=x) for x in 'abcd']

d, n = doc()
e = d.create_coref_entity('e1')
e.create_mention(words=[n[1]])
m = d.create_coref_entity('e2').create_mention(words=[n[0], n[2]])
m.bridging.append((e, 'part'))
udapi.core.coref.store_coref_to_misc(d)
d2, n2 = doc()
d2.meta['global.Entity'] = d.meta['global.Entity']
for a, b in zip(n, n2):
    b.misc = str(a.misc)
m = d2.eid_to_entity['e2'].mentions[0]
assert len(m.bridging) == 1, str(m.bridging)
'''
