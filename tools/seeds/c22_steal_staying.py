PROPERTY = 'C22'
NEEDS = 'moving a part of the words of a multiword token to another tree'
BREAKS = 'the moved token still lists the words that stayed in the original tree'
EDITS = [('udapi/core/root.py', """                    words = [w for w in mwt.words if w in nodes]
                    mwt.remove()
""", """                    words = mwt.words
                    mwt.remove()
""")]
DEMO = '''
from udapi.core.root import Root
r, q = Root(), Root()
a, b, c = [r.create_child(form=x) for x in "abc"]
r.create_multiword_token([a, b], form="ab")
q.steal_nodes([b])
assert all(w.root is m.root for m in q.multiword_tokens for w in m.words)
'''
