PROPERTY = 'C22'
NEEDS = 'a new token over three or more words, an inner one of which belongs to another token'
BREAKS = 'the other token is kept although its word now belongs to the new one'
EDITS = [('udapi/core/root.py', """        for w in words:
            if w.multiword_token:
""", """        for w in (words[0], words[-1]):
            if w.multiword_token:
""")]
DEMO = '''
from udapi.core.root import Root
r = Root()
a, b, c = [r.create_child(form=x) for x in "abc"]
r.create_multiword_token([b], form="b")
m = r.create_multiword_token([a, b, c], form="abc")
assert r.multiword_tokens == [m]
'''
