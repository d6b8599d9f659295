PROPERTY = 'C22'
NEEDS = 'removing a multiword token of more than two words'
BREAKS = 'inner words still refer to the removed token'
EDITS = [('udapi/core/mwt.py', """        for word in self.words:
            word._mwt = None  # pylint: disable=W0212
        self.root""", """        for word in (self.words[0], self.words[-1]):
            word._mwt = None  # pylint: disable=W0212
        self.root""")]
DEMO = '''
from udapi.core.root import Root
r = Root()
a, b, c = [r.create_child(form=x) for x in "abc"]
r.create_multiword_token([a, b, c], form="abc").remove()
assert b.multiword_token is None
'''
