PROPERTY = 'C25'
NEEDS = 'removing a word together with a dependent that precedes it in the sentence'
BREAKS = 'words between the removed dependent and the removed word keep their old numbers'
EDITS = [('udapi/core/node.py', """            for (new_ord, node) in enumerate(self._root._descendants, 1):
                node.ord = new_ord
            # Decrease""", """            for (new_ord, node) in enumerate(self._root._descendants[self._ord - 1:], self._ord):
                node.ord = new_ord
            # Decrease""")]
DEMO = '''
from udapi.core.root import Root
r = Root()
a, b, c, d = [r.create_child(form=x) for x in "abcd"]
a.parent = c
c.remove()
assert [n.ord for n in r.descendants] == [1, 2], [n.ord for n in r.descendants]
'''
