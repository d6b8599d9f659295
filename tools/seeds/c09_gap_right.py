PROPERTY = 'C09'
NEEDS = 'a word in a gap of a subtree whose head is to the left of the word'
BREAKS = 'is_nonprojective_gap() is False for the word'
EDITS = [('udapi/core/node.py', """        for right_node in all_nodes[self._ord:]:
            if right_node._parent.precedes(self) and right_node._parent not in ancestors:
""", """        for right_node in all_nodes[self._ord:]:
            if right_node._parent.precedes(self) and right_node._parent._parent in ancestors and right_node._parent not in ancestors:
""")]
DEMO = '''
from udapi.core.document import Document
root = Document().create_bundle().create_tree()
a, b, c, d, e = [root.create_child(form=x) for x in 'abcde']
b.parent = a
c.parent = b
e.parent = c
# d hangs on the root between c and e
assert d.is_nonprojective_gap()
'''
