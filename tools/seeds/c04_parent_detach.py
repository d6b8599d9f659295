PROPERTY = 'C04'
NEEDS = 'attaching a node to a node of another tree and catching the error'
BREAKS = 'the node is already removed from the children of its old parent'
EDITS = [('udapi/core/node.py', """            if self._parent._root is not new_parent._root:
                raise ValueError('Cannot move nodes between trees with parent setter, '
                                 'use new_root.steal_nodes(nodes_to_be_moved) instead')
            self._parent._children.remove(self)
""", """            self._parent._children.remove(self)
            if self._parent._root is not new_parent._root:
                raise ValueError('Cannot move nodes between trees with parent setter, '
                                 'use new_root.steal_nodes(nodes_to_be_moved) instead')
""")]
DEMO = '''
import sys
from udapi.core.root import Root
a, b = Root(), Root()
x, y = a.create_child(form="x"), b.create_child(form="y")
try:
    x.parent = y
except ValueError:
    pass
if a.children != [x]:
    sys.exit("node lost")
'''
