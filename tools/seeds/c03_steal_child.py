PROPERTY = 'C03'
NEEDS = 'moving a node to another tree while one of its children stays behind'
BREAKS = 'the child that stays is re-attached to the old root but still listed under the moved node'
EDITS = [('udapi/core/root.py', """                node._children = [n for n in node._children if n in nodes]
""", """                if len(node._children) > 1:
                    node._children = [n for n in node._children if n in nodes]
""")]
DEMO = '''
import sys
from udapi.core.root import Root
a, b = Root(), Root()
n = [a.create_child(form=str(i)) for i in range(3)]
n[2].parent = n[1]
b.steal_nodes([n[1]])
if n[2] in n[1].children:
    sys.exit("still listed under the moved node")
'''
