PROPERTY = 'C03'
NEEDS = 'shifting a subtree with a gap (non-projective) across one of its siblings'
BREAKS = 'the children of the parent are no longer in word order'
EDITS = [('udapi/core/node.py', """            all_nodes[trg_ord - 1], node._ord = node, trg_ord
            trg_ord += 1
        self._parent._children.sort()

    def shift_after_node""", """            all_nodes[trg_ord - 1], node._ord = node, trg_ord
            trg_ord += 1

    def shift_after_node""")]
DEMO = '''
import sys
from udapi.core.root import Root
r = Root()
n = [r.create_child(form=str(i)) for i in range(6)]
n[3].parent = n[1]          # subtree 1..3 with gap 2
n[1].shift_after_node(n[5])
k = [c.ord for c in r.children]
if k != sorted(k):
    sys.exit("children not in word order: %s" % k)
'''
