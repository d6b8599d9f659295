PROPERTY = 'C26'
NEEDS = 'attaching a node to a descendant that is not its direct child'
BREAKS = 'a cycle through two or more nodes is accepted'
EDITS = [('udapi/core/node.py', "if self._children and new_parent.is_descendant_of(self):", "if new_parent in self._children:")]
DEMO = '''
import sys
from udapi.core.root import Root
r = Root()
a = r.create_child(form="a")
b = a.create_child(form="b")
c = b.create_child(form="c")
try:
    a.parent = c
except ValueError:
    sys.exit(0)
except Exception:
    sys.exit(0)
sys.exit("cycle accepted")
'''
