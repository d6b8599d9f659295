PROPERTY = 'C05'
NEEDS = 'removing a node with at least two children with children=rehang'
BREAKS = 'every second child is skipped and stays attached to the removed node'
EDITS = [('udapi/core/node.py', """                for child in self._children:
                    child._parent = self._parent
                self._parent._children.extend(self._children)
                self._parent._children.sort()
                self._children.clear()
""", """                for child in self._children:
                    child.parent = self._parent
                self._parent._children.sort()
                self._children.clear()
""")]
DEMO = '''
from udapi.core.root import Root
r = Root()
a = r.create_child(form="a")
kids = [a.create_child(form=str(i)) for i in range(4)]
a.remove(children="rehang")
assert [k.parent for k in kids] == [r] * 4
assert r.children == kids
'''
