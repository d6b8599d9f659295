PROPERTY = 'C09'
NEEDS = 'attributes of the left neighbour of the first word, or of the right neighbour of the last one'
BREAKS = 'l_form of the first word is not the form of the technical root but is left out'
EDITS = [('udapi/core/node.py', """        new_ord = self._ord - 1
        if new_ord < 0:
            return None
        if new_ord == 0:
            return self._root
        return self._root._descendants[new_ord - 1]
""", """        new_ord = self._ord - 1
        if new_ord <= 0:
            return None
        return self._root._descendants[new_ord - 1]
""")]
DEMO = '''
from udapi.core.document import Document
root = Document().create_bundle().create_tree()
a, b = [root.create_child(form=x) for x in 'ab']
assert a.prev_node is root, a.prev_node
'''
