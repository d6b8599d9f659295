PROPERTY = 'C21'
EDITS = [('udapi/block/util/filter.py', "[n for n in root.children if n not in kept_subtrees]", "[n for n in root.children if n.ord < kept_subtrees[0].ord or n not in kept_subtrees and not n.children]")]
BREAKS = 'util.Filter keep_subtree keeps some subtrees that do not satisfy the condition'
NEEDS = 'a subtree with more words after the last kept subtree'
DEMO = '''
from udapi.core.document import Document
from udapi.block.util.filter import Filter

d = Document()
root = d.create_bundle().create_tree()
for form in 'abc':
    root.create_child(form=form)
a, b, c = root.descendants
c.parent = b
Filter(keep_subtree='node.form == "a"').run(d)
assert [n.form for n in root.descendants] == ['a'], [n.form for n in root.descendants]
'''
