PROPERTY = 'C20'
NEEDS = 'label=deprel and a lifted word whose relation has no subtype'
BREAKS = 'the relation of the lifted word is not restored by transform.Deproj'
EDITS = [('udapi/block/transform/proj.py', """            node.deprel = '%s:%s+%s' % (node.udeprel, node.sdeprel, label)
""", """            node.deprel = '%s+%s' % (node.deprel, label)
""")]
DEMO = '''
from udapi.core.document import Document
from udapi.block.transform.proj import Proj
from udapi.block.transform.deproj import Deproj
root = Document().create_bundle().create_tree()
for rel in ('nsubj', 'root', 'advmod', 'acl'):
    root.create_child(form=rel, deprel=rel)
a, b, c, d = root.descendants
a.parent = b
c.parent = b
d.parent = a
Proj(label='deprel').process_tree(root)
assert not any(n.is_nonprojective() for n in root.descendants)
for node in root.descendants:
    Deproj(label='deprel').process_node(node)
assert [n.deprel for n in root.descendants] == ['nsubj', 'root', 'advmod', 'acl'], [n.deprel for n in root.descendants]
'''
