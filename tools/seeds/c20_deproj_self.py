PROPERTY = 'C20'
NEEDS = 'a lifted word whose own relation (or that of a word below it) is the one of its former head'
BREAKS = 'transform.Deproj tries to attach the word to itself or below itself'
EDITS = [('udapi/block/transform/deproj.py', """        queue = [n for n in node.parent.children if n != node]  # TODO deque
""", """        queue = list(node.parent.children)  # TODO deque
""")]
DEMO = '''
from udapi.core.document import Document
from udapi.block.transform.proj import Proj
from udapi.block.transform.deproj import Deproj
root = Document().create_bundle().create_tree()
heads = (0, 4, 0, 3)
for i in range(4):
    root.create_child(form='w%d' % i, deprel='conj')
heads = (3, 0, 4, 2)
nodes = root.descendants
for i in (2, 4, 3, 1):
    h = heads[i - 1]
    nodes[i - 1].parent = nodes[h - 1] if h else root
for heads in ((0, 0, 1, 2), (3, 0, 0, 2), (0, 0, 0, 2)):
    for node in nodes:
        node.parent = root
    for node, h in zip(nodes, heads):
        if h:
            node.parent = nodes[h - 1]
    Proj().process_tree(root)
    for node in nodes:
        Deproj().process_node(node)
        del node.misc['pproj']
'''
