PROPERTY = 'C26'
NEEDS = 'reading a file whose heads form a cycle of two or more nodes with fix_cycles=1'
BREAKS = 'the cycle is reported but not broken'
EDITS = [('udapi/block/read/conllu.py', """                            logging.warning("Ignoring a cycle (attaching to the root instead):\\n%s", parent)
                            parent = root
                            break
""", """                            logging.warning("Ignoring a cycle (attaching to the root instead):\\n%s", parent)
                            break
""")]
DEMO = '''
import sys, io
from udapi.block.read.conllu import Conllu
rows = ["\\t".join([str(i), "w", "w", "NOUN", "_", "_", str(h), "dep", "_", "_"]) for i, h in ((1, 3), (2, 1), (3, 2))]
reader = Conllu(files="-", fix_cycles=True)
tree = reader.read_tree_from_lines(rows)
for node in tree.descendants or tree._descendants:
    k = 0
    while node.parent is not None:
        node, k = node.parent, k + 1
        if k > 10:
            sys.exit("cycle")
if len(tree._descendants) != len(tree.unordered_descendants()):
    sys.exit("unreachable nodes")
'''
