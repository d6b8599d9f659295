PROPERTY = 'C12'
NEEDS = 'a block that defines both process_node and process_empty_node, and a document with empty nodes'
BREAKS = 'the empty nodes are never handed to the block'
EDITS = [('udapi/core/block.py', """                            else:
                                if p_node:
                                    for node in tree.descendants:
                                        self.process_node(node)
                                if p_empty_node:
""", """                            else:
                                if p_node:
                                    for node in tree.descendants:
                                        self.process_node(node)
                                elif p_empty_node:
""")]
DEMO = '''
from udapi.core.document import Document
from udapi.core.block import Block
class B(Block):
    seen = 0
    def process_node(self, node):
        pass
    def process_empty_node(self, node):
        self.seen += 1
doc = Document()
doc.from_conllu_string("1\\tx\\tx\\tX\\t_\\t_\\t0\\troot\\t0:root\\t_\\n1.1\\ty\\t_\\t_\\t_\\t_\\t_\\t_\\t0:root\\t_\\n\\n")
b = B()
b.run(doc)
assert b.seen == 1
'''
