PROPERTY = 'C21'
EDITS = [('udapi/core/block.py', "                                if p_empty_node:", "                                elif p_empty_node:")]
BREAKS = 'blocks that process both words and empty nodes do not see the empty nodes'
NEEDS = 'a block with process_node and process_empty_node'
DEMO = '''
from udapi.core.block import Block
from udapi.core.document import Document

class Both(Block):
    def __init__(self):
        super().__init__()
        self.seen = []
    def process_node(self, node):
        self.seen.append(node.form)
    def process_empty_node(self, node):
        self.seen.append(node.form)

d = Document()
node = d.create_bundle().create_tree().create_child(form='a')
node.create_empty_child('dep', form='e')
block = Both()
block.process_document(d)
assert block.seen == ['a', 'e'], block.seen
'''
