PROPERTY = 'C21'
EDITS = [('udapi/core/block.py', "p_mention = not hasattr(self.process_coref_mention, 'is_not_overridden')",
          "p_mention = 'process_coref_mention' in type(self).__dict__")]
BREAKS = 'a process_coref_mention that is inherited from another block is not called'
NEEDS = 'a block whose base class defines process_coref_mention and that itself defines process_node'
DEMO = '''
from udapi.core.block import Block
from udapi.core.document import Document

class Mentions(Block):
    seen = 0
    def process_coref_mention(self, mention):
        self.seen += 1

class Both(Mentions):
    def process_node(self, node):
        pass

d = Document()
node = d.create_bundle().create_tree().create_child(form='a')
d.create_coref_entity('e1').create_mention(words=[node])
block = Both()
block.process_document(d)
assert block.seen == 1
'''
