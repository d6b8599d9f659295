PROPERTY = 'C05'
NEEDS = 'a word with two or more MISC attributes, one of them to be deleted'
BREAKS = 'the block loops over the live MISC mapping while deleting from it'
EDITS = [('udapi/block/corefud/removemisc.py', """            for attrname in list(node.misc):
""", """            for attrname in node.misc:
""")]
DEMO = '''
import io
from udapi.core.document import Document
from udapi.block.corefud.removemisc import RemoveMisc
doc = Document()
doc.from_conllu_string("1\\tx\\tx\\tX\\t_\\t_\\t0\\troot\\t_\\tA=1|B=2|C=3\\n\\n")
RemoveMisc(attrnames="A,B").apply_on_document(doc)
assert str(doc.bundles[0].trees[0].descendants[0].misc) == "C=3"
'''
