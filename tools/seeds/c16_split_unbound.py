PROPERTY = 'C16'
NEEDS = 'util.SplitSentence is given a sentence and word id instead of a MISC attribute'
BREAKS = 'the tree of the sentence is only looked up in the other branch, so the local variable is unbound'
EDITS = [('udapi/block/util/splitsentence.py',
          "                logging.info('Found!')\n                root = bundle.get_tree()\n",
          "                logging.info('Found!')\n")]
DEMO = '''
from udapi.core.document import Document
from udapi.block.util.splitsentence import SplitSentence
d = Document()
d.from_conllu_string("""# sent_id = 1
# text = A B
1\\tA\\ta\\tX\\t_\\t_\\t0\\troot\\t_\\t_
2\\tB\\tb\\tX\\t_\\t_\\t0\\troot\\t_\\t_

""")
SplitSentence(sent_id='1', word_id=2).process_document(d)
assert [b.bundle_id for b in d.bundles] == ['1A', '1B']
'''
