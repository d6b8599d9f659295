PROPERTY = 'C27'
NEEDS = 'a mention of several words whose head index is 0'
BREAKS = 'the head of the mention is silently set to its last word'
EDITS = [('udapi/core/coref.py', """                if head_idx and (subspan_idx is None or subspan_idx == total_subspans):
""", """                if head_idx is not None and (subspan_idx is None or subspan_idx == total_subspans):
""")]
DEMO = '''
import io
from udapi.core.document import Document
from udapi.block.read.conllu import Conllu
text = """# newdoc id = d
# global.Entity = eid-etype-head-other
# sent_id = 1
1\\ta\\ta\\tX\\t_\\t_\\t0\\troot\\t_\\tEntity=(e1-x-0-
2\\tb\\tb\\tX\\t_\\t_\\t1\\tdep\\t_\\tEntity=e1)

"""
r = Conllu()
r.files.filehandle = io.StringIO(text)
d = Document()
r.apply_on_document(d)
try:
    heads = [m.head.form for m in d.coref_mentions]
except Exception:
    heads = []
assert heads in ([], ["a"]), heads
'''
