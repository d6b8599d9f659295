PROPERTY = 'C08'
NEEDS = 'a multiword token of three or more words'
BREAKS = 'the line of the multiword token is written again inside the token'
EDITS = [('udapi/block/write/conllu.py', "                last_mwt_id = mwt.words[-1]._ord\n", "                last_mwt_id = node._ord + 1\n")]
DEMO = '''
from udapi.core.document import Document
text = "# sent_id = 1\\n# text = abc\\n1-3\\tabc" + "\\t_" * 8 + "\\n"
for i, f in enumerate("abc", 1):
    text += "%d\\t%s\\t_\\t_\\t_\\t_\\t%d\\t_\\t_\\t_\\n" % (i, f, i - 1)
text += "\\n"
doc = Document()
doc.from_conllu_string(text)
assert doc.to_conllu_string() == text, doc.to_conllu_string()
'''
