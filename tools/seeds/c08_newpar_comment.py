PROPERTY = 'C08'
NEEDS = 'a comment between "# newdoc" and "# newpar"'
BREAKS = 'the comment is lost'
EDITS = [('udapi/block/write/conllu.py', """                    while printed_i < i_newpar:
                        printed_i += 1
""", """                    if printed_i < i_newpar:
                        printed_i = i_newpar
""")]
DEMO = '''
from udapi.core.document import Document
text = """# newdoc id = d
# source = x
# newpar id = p
# sent_id = 1
# text = a
1\\ta\\t_\\t_\\t_\\t_\\t0\\troot\\t_\\t_

"""
doc = Document()
doc.from_conllu_string(text)
assert doc.to_conllu_string() == text, doc.to_conllu_string()
'''
