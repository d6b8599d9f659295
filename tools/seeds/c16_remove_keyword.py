PROPERTY = 'C16'
NEEDS = 'ud.ComplyWithText meets an extra punctuation node that is missing in the sentence text'
BREAKS = 'deleting the punctuation node passes a keyword argument the tree API does not have, so the run crashes'
EDITS = [('udapi/block/ud/complywithtext.py', "node.remove(children='rehang')", "node.remove(rehang_children=True)")]
DEMO = '''
from udapi.core.document import Document
from udapi.block.ud.complywithtext import ComplyWithText
d = Document()
d.from_conllu_string("""# sent_id = 1
# text = Hello world
1\\tHello\\thello\\tINTJ\\t_\\t_\\t0\\troot\\t_\\t_
2\\t!\\t!\\tPUNCT\\t_\\t_\\t1\\tpunct\\t_\\t_
3\\tworld\\tworld\\tNOUN\\t_\\t_\\t1\\tvocative\\t_\\t_

""")
ComplyWithText(fix_text=False).apply_on_document(d)
t = d.bundles[0].get_tree()
assert [n.form for n in t.descendants] == ['Hello', 'world'], t.descendants
'''
