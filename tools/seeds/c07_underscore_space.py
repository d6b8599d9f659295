PROPERTY = 'C07'
EDITS = [('udapi/block/ud/splitunderscoretokens.py', '                new_node.shift_after_node(last_node)\n                last_node = new_node', '                new_node.shift_after_node(last_node)\n                last_node = node if len(forms) > 2 and new_node.next_node is None else new_node')]
BREAKS = 'the parts of a token with two underscores at the end of the sentence get in the wrong order'
NEEDS = 'a token of three parts at the end of the sentence'
DEMO = '''
from udapi.core.document import Document


def tree(doc, forms, text=None):
    root = doc.create_bundle().create_tree()
    for form in forms:
        root.create_child(form=form, deprel='dep')
    root.text = text
    return root


d = Document()
from udapi.block.ud.splitunderscoretokens import SplitUnderscoreTokens
root = tree(d, ['x', 'a_b_c'])
for n in root.descendants:
    n.lemma = n.form
SplitUnderscoreTokens().run(d)
assert [n.form for n in root.descendants] == ['x', 'a', 'b', 'c'], [n.form for n in root.descendants]
'''
