PROPERTY = 'C07'
EDITS = [('udapi/block/util/joinsentence.py', '                    previous_tree.steal_nodes(root.descendants)\n                    previous_tree.text = previous_tree.compute_text()\n', "                    previous_tree.text = ' '.join([previous_tree.text or previous_tree.compute_text(), root.compute_text()])\n                    previous_tree.steal_nodes(root.descendants)\n")]
BREAKS = 'the text of two joined sentences has a space where the last token says SpaceAfter=No'
NEEDS = 'a first sentence that ends with SpaceAfter=No, joined because of a MISC mark'
DEMO = '''
from udapi.core.document import Document


def tree(doc, forms, text=None):
    root = doc.create_bundle().create_tree()
    for form in forms:
        root.create_child(form=form, deprel='dep')
    root.text = text
    return root


d = Document()
from udapi.block.util.joinsentence import JoinSentence
a, b = tree(d, ['a', ':'], 'a :'), tree(d, ['b'], 'b')
a.descendants[-1].misc['SpaceAfter'] = 'No'
b.descendants[0].misc['Join'] = 'Yes'
JoinSentence(misc_name='Join').run(d)
assert a.text == a.compute_text() == 'a :b', a.text
'''
