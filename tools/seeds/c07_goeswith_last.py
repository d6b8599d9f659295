PROPERTY = 'C07'
EDITS = [('udapi/block/ud/goeswithfromtext.py', "                    last_node.misc['SpaceAfter'] = 'No'", "                    node.misc['SpaceAfter'] = 'No'")]
BREAKS = 'SpaceAfter=No is given to the first instead of the last part of a word that the text splits'
NEEDS = 'a split word directly followed by punctuation'
DEMO = '''
from udapi.core.document import Document


def tree(doc, forms, text=None):
    root = doc.create_bundle().create_tree()
    for form in forms:
        root.create_child(form=form, deprel='dep')
    root.text = text
    return root


d = Document()
from udapi.block.ud.goeswithfromtext import GoeswithFromText
root = tree(d, ['never', ',', 'x'], 'ne ver, x')
root.descendants[0].lemma = 'never'
GoeswithFromText().run(d)
assert root.compute_text() == root.text, root.compute_text()
'''
