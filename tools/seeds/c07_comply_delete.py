PROPERTY = 'C07'
EDITS = [('udapi/block/ud/complywithtext.py', '        if text == root.compute_text():\n            return\n\n        tree_chars', "        if text.replace(' ', '') == root.compute_text().replace(' ', '') and ' ' not in text:\n            return\n\n        tree_chars")]
BREAKS = 'a text without any space is taken for spelled although the tokens have spaces between them'
NEEDS = 'a text without spaces with several tokens that lack SpaceAfter=No'
DEMO = '''
from udapi.core.document import Document


def tree(doc, forms, text=None):
    root = doc.create_bundle().create_tree()
    for form in forms:
        root.create_child(form=form, deprel='dep')
    root.text = text
    return root


d = Document()
from udapi.block.ud.complywithtext import ComplyWithText
root = tree(d, ['hi', '!'], 'hi!')
ComplyWithText().run(d)
assert root.compute_text() == root.text == 'hi!', root.compute_text()
'''
