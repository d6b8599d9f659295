PROPERTY = 'C07'
EDITS = [('udapi/block/ud/setspaceafterfromtext.py', '        for node in root.token_descendants:\n            if text.startswith(node.form):', '        for node in root.descendants:\n            if node.multiword_token and node.ord > 1:\n                node = node.multiword_token\n                if node.words[0].ord == node.words[-1].ord or not text.startswith(node.form):\n                    continue\n            if text.startswith(node.form):')]
BREAKS = 'the words of a multiword token at the beginning of the sentence are matched with the text instead of the token'
NEEDS = 'a multiword token of the first two words'
DEMO = '''
from udapi.core.document import Document


def tree(doc, forms, text=None):
    root = doc.create_bundle().create_tree()
    for form in forms:
        root.create_child(form=form, deprel='dep')
    root.text = text
    return root


d = Document()
from udapi.block.ud.setspaceafterfromtext import SetSpaceAfterFromText
root = tree(d, ['de', 'el', '.'], 'del.')
root.create_multiword_token(root.descendants[:2], form='del')
SetSpaceAfterFromText().run(d)
assert root.compute_text() == 'del.', root.compute_text()
'''
