PROPERTY = 'C07'
EDITS = [('udapi/block/tokenize/onwhitespace.py', '            elif spaces_after != " ":', "            elif spaces_after.strip(' '):")]
BREAKS = 'with keep_spaces, several plain spaces after a token are not recorded'
NEEDS = 'keep_spaces=1 and two spaces (no tabulator) between tokens'
DEMO = '''
from udapi.core.document import Document


def tree(doc, forms, text=None):
    root = doc.create_bundle().create_tree()
    for form in forms:
        root.create_child(form=form, deprel='dep')
    root.text = text
    return root


d = Document()
from udapi.block.tokenize.onwhitespace import OnWhitespace
root = d.create_bundle().create_tree()
root.text = 'a  b'
OnWhitespace(keep_spaces=True).run(d)
assert root.descendants[0].misc['SpacesAfter'] == '\\\\s\\\\s', str(root.descendants[0].misc)
'''
