PROPERTY = 'C09'
NEEDS = 'a multiword token with SpaceAfter=No whose first word does not have it'
BREAKS = 'compute_text adds a space after the token'
EDITS = [('udapi/core/node.py', """                    if mwt.misc['SpaceAfter'] != 'No':
                        string += ' '
            else:
                string += node.form
                if node.misc['SpaceAfter'] != 'No':
                    string += ' '
""", """                else:
                    continue
            else:
                string += node.form
            if not node.no_space_after:
                string += ' '
""")]
DEMO = '''
from udapi.core.document import Document
root = Document().create_bundle().create_tree()
a, b, c = [root.create_child(form=x) for x in 'abc']
root.create_multiword_token([a, b], form='ab').misc['SpaceAfter'] = 'No'
assert root.compute_text() == 'abc', root.compute_text()
'''
