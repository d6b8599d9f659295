PROPERTY = 'C19'
NEEDS = 'a bundle created after another one was removed'
BREAKS = 'the number of the new bundle is not its position'
EDITS = [('udapi/core/document.py', """        bundle.number = len(self.bundles)
""", """        bundle.number = self._highest_bundle_id
""")]
DEMO = '''
from udapi.core.document import Document
doc = Document()
for i in range(3):
    doc.create_bundle().create_tree().create_child(form='x')
doc[1].remove()
doc.create_bundle()
assert [b.number for b in doc] == [1, 2, 3], [b.number for b in doc]
'''
