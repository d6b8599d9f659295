PROPERTY = 'C19'
NEEDS = 'two trees without a zone label added to one bundle'
BREAKS = 'both trees are in the same (empty) zone and have the same sent_id'
EDITS = [('udapi/core/bundle.py', """        if new_zone in [x.zone for x in self.trees]:
""", """        if new_zone and any(new_zone == x.zone for x in self.trees):
""")]
DEMO = '''
from udapi.core.document import Document
doc = Document()
bundle = doc.create_bundle()
bundle.create_tree()
bundle.create_tree('en')
try:
    bundle.create_tree()
except Exception:
    pass
assert len({tree.sent_id for tree in bundle}) == len(bundle.trees), [tree.sent_id for tree in bundle]
'''
