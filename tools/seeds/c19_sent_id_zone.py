PROPERTY = 'C19'
NEEDS = 'sent_id with a zone that another tree of the bundle has'
BREAKS = 'the zone is not checked: two trees of a bundle are in one zone'
EDITS = [('udapi/core/root.py', """            if len(parts) == 2 and parts[1] != self._zone:
                self.zone = parts[1]
""", """            if len(parts) == 2:
                self._zone = parts[1]
""")]
DEMO = '''
from udapi.core.document import Document
doc = Document()
bundle = doc.create_bundle()
a, b = bundle.create_tree('a'), bundle.create_tree('b')
try:
    b.sent_id = 's1/a'
except Exception:
    pass
assert a.zone != b.zone, (a.sent_id, b.sent_id)
'''
