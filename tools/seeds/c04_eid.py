PROPERTY = 'C04'
NEEDS = 'renaming an entity to an id with a forbidden character and catching the error'
BREAKS = 'the entity keeps the rejected id'
EDITS = [('udapi/core/coref.py', """        if any(x in new_eid for x in CHARS_FORBIDDEN_IN_ID):
            raise ValueError(f"{new_eid} contains forbidden characters [{CHARS_FORBIDDEN_IN_ID}]")
        self._eid = new_eid
""", """        old_eid, self._eid = self._eid, new_eid
        if any(x in new_eid for x in CHARS_FORBIDDEN_IN_ID):
            raise ValueError(f"{new_eid} (instead of {old_eid}) contains forbidden characters [{CHARS_FORBIDDEN_IN_ID}]")
""")]
DEMO = '''
import sys
from udapi.core.coref import CorefEntity
e = CorefEntity("e1")
try:
    e.eid = "e 1"
except ValueError:
    pass
if e.eid != "e1":
    sys.exit("eid changed")
'''
