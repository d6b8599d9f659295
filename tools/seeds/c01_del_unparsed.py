PROPERTY = 'C01'
NEEDS = 'a name is deleted from an object that was built from a string and never read as a dictionary, then both views are read'
BREAKS = 'deleting the last name keeps the old string, which is parsed again'
EDITS = [('udapi/core/dualdict.py', """        try:
            del self._dict[key]
            self._string = None
        except KeyError:
            pass
""", """        if self._dict.pop(key, None) is not None and self._dict:
            self._string = None
""")]
DEMO = '''
from udapi.core.dualdict import DualDict
a = DualDict('SpaceAfter=No')
del a['SpaceAfter']
assert str(a) == '_', str(a)
assert 'SpaceAfter' not in a
'''
