PROPERTY = 'C23'
NEEDS = 'setting a feature of two nodes that had no features before'
BREAKS = 'all nodes without features share one Feats object'
EDITS = [('udapi/core/node.py', """        if self._feats is None:
            self._feats = Feats()
        return self._feats
""", """        if self._feats is None:
            self._feats = NO_FEATS
        return self._feats
"""), ('udapi/core/node.py', """from udapi.core.feats import Feats
""", """from udapi.core.feats import Feats

NO_FEATS = Feats()
""")]
DEMO = '''
from udapi.core.root import Root
r = Root()
a, b = r.create_child(), r.create_child()
a.feats["Case"] = "Nom"
assert b.feats["Case"] == ""
'''
