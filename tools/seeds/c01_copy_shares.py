PROPERTY = 'C01'
NEEDS = 'the dictionary view of one of the two objects is changed after a copy was taken of an already parsed object'
BREAKS = 'a copy shares its dictionary with the original, whose string view then disagrees with its mapping view'
EDITS = [('udapi/core/dualdict.py', "        return copy.deepcopy(self)\n", "        return copy.copy(self)\n")]
DEMO = '''
from udapi.core.feats import Feats
a = Feats('Case=Nom|Number=Sing')
assert a['Case'] == 'Nom'
b = a.copy()
b['Case'] = 'Gen'
assert a['Case'] == 'Nom', a['Case']
assert str(a) == 'Case=Nom|Number=Sing'
'''
