PROPERTY = 'C02'
NEEDS = 'an enhanced dependency on the tenth empty node after one word'
BREAKS = 'the dependency is resolved to the first empty node after the word (3.10 is taken for 3.1)'
EDITS = [('udapi/core/node.py', "if str(x._ord) == head)", "if x._ord == float(head))")]
DEMO = '''
from udapi.core.root import Root
r = Root()
a, b = [r.create_child(form=x) for x in "ab"]
empties = [a.create_empty_child('dep', form='e%d' % i) for i in range(1, 12)]
b.raw_deps = '1.10:dep|1.11:x|1.2:y'
try:
    got = [d['parent'].form for d in b.deps]
except Exception as e:
    got = repr(e)
assert got == ['e10', 'e11', 'e2'], got
'''
