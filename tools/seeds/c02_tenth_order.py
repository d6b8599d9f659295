PROPERTY = 'C02'
NEEDS = 'a tree with at least ten empty nodes after one word, from which something is removed'
BREAKS = 'the tenth empty node is ordered before the first nine, so the order of empty nodes changes'
EDITS = [('udapi/core/node.py', """            return self._key < (other, 0)
        elif isinstance(other, float):
            return self._key < (int(other), int(10*other - 10*int(other)))""", """            return self._key < (other, 0)
        elif isinstance(other, float):
            return self._key[0] <= int(other)""")]
DEMO = '''
from udapi.core.root import Root
r = Root()
a, b = [r.create_child(form=x) for x in "ab"]
empties = [a.create_empty_child('dep', form='e%d' % i) for i in range(1, 11)]
c = r.create_child(form='c')
c.shift_before_node(a)
order = [n.form for n in r.descendants_and_empty]
assert order == ['c', 'a'] + ['e%d' % i for i in range(1, 11)] + ['b'], order
assert [str(n.ord) for n in r.empty_nodes] == ['2.%d' % i for i in range(1, 11)]
'''
