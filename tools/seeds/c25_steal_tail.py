PROPERTY = 'C25'
NEEDS = 'transferring some words from the beginning of a sentence to a non-empty tree'
BREAKS = 'the words left in the original tree are renumbered from a wrong position (the first stolen word already has its new number)'
EDITS = [('udapi/core/root.py', """            for (old_ord, node) in enumerate(old_root._descendants, 1):
                node.ord = old_ord
""", """            first = nodes[0].ord
            for (old_ord, node) in enumerate(old_root._descendants[first - 1:], first):
                node.ord = old_ord
""")]
DEMO = '''
from udapi.core.root import Root
r, q = Root(), Root()
a, b, c, d = [r.create_child(form=x) for x in "abcd"]
for x in "xyz":
    q.create_child(form=x)
q.steal_nodes([a, b])
assert [n.ord for n in r.descendants] == [1, 2], [n.ord for n in r.descendants]
assert [n.ord for n in q.descendants] == [1, 2, 3, 4, 5]
'''
