PROPERTY = 'C25'
NEEDS = 'moving a non-projective subtree to the left of its first word'
BREAKS = 'the moved words overwrite other words of the sentence or get wrong numbers'
EDITS = [('udapi/core/node.py', """        # First, move a node from position src_ord to position trg_ord RIGHT-ward.
        # src_ord iterates decreasingly over nodes which are not moving.
        trg_ord, src_ord, mov_ord = last_ord, last_ord - 1, len(nodes_to_move) - 2
        while src_ord >= reference_ord:
            while all_nodes[src_ord - 1] is nodes_to_move[mov_ord]:""", """        # First, move a node from position src_ord to position trg_ord RIGHT-ward.
        # src_ord iterates decreasingly over nodes which are not moving.
        trg_ord, src_ord, mov_ord = last_ord, last_ord - 1, len(nodes_to_move) - 2
        while src_ord >= reference_ord:
            if all_nodes[src_ord - 1] is nodes_to_move[mov_ord]:
                mov_ord, src_ord = mov_ord - 1, src_ord - 1
            while all_nodes[src_ord - 1] is nodes_to_move[0]:""")]
DEMO = '''
from udapi.core.root import Root
r = Root()
a, b, c, d, e, f = [r.create_child(form=x) for x in "abcdef"]
b.parent = f
d.parent = f
e.parent = f
f.shift_before_node(a)
forms = ''.join(n.form for n in r.descendants)
assert forms == 'bdefac', forms
assert [n.ord for n in r.descendants] == [1, 2, 3, 4, 5, 6]
'''
