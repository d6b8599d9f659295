PROPERTY = 'C18'
NEEDS = 'removing a mention with more than one word'
BREAKS = 'the words other than the head still list the removed mention'
EDITS = [('udapi/core/coref.py', """        for word in self._words:
            word._mentions.remove(self)
        self._entity._mentions.remove(self)
""", """        self._head._mentions.remove(self)
        self._entity._mentions.remove(self)
""")]
DEMO = '''
from udapi.core.document import Document
d = Document()
t = d.create_bundle().create_tree()
a = t.create_child(form="a")
b = t.create_child(form="b")
d._eid_to_entity = {}
e = d.create_coref_entity("e1")
m = e.create_mention(words=[a, b])
m.remove()
assert a.coref_mentions == [] and b.coref_mentions == [] and e.mentions == []
'''
