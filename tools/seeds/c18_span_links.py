PROPERTY = 'C18'
NEEDS = 'changing the span of a mention'
BREAKS = 'words that left or joined the mention through its span keep their old lists of mentions'
EDITS = [('udapi/core/coref.py', """        self.words = span_to_nodes(self._head.root, new_span)
""", """        new_words = span_to_nodes(self._head.root, new_span)
        if self._head not in new_words:
            raise ValueError(f"Head {self._head} is not within the span {new_span}")
        self._words = new_words
""")]
DEMO = '''
from udapi.core.document import Document
d = Document()
t = d.create_bundle().create_tree()
a = t.create_child(form="a")
b = t.create_child(form="b")
d._eid_to_entity = {}
e = d.create_coref_entity("e1")
m = e.create_mention(words=[a])
m.span = "1-2"
assert b.coref_mentions == [m]
'''
