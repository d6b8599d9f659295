PROPERTY = 'C06'
NEEDS = 'asking for the sentence of a tree without a stored text, editing the tree and asking again'
BREAKS = 'get_sentence stores the computed text in the tree, so a mere query changes the document and goes stale'
EDITS = [('udapi/core/root.py', """        if if_missing.endswith('detokenize'):
            return self.compute_text()
        return ''
""", """        if if_missing.endswith('detokenize'):
            self.text = self.compute_text()
            return self.text
        return ''
""")]
DEMO = '''
from udapi.core.root import Root
r = Root()
a = r.create_child(form="a")
assert r.get_sentence() == "a"
assert r.text is None
a.form = "b"
assert r.get_sentence() == "b"
'''
