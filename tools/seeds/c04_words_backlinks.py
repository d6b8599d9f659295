PROPERTY = 'C04'
NEEDS = 'setting the words of a mention to words that do not include its head'
BREAKS = 'links from the old words are already removed when the error is raised'
EDITS = [('udapi/core/coref.py', """        if new_words and self.head not in new_words:
            raise ValueError(f"Head {self.head} not in new_words {new_words} for {self._entity.eid}")
        kept_words = []
""", """        kept_words = []
"""), ('udapi/core/coref.py', """                old_word._mentions.remove(self)
        self._words = new_words
        for new_word in new_words:
""", """                old_word._mentions.remove(self)
        if new_words and self.head not in new_words:
            raise ValueError(f"Head {self.head} not in new_words {new_words} for {self._entity.eid}")
        self._words = new_words
        for new_word in new_words:
""")]
DEMO = '''
import sys
from udapi.core.document import Document
d = Document()
t = d.create_bundle().create_tree("")
n = [t.create_child(form=str(i)) for i in range(4)]
e = d.create_coref_entity()
m = e.create_mention(head=n[0], words=n[:2])
try:
    m.words = n[2:]
except ValueError:
    pass
if n[1].coref_mentions != [m]:
    sys.exit("the word lost its mention")
'''
