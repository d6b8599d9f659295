PROPERTY = 'C17'
NEEDS = 'write.CorefHtml on a document with an entity id containing a quote, for the first mention of the entity'
BREAKS = 'a quote in an entity id ends the id attribute'
EDITS = [('udapi/block/write/corefhtml.py', """            span_id = f'id="{_dom_esc(e.eid)}" '
""", """            span_id = 'id="{}" '.format(e.eid)
""")]
DEMO = r'''
import io, contextlib, tempfile, os
from html.parser import HTMLParser
from udapi.core.document import Document
from udapi.block.write.corefhtml import CorefHtml
doc = Document()
tree = doc.create_bundle().create_tree(zone="en")
n1 = tree.create_child(form="A", upos="NOUN", deprel="root")
n2 = tree.create_child(form="B", upos="NOUN", deprel="dep")
e = doc.create_coref_entity(eid='e"><img/src')
e.create_mention(words=[n1], head=n1)
e.create_mention(words=[n2], head=n2)
out = io.StringIO()
with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(out):
    CorefHtml(docs_dir=d, show_trees=False).process_document(doc)
class P(HTMLParser):
    bad = []
    def handle_starttag(self, tag, attrs):
        if tag == "img":
            self.bad.append(tag)
p = P()
p.feed(out.getvalue())
assert not p.bad, p.bad
'''
