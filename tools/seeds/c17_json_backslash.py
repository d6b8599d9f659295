PROPERTY = 'C17'
NEEDS = 'write.Html on a node with a backslash at the end of an attribute value and no quote in it'
BREAKS = 'a backslash in a value swallows the closing quote of the JSON string'
EDITS = [('udapi/block/write/html.py', """        order, misc, form, lemma, upos, xpos, feats, deprel = [_esc(x) for x in values]
""", """        # escaping is needed only for values with quotes or tags
        order, misc, form, lemma, upos, xpos, feats, deprel = [_esc(x) if '"' in x or '<' in x else x for x in values]
""")]
DEMO = r'''
import io, contextlib, json
from udapi.core.document import Document
from udapi.block.write.html import Html
doc = Document()
tree = doc.create_bundle().create_tree(zone="en")
tree.create_child(form="C:\\", lemma="x", upos="X", xpos="X", deprel="root")
out = io.StringIO()
with contextlib.redirect_stdout(out):
    Html().print_doc_json(doc)
data = json.loads(out.getvalue())
assert data[0]["zones"]["en"]["trees"]["a"]["nodes"][1]["data"]["form"] == "C:\\"
'''
