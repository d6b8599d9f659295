PROPERTY = 'C24'
EDITS = [('udapi/block/write/html.py', "        rbrother = next((n for n in node.parent.children if node.precedes(n)), None)", "        rbrother = next((n for n in node.parent.children if node.precedes(n) and n.ord < len(node.parent.descendants)), None) \\\n            if node.parent.is_root() and len(node.parent.children) > 2 else next((n for n in node.parent.children if node.precedes(n)), None)")]
BREAKS = 'the last of three words that hang on the root is not among the nodes that the browser reaches'
NEEDS = 'at least three words attached to the technical root, the last one a leaf at the end of the sentence'
DEMO = '''
import contextlib, io, json, re
from udapi.core.document import Document
from udapi.block.write.html import Html

d = Document()
root = d.create_bundle().create_tree()
for form in 'abc':
    root.create_child(form=form)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    Html().run(d)
data = json.loads(re.search(r'data=(.*?)\\n;\\n', out.getvalue(), re.S).group(1))
nodes = data[0]['zones']['']['trees']['a']['nodes']
assert [n.get('rbrother') for n in nodes] == [None, nodes[2]['id'], nodes[3]['id'], None], nodes
'''
