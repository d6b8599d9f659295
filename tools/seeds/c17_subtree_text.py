PROPERTY = 'C17'
NEEDS = 'drawing a subtree (not a whole tree) with write.TextModeTreesHtml, with a form containing "<"'
BREAKS = 'the text of a subtree is printed unescaped into the HTML'
EDITS = [('udapi/block/write/textmodetreeshtml.py', """            text = "# text = " + (root.get_sentence() if root.is_root() else root.compute_text())
            print(escape(text))
""", """            text = escape(root.get_sentence()) if root.is_root() else root.compute_text()
            print("# text = " + text)
""")]
DEMO = '''
import io, contextlib
from udapi.core.document import Document
from udapi.block.write.textmodetreeshtml import TextModeTreesHtml
doc = Document()
tree = doc.create_bundle().create_tree()
node = tree.create_child(form="a")
node.create_child(form="<script>")
out = io.StringIO()
with contextlib.redirect_stdout(out):
    TextModeTreesHtml(print_sent_id=False).process_tree(tree)
    TextModeTreesHtml(print_sent_id=False).process_tree(node)
assert "<script" not in out.getvalue(), out.getvalue()
'''
