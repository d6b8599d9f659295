PROPERTY = 'C21'
EDITS = [('udapi/block/util/eval.py', "if self.bundle or self.before_bundle or self.after_bundle or self.tree or", "if self.bundle or self.before_bundle or self.tree or")]
BREAKS = 'util.Eval after_bundle=... alone does nothing'
NEEDS = 'util.Eval with after_bundle and no other code for bundles, trees or nodes'
DEMO = '''
import contextlib, io
from udapi.core.document import Document
from udapi.block.util.eval import Eval

d = Document()
d.create_bundle()
d.create_bundle()
out = io.StringIO()
with contextlib.redirect_stdout(out):
    Eval(after_bundle='print(bundle.bundle_id)').run(d)
assert out.getvalue() == '1\\n2\\n', out.getvalue()
'''
