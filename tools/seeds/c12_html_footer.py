PROPERTY = 'C12'
NEEDS = 'write.SentencesHtml on a document without bundles, with an output file'
BREAKS = 'the inherited finishing method is not run, so the file is not closed and standard output not restored'
EDITS = [('udapi/block/write/treex.py', """        print("  </bundles>\\n</treex_document>\\n")
        super().after_process_document(doc)
""", """        print("  </bundles>\\n</treex_document>\\n")
        if doc.bundles:
            super().after_process_document(doc)
""")]
NEEDS = 'write.Treex on a document without bundles, with an output file'
DEMO = '''
import os, sys, tempfile
from udapi.core.document import Document
from udapi.block.write.treex import Treex
before = sys.stdout
with tempfile.TemporaryDirectory() as d:
    Treex(files=os.path.join(d, "o.treex")).apply_on_document(Document())
ok = sys.stdout is before
sys.stdout = before
assert ok
'''
