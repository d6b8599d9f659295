PROPERTY = 'C14'
NEEDS = 'an input file that starts with a byte order mark'
BREAKS = 'the BOM is no longer skipped, so the first line of the file is misread'
EDITS = [('udapi/core/basereader.py', "bundles_per_doc=0, encoding='utf-8-sig',", "bundles_per_doc=0, encoding='utf-8',")]
DEMO = '''
import os, sys
from udapi.core.document import Document
path = os.path.join(os.environ["SCRATCH"], "a.conllu")
with open(path, "w", encoding="utf-8-sig") as fh:
    fh.write("# sent_id = a\\n1\\tx\\tx\\tX\\t_\\t_\\t0\\troot\\t_\\t_\\n\\n")
doc = Document()
try:
    doc.load_conllu(path)
except Exception as exc:
    sys.exit(repr(exc))
sys.exit(0 if doc.bundles[0].trees[0].sent_id == "a" else 1)
'''
