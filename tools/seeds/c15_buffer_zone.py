PROPERTY = 'C15'
NEEDS = 'two readers of two zones, both with bundles_per_doc'
BREAKS = 'the sentence buffered by the second reader is lost at the beginning of every further document'
EDITS = [('udapi/core/basereader.py', """            if self._buffer:
                root = self._buffer
""", """            if self._buffer and not orig_bundles:
                root = self._buffer
""")]
DEMO = '''
import io
from udapi.core.document import Document
from udapi.block.read.conllu import Conllu

def reader(zone):
    text = "".join("# sent_id = s%d/%s\\n1\\t%s%d\\t_\\t_\\t_\\t_\\t0\\t_\\t_\\t_\\n\\n" % (i, zone, zone, i) for i in range(4))
    r = Conllu(bundles_per_doc=1)
    r.files.filehandle = io.StringIO(text)
    return r

a, b = reader("en"), reader("cs")
seen = []
while not (a.finished and b.finished) and len(seen) < 50:
    d = Document()
    a.apply_on_document(d)
    b.apply_on_document(d)
    seen += [n.form for n in d.nodes]
assert sorted(seen) == sorted(z + str(i) for z in ("en", "cs") for i in range(4)), seen
'''
