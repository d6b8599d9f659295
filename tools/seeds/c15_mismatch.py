PROPERTY = 'C15'
NEEDS = 'a second reader whose sentence IDs differ from those of the bundles already there'
BREAKS = 'sentences with an unexpected ID are only warned about and then not added to any bundle'
EDITS = [('udapi/core/basereader.py', """                                            bundle.bundle_id, last_bundle_id)
                    else:
""", """                                            bundle.bundle_id, last_bundle_id)
                            if bundle.has_tree(root.zone):
                                continue
                            root._sent_id = None
                            if not bundle.trees or orig_bundles:
                                continue
                    else:
""")]
DEMO = '''
import io
from udapi.core.document import Document
from udapi.block.read.conllu import Conllu

def reader(zone, name):
    text = "".join("# sent_id = %s%d/%s\\n1\\t%s%d\\t_\\t_\\t_\\t_\\t0\\t_\\t_\\t_\\n\\n" % (name, i, zone, zone, i) for i in range(3))
    r = Conllu(sent_id_filter="[ab]")
    r.files.filehandle = io.StringIO(text)
    return r

d = Document()
reader("en", "a").apply_on_document(d)
reader("cs", "b").apply_on_document(d)
forms = sorted(n.form for n in d.nodes)
assert forms == sorted(z + str(i) for z in ("en", "cs") for i in range(3)), forms
'''
