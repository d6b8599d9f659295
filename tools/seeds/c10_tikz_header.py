PROPERTY = 'C10'
NEEDS = 'write.Tikz with print_preambule and an output file'
BREAKS = 'the preamble is printed to standard output instead of the file'
EDITS = [('udapi/block/write/tikz.py', """        super().before_process_document(doc)
        if self.print_preambule:
""", """        if self.print_preambule:
"""), ('udapi/block/write/tikz.py', """            print(r'\\begin{document}')

""", """            print(r'\\begin{document}')
        super().before_process_document(doc)

""")]
DEMO = '''
import os, tempfile
from udapi.core.document import Document
from udapi.block.write.tikz import Tikz
doc = Document()
doc.from_conllu_string("1\\tx\\tx\\tX\\t_\\t_\\t0\\troot\\t_\\t_\\n\\n")
with tempfile.TemporaryDirectory() as d:
    name = os.path.join(d, "o.tex")
    Tikz(files=name).run(doc)
    with open(name, encoding="utf-8") as fh:
        assert fh.read().startswith("\\\\documentclass")
'''
