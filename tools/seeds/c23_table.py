PROPERTY = 'C23'
NEEDS = 'two ud.cs.FixEdeprels blocks (or documents) in one process'
BREAKS = 'the exceptions collected in one run stay in the class-level table for all later runs'
EDITS = [('udapi/block/ud/cs/fixedeprels.py', """                for x in self.outermost:
                    exceptions = self.outermost[x]
""", """                for x in self.outermost:
                    exceptions = self.outermost[x]
                    if not exceptions:
                        exceptions.append(x + ':ins')
""")]
DEMO = '''
from udapi.core.document import Document
from udapi.block.ud.cs.fixedeprels import FixEdeprels
doc = Document()
doc.from_conllu_string("1\\tx\\tx\\tX\\t_\\t_\\t0\\troot\\t0:root\\t_\\n2\\ty\\ty\\tX\\t_\\t_\\t1\\tobl\\t1:obl:na\\t_\\n\\n")
before = {k: list(v) for k, v in FixEdeprels.outermost.items()}
FixEdeprels().run(doc)
assert FixEdeprels.outermost == before
'''
