PROPERTY = 'C23'
NEEDS = 'two documents in one process, meta data set in the first one'
BREAKS = 'all documents created without meta share one dictionary'
EDITS = [('udapi/core/document.py', """    def __init__(self, filename=None, **kwargs):
""", """    def __init__(self, filename=None, meta={}, **kwargs):
"""), ('udapi/core/document.py', """        self.meta = {}
""", """        self.meta = meta
""")]
DEMO = '''
from udapi.core.document import Document
a = Document()
a.meta["docname"] = "a"
assert "docname" not in Document().meta
'''
