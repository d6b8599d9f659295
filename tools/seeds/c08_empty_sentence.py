PROPERTY = 'C08'
NEEDS = 'a sentence without words (Empty=Yes) that has an empty node'
BREAKS = 'the empty node is lost'
EDITS = [('udapi/block/read/conllu.py', """            nodes.pop()
            root._children = []
            root._descendants = []
""", """            nodes.pop()
            root._children = []
            root._descendants = []
            root.empty_nodes = []
""")]
DEMO = '''
from udapi.core.document import Document
text = """# sent_id = 1
# text = 
0.1\\ta\\t_\\t_\\t_\\t_\\t_\\t_\\t_\\t_
1\\t_\\t_\\t_\\t_\\t_\\t0\\t_\\t_\\tEmpty=Yes

"""
doc = Document()
doc.from_conllu_string(text)
assert "0.1\\ta" in doc.to_conllu_string(), doc.to_conllu_string()
'''
