PROPERTY = 'C18'
NEEDS = 'moving the only mention of an entity to another entity'
BREAKS = 'the original entity keeps listing a mention that now belongs to another entity'
EDITS = [('udapi/core/coref.py', """            original_entity._mentions.remove(self)
            if  not original_entity._mentions:
                logging.warning(f"Original entity {original_entity.eid} is now empty.")
""", """            if len(original_entity._mentions) > 1:
                original_entity._mentions.remove(self)
            else:
                logging.warning(f"Original entity {original_entity.eid} would be empty.")
""")]
DEMO = '''
from udapi.core.document import Document
d = Document()
t = d.create_bundle().create_tree()
a = t.create_child(form="a")
d._eid_to_entity = {}
e, g = d.create_coref_entity("e1"), d.create_coref_entity("e2")
m = e.create_mention(words=[a])
m.entity = g
assert g.mentions == [m]
assert e.mentions == []
'''
