PROPERTY = 'C02'
NEEDS = 'assigning the string of enhanced dependencies of a node whose (empty) list of dependencies was looked at before'
BREAKS = 'the list of dependencies stays empty and the assigned string is lost when the node is written'
EDITS = [('udapi/core/node.py', """        self._raw_deps = value
        self._deps = None

    @property
    def deps(self):""", """        self._raw_deps = value
        if self._deps:
            self._deps = None

    @property
    def deps(self):""")]
DEMO = '''
from udapi.core.root import Root
r = Root()
a, b = [r.create_child(form=x) for x in "ab"]
assert a.deps == []
a.raw_deps = '2:nsubj'
assert [d['parent'] for d in a.deps] == [b], a.deps
assert a.raw_deps == '2:nsubj'
'''
