PROPERTY = 'C11'
NEEDS = 'a zone restriction (or a misspelt parameter) given to util.Mark'
BREAKS = 'zones= and unknown parameters of the block are silently swallowed'
EDITS = [('udapi/block/util/mark.py', "super().__init__(**kwargs)", "super().__init__()")]
DEMO = '''
import sys
from udapi.block.util.mark import Mark
try:
    Mark(node="True", nonsense=1)
except TypeError:
    sys.exit(0)
sys.exit("unknown parameter accepted")
'''
