PROPERTY = 'C11'
NEEDS = 'an unknown parameter together with a non-default zones value'
BREAKS = 'a misspelt parameter is silently ignored when zones is restricted'
EDITS = [('udapi/core/block.py', "        if kwargs:\n", "        if kwargs and zones == 'all':\n")]
DEMO = '''
import sys
from udapi.core.block import Block
try:
    Block(zones="cs", if_empty_tre="skip")
except TypeError:
    sys.exit(0)
sys.exit("unknown parameter accepted")
'''
