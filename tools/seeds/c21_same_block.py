PROPERTY = 'C21'
EDITS = [('udapi/core/run.py', "        kwargs = block_args[block_id]", "        kwargs = block_args[block_names.index(block_name)]")]
BREAKS = 'each block gets the parameters of the first block with the same name'
NEEDS = 'a scenario that uses the same block twice with different parameters'
DEMO = '''
import contextlib, io
from udapi.core.run import Run

class Args:
    scenario = ['read.Sentences', 'files=IN', 'util.Eval', 'end=print("first")', 'util.Eval', 'end=print("second")']

import os, tempfile
with tempfile.TemporaryDirectory() as d:
    name = os.path.join(d, 'in.txt')
    with open(name, 'w') as f:
        f.write('a\\n')
    Args.scenario[1] = 'files=' + name
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        Run(Args).execute()
assert out.getvalue() == 'first\\nsecond\\n', out.getvalue()
'''
