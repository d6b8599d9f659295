PROPERTY = 'C12'
NEEDS = 'a scenario without a reader and a writer or block relying on process_start'
BREAKS = 'process_start is not run when there is no reader in the scenario... '
EDITS = [('udapi/core/run.py', """        # Initialize blocks (process_start).
        for _, block, _ in blocks:
            block.process_start()

""", ""), ('udapi/core/run.py', """                readers.append(block)
            except AttributeError:
                pass
""", """                readers.append(block)
            except AttributeError:
                pass
        if readers:
            # Initialize blocks (process_start).
            for _, block, _ in blocks:
                block.process_start()
""")]
DEMO = '''
import io, sys
from udapi.core.run import Run
from udapi.core.block import Block
class B(Block):
    started = False
    def process_start(self):
        self.started = True
    def process_document(self, document):
        assert self.started
class Args:
    scenario = ["util.Eval"]
sys.stdin = io.TextIOWrapper(io.BytesIO(b""))
Run(Args()).run_blocks([("b", B(), {})])
'''
BREAKS = 'process_start is not run for scenarios that start without a reader'
