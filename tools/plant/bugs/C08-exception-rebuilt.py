PROPERTY = "C08"
NEEDS = "A coroutine that fails with an exception carrying more than its arguments, or whose arguments are not those of its constructor."
BREAKS = "The caller gets another exception than the one raised - without its attributes, or a TypeError in its place."
EDITS = [("coroutines/sync_adapter.py", '''            if len(self.stack) == 0:
                raise
''', '''            if len(self.stack) == 0:
                raise type(e)(*e.args)
''')]
HELPERS = []
DEMO = '''
import sys
from infi.asi.coroutines.sync_adapter import sync_wait

class Failure(Exception):
    pass
failure = Failure("a")
failure.sense = b"xyz"
def inner():
    yield 1
    raise failure
def outer():
    yield inner()
try:
    sync_wait(outer())
except Failure as e:
    if getattr(e, "sense", None) != b"xyz":
        sys.exit("another exception arrived: %r" % e)
else:
    sys.exit("no exception")
'''
