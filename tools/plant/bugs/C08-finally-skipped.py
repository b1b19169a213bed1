PROPERTY = "C08"
NEEDS = "An exception that is not an Exception (KeyboardInterrupt, gevent's Timeout or GreenletExit) in a nested coroutine whose caller has a handler or finally block."
BREAKS = "The exception leaves the engine at once: handlers and finally blocks of the calling coroutines do not run."
EDITS = [("coroutines/sync_adapter.py", "        except BaseException as e:\n            self.stack.pop()\n", "        except Exception as e:\n            self.stack.pop()\n")]
HELPERS = []
DEMO = '''
import sys, gc
from infi.asi.coroutines.sync_adapter import sync_wait
log = []
def inner():
    yield 1
    raise KeyboardInterrupt()
def outer():
    try:
        yield inner()
    except KeyboardInterrupt:
        log.append("handled")
        yield 7
try:
    result = sync_wait(outer())
except KeyboardInterrupt:
    result = "raised"
if (result, log) != (7, ["handled"]):
    print("handler skipped: %r %r" % (result, log))
    sys.exit(1)
'''
