PROPERTY = "C14"
NEEDS = "Commands that take longer than 30 ms."
BREAKS = "The wait for them gives up with an error after 30 ms in place of 30 s, with their I/O still in flight."
EDITS = [("win32.py", "byref(c_buffer(event_array)), False, DEFAULT_TIMEOUT)", "byref(c_buffer(event_array)), False, DEFAULT_TIMEOUT_IN_SEC)"),
         ("win32.py", "def WaitForMultipleObjects(events):\n    from struct import pack\n", "def WaitForMultipleObjects(events):\n    from struct import pack\n    from . import DEFAULT_TIMEOUT_IN_SEC\n")]
HELPERS = ["fakewin.py"]
DEMO = '''
import sys
import fakewin
from infi.asi import win32

waited = []
def do_WaitForMultipleObjects(count, events, all, milliseconds):
    waited.append(milliseconds)
    return 0 if fakewin.value(milliseconds) >= 5000 else 258      # the I/O takes 5 s
fakewin.do_WaitForMultipleObjects = do_WaitForMultipleObjects
class Token(win32.WinAsyncIOToken):
    def __init__(self):
        self.event = 4
    def get_result(self, block=False):
        return 7
def command():
    yield (yield Token())
try:
    results = win32.Win32AsyncReactor().wait_for(command())
except Exception as e:
    sys.exit("%r after waiting for %r ms" % (e, waited))
if results != [7]:
    sys.exit("results %r" % results)
'''
