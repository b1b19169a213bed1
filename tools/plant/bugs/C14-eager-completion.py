PROPERTY = "C14"
NEEDS = "Two commands whose I/O completes at different times."
BREAKS = "When one completes, the commands listed after it are taken for completed as well: they fail with ERROR_IO_INCOMPLETE while their I/O is in flight."
EDITS = [("win32.py", '''        command, coroutine = events[returned_event]
        coroutine.async_io_complete()
        return [command]
''', '''        # those before it in the list are known not to have completed; take all others at once
        completed = [events[event] for event in waited_events[returned_event_index:]]
        for command, coroutine in completed:
            coroutine.async_io_complete()
        return [command for command, coroutine in completed]
''')]
HELPERS = ["fakewin.py"]
DEMO = '''
import sys
import fakewin
from infi.asi import win32

class Token(win32.WinAsyncIOToken):
    def __init__(self, n):
        self.event = n
    def get_result(self, block=False):
        if self.event not in completed:
            raise win32.AsiWin32OSError(996, "GetOverlappedResult failed")
        return self.event
completed = []
def wait(events):
    completed.append(min(events))
    return events.index(min(events))
win32.WaitForMultipleObjects = wait
def command(n):
    value = yield Token(n)
    yield value * 10
try:
    results = win32.Win32AsyncReactor().wait_for(*[command(n) for n in (1, 2, 3)])
except Exception as e:
    sys.exit("failed: %r" % e)
if results != [10, 20, 30]:
    sys.exit("results %r" % results)
'''
