PROPERTY = "C14"
NEEDS = "Several commands given to wait_for whose I/O completes in another order than that of the arguments."
BREAKS = "The results come in the order of completion, so each caller takes another command's result for its own."
EDITS = [("win32.py", '''        results = []
        for command in commands:
            results.append(results_dict[command])
        return results
''', '''        return [results_dict[command] for command in results_dict if command in commands]
''')]
HELPERS = ["fakewin.py"]
DEMO = '''
import sys
import fakewin
from infi.asi import win32

class Token(win32.WinAsyncIOToken):
    def __init__(self, n):
        self.event = n
    def get_result(self, block=False):
        return self.event
def wait(events):
    return events.index(max(events))      # completes last to first
win32.WaitForMultipleObjects = wait
def command(n):
    value = yield Token(n)
    yield value * 10
results = win32.Win32AsyncReactor().wait_for(*[command(n) for n in (1, 2, 3)])
if results != [10, 20, 30]:
    sys.exit("results %r" % results)
'''
