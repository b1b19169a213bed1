PROPERTY = "C07"
NEEDS = "Closing a Windows file a second time, after another one was opened and got the same handle."
BREAKS = "The second close() closes the handle again - by then someone else's."
EDITS = [("win32.py", '''            raise AsiWin32OSError(GetLastError(), "CloseHandle for path %s failed" % self.path)
        self.handle = -1
''', '''            self.handle = -1
            raise AsiWin32OSError(GetLastError(), "CloseHandle for path %s failed" % self.path)
''')]
HELPERS = ["fakewin.py"]
DEMO = '''
import sys
import fakewin
from infi.asi import win32

f = win32.Win32File(u"a")
handle = f.handle
f.close()
f.close()
closed = [h for name, h in fakewin.calls if name == "CloseHandle"]
if closed != [handle]:
    sys.exit("CloseHandle was called %d times for one file" % len(closed))
'''
