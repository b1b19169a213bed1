PROPERTY = "C20"
NEEDS = "Commands without data on Windows; commands that transfer something behave."
BREAKS = "A command without data is taken to be over at once, so no other greenlet has its turn after it: polling with TEST UNIT READY starves everybody."
EDITS = [("win32.py", "        yield gevent_friendly(self.io.ioctl)(IOCTL_SCSI",
 "        ioctl = gevent_friendly(self.io.ioctl) if os_data.DataTransferLength else self.io.ioctl\n        yield ioctl(IOCTL_SCSI")]
HELPERS = ["fakewin.py"]
DEMO = '''
import sys
import fakewin
import infi.asi as asi
from infi.asi import SCSIReadCommand, SCSIWriteCommand
from infi.asi.win32 import Win32CommandExecuter
from infi.asi.coroutines.sync_adapter import sync_wait

turns = []
asi._gevent_friendly_sleep = lambda *args, **kwargs: turns.append(1)

class Io(object):
    def ioctl(self, *args):
        return 1

executer = Win32CommandExecuter(Io())
commands = [SCSIReadCommand(b"\\x12\\0\\0\\0\\x08\\0", 8), SCSIWriteCommand(b"\\x2a" + b"\\0" * 9, b"x" * 512),
            SCSIReadCommand(b"\\0" * 6, 0), SCSIWriteCommand(b"\\x35" + b"\\0" * 9, b"")]
for n, command in enumerate(commands):
    sync_wait(executer.call(command))
    if len(turns) <= n:
        print("%d commands, %d turns for other greenlets" % (n + 1, len(turns)))
        sys.exit(1)
'''
