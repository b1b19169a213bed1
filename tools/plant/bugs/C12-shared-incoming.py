PROPERTY = "C12"
NEEDS = "Two Windows executers, each with a command sent and not yet waited for."
BREAKS = "What one of them received is in a list that all of them share: the other takes it for its own."
EDITS = [("win32.py", '''class Win32CommandExecuter(CommandExecuterBase):
    def __init__(self, io, max_queue_size=DEFAULT_MAX_QUEUE_SIZE):
        super(Win32CommandExecuter, self).__init__(max_queue_size)
        self.io = io
        self.incoming_packets = []
''', '''class Win32CommandExecuter(CommandExecuterBase):
    incoming_packets = []

    def __init__(self, io, max_queue_size=DEFAULT_MAX_QUEUE_SIZE):
        super(Win32CommandExecuter, self).__init__(max_queue_size)
        self.io = io
''')]
HELPERS = ["fakewin.py"]
DEMO = '''
import sys
import fakewin
import ctypes
from infi.asi import SCSIReadCommand, win32
from infi.asi.coroutines.sync_adapter import sync_wait

class Io(object):
    def __init__(self, byte):
        self.byte = byte
    def ioctl(self, code, input, input_size, output=None, output_size=0):
        spt = win32.SCSIPassThroughDirect.from_buffer(input._obj)
        ctypes.memset(spt.DataBuffer, self.byte, spt.DataTransferLength)
        return output_size
got = {}
executers = [win32.Win32CommandExecuter(Io(n)) for n in (1, 2)]
for n, e in enumerate(executers):
    sync_wait(e.send(SCSIReadCommand(b"\\x12\\0\\0\\0\\x04\\0", 4), lambda data, error, n=n: got.setdefault(n, []).append((data, error))))
for e in executers:
    sync_wait(e.wait())
if got != {0: [(b"\\1" * 4, None)], 1: [(b"\\2" * 4, None)]}:
    sys.exit("completions %r" % got)
'''
