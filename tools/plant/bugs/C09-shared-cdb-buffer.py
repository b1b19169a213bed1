PROPERTY = "C09"
NEEDS = "Two commands of the same class and CDB length built before either runs (as when they are queued), on Linux."
BREAKS = "CDB buffers are kept per length and overwritten by the next command, so a command still in the queue is submitted with the other's CDB."
EDITS = [("linux.py", '''        self.command_buffer = create_string_buffer(command, len(command))
''', '''        self.command_buffer = _command_buffers.setdefault(len(command), create_string_buffer(len(command)))
        self.command_buffer.raw = command
'''), ("linux.py", '''SENSE_SIZE = 0xFF

''', '''SENSE_SIZE = 0xFF

_command_buffers = {}

''')]
HELPERS = []
DEMO = '''
import sys
from ctypes import string_at
from infi.asi.linux import SGIO
from infi.asi import SCSIReadCommand
a = SGIO.create(0, SCSIReadCommand(b"aaaaaa", 512))
b = SGIO.create(1, SCSIReadCommand(b"bbbbbb", 512))
got = string_at(a.cmdp, 6), string_at(b.cmdp, 6)
if got != (b"aaaaaa", b"bbbbbb"):
    sys.exit("CDBs at submission: %r" % (got,))
'''
