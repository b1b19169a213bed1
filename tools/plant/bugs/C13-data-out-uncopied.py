PROPERTY = "C13"
NEEDS = "A command whose data are changed, or garbage collected, between its submission and its completion."
BREAKS = "The data buffer given to Windows is not kept alive: the structure only remembers its address."
EDITS = [("win32.py", '''            self.data_buffer = buf
            self.DataBuffer = cast(self.data_buffer, c_void_p)
            self.DataTransferLength = sizeof(self.data_buffer)
''', '''            self.DataBuffer = addressof(buf)
            self.DataTransferLength = sizeof(buf)
            if self.DataIn == SCSI_IOCTL_DATA_IN:
                self.data_buffer = buf
''')]
HELPERS = ["fakewin.py"]
DEMO = '''
import ctypes, gc, sys
import fakewin
from infi.asi import win32
from infi.asi import SCSIWriteCommand

freed = []
original = win32.create_string_buffer
kept = []
class Watched(object):
    pass
import weakref
def create(*args):
    buf = original(*args)
    try:
        kept.append(weakref.ref(buf))
    except TypeError:
        sys.exit(0)
    return buf
win32.create_string_buffer = create
spt = win32.SCSIPassThroughDirect.create(0, SCSIWriteCommand(b"x" * 10, b"data" * 1000))
for i in range(3):
    gc.collect()
alive = [r() for r in kept if r() is not None and ctypes.sizeof(r()) == 4000]
if not alive:
    sys.exit("the data buffer is garbage while the command is in flight")
'''
