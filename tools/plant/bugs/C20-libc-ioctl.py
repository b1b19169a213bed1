PROPERTY = "C20"
NEEDS = "AIX with a 64 bit libc that ctypes can load; with fcntl's ioctl nothing is wrong."
BREAKS = "The ioctl that reaches the AIX disk driver through libc is not followed by a turn for other greenlets."
EDITS = [("aix.py", "            ioctl = gevent_friendly(get_ioctl_function())\n            ioctl(",
 "            ioctl = get_ioctl_function()\n            ioctl(")
 , ("aix.py", "        return fcntl.ioctl\n", "        return gevent_friendly(fcntl.ioctl)\n")]
DEMO = '''
import ctypes
import sys
import types
import infi.asi as asi
from infi.asi import SCSIReadCommand, aix
from infi.asi.coroutines.sync_adapter import sync_wait

turns = []
asi._gevent_friendly_sleep = lambda *args, **kwargs: turns.append(1)

class Io(object):
    fd = 9
    def lun_and_scsi_id(self): return 0, 0
    lun = scsi_id = 0

class Ioctl(object):
    def __call__(self, *args):
        return 0

class Libc(object):
    ioctl = Ioctl()

ctypes.CDLL = lambda *args, **kwargs: Libc()
executer = aix.AixCommandExecuter(Io())
for n in range(5):
    sync_wait(executer.call(SCSIReadCommand(b"\\x12\\0\\0\\0\\x08\\0", 8)))
    if len(turns) <= n:
        print("%d commands, %d turns for other greenlets" % (n + 1, len(turns)))
        sys.exit(1)
'''
