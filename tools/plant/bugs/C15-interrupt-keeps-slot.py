PROPERTY = "C15"
NEEDS = "An interruption (KeyboardInterrupt, GreenletExit: not an Exception) while the command is being submitted."
BREAKS = "The slot of a command that never reached the device stays occupied, and wait() polls for a completion that cannot come."
EDITS = [("__init__.py", "        try:\n            yield self._os_send(os_data)\n        except:\n", "        try:\n            yield self._os_send(os_data)\n        except Exception:\n")]
DEMO = '''
import sys
from fakesg import FakeSg
from infi.asi import SCSIReadCommand
from infi.asi.linux import LinuxCommandExecuter
from infi.asi.coroutines.sync_adapter import sync_wait

class Interrupted(FakeSg):
    n = 0
    def write(self, raw):
        self.n += 1
        if self.n == 1:
            raise KeyboardInterrupt()
        return super(Interrupted, self).write(raw)

io = Interrupted(lambda cdb, hdr, out: dict(data=b"x" * 8))
e = LinuxCommandExecuter(io, max_queue_size=1)
cmd = SCSIReadCommand(b"\\x12\\0\\0\\0\\x08\\0", 8)
try:
    sync_wait(e.call(cmd))
    sys.exit("not interrupted")
except KeyboardInterrupt:
    pass
try:
    sync_wait(e.wait())
    data = sync_wait(e.call(cmd))
except Exception as error:
    print("after the interruption: %r" % (error,))
    sys.exit(1)
sys.exit(0 if data == b"x" * 8 else 1)
'''
