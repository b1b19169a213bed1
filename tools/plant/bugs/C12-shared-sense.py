PROPERTY = "C12"
NEEDS = "Two greenlets (or threads) with a handle each: one yields after reading its CHECK CONDITION, the other collects one of its own before the first looks at its sense buffer."
BREAKS = "All requests share one sense buffer, so a check condition carries the sense bytes of another command."
EDITS = [("linux.py", "        self.sense_buffer = create_string_buffer(SENSE_SIZE)\n        self.sbp = cast(self.sense_buffer, c_void_p)\n        self.mx_sb_len = sizeof(self.sense_buffer)",
"        self.sbp = cast(SENSE_BUFFER, c_void_p)\n        self.mx_sb_len = sizeof(SENSE_BUFFER)"),
("linux.py", "SENSE_SIZE = 0xFF\n", "SENSE_SIZE = 0xFF\nSENSE_BUFFER = create_string_buffer(SENSE_SIZE)    # sense data is copied as soon as it arrives\n")]
DEMO = '''
import sys
from fakesg import FakeSg, fixed_sense
import infi.asi
from infi.asi import SCSIReadCommand
from infi.asi.errors import AsiCheckConditionError
from infi.asi.linux import LinuxCommandExecuter
from infi.asi.coroutines.sync_adapter import sync_wait

def device(cdb, hdr, out):
    return dict(status=2, sense=fixed_sense(5, 0x24, cdb[4]))

def call(i):
    e = LinuxCommandExecuter(FakeSg(device))
    try:
        sync_wait(e.call(SCSIReadCommand(bytes([0x12, 0, 0, 0, i, 0]), 8)))
    except AsiCheckConditionError as error:
        return error.sense_buffer[13]

nested = []
def other_greenlet(*args):
    # what another greenlet does while this one yields after its I/O
    if not nested:
        nested.append(1)
        call(77)
        nested.pop()
infi.asi._gevent_friendly_sleep = other_greenlet
got = [call(i) for i in range(1, 4)]
if got != [1, 2, 3]:
    print("sense of another command: %r" % (got,))
    sys.exit(1)
'''
CHECKS = ["C12", "C04", "C13"]
