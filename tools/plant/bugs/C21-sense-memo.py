PROPERTY = "C21"
NEEDS = "A long history of check conditions whose sense data differ (an information field, a counter)."
BREAKS = "Every decoded sense is kept for ever, with the bytes it was decoded from."
EDITS = [("__init__.py", "class CommandExecuterBase(CommandExecuter):\n", "_decoded_sense = {}\n\nclass CommandExecuterBase(CommandExecuter):\n"),
 ("__init__.py", "        return AsiCheckConditionError(buf, sense)\n", "        return AsiCheckConditionError(buf, _decoded_sense.setdefault(buf, sense))\n")]
DEMO = '''
import gc
import sys
import weakref
from fakesg import FakeSg, fixed_sense
from infi.asi import SCSIReadCommand
from infi.asi.errors import AsiCheckConditionError
from infi.asi.linux import LinuxCommandExecuter
from infi.asi.coroutines.sync_adapter import sync_wait

count = [0]
def device(cdb, hdr, out):
    count[0] += 1
    sense = fixed_sense(3, 0x11, 0)
    return dict(status=2, sense=sense[:3] + count[0].to_bytes(4, "big") + sense[7:])

executer = LinuxCommandExecuter(FakeSg(device))
alive = []
for n in range(60):
    try:
        sync_wait(executer.call(SCSIReadCommand(b"\\x12\\0\\0\\0\\x08\\0", 8)))
        sys.exit(2)
    except AsiCheckConditionError as error:
        alive.append(weakref.ref(error.sense_obj))
        error = None
for _ in range(3):
    gc.collect()
kept = sum(1 for r in alive if r() is not None)
if kept > 30:
    print("%d of %d sense objects are still there" % (kept, len(alive)))
    sys.exit(1)
'''
