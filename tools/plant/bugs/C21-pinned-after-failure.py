PROPERTY = "C21"
NEEDS = "Commands that end with a check condition or another failure; successful ones are released."
BREAKS = "The buffers given to the sg driver are pinned so that it can fill them, and unpinned only when a response is good: those of failed commands stay."
EDITS = [("linux.py", "        sgio.flags = SG_FLAG_DIRECT_IO\n        return sgio\n", "        sgio.flags = SG_FLAG_DIRECT_IO\n        _pinned[sgio.cmdp] = sgio\n        return sgio\n"),
 ("linux.py", "class SGIO(Structure):\n", "_pinned = {}    # the driver writes to these\n\n\nclass SGIO(Structure):\n"),
 ("linux.py", "            data = request_sgio.data_buffer.raw\n\n        return (data, packet_id)", "            data = request_sgio.data_buffer.raw\n\n        _pinned.pop(response_sgio.cmdp, None)\n        return (data, packet_id)")]
DEMO = '''
import gc
import sys
import weakref
import infi.asi.linux as linux
from fakesg import FakeSg, fixed_sense
from infi.asi import SCSIReadCommand
from infi.asi.errors import AsiException
from infi.asi.coroutines.sync_adapter import sync_wait

alive = []
create = linux.create_string_buffer
def create_string_buffer(*args):
    result = create(*args)
    alive.append(weakref.ref(result))
    return result
linux.create_string_buffer = create_string_buffer

executer = linux.LinuxCommandExecuter(FakeSg(lambda cdb, hdr, out: dict(status=8)))
for n in range(60):
    try:
        sync_wait(executer.call(SCSIReadCommand(b"\\x12\\0\\0\\0\\x08\\0", 8)))
        sys.exit(2)
    except AsiException:
        pass
for _ in range(3):
    gc.collect()
kept = sum(1 for r in alive if r() is not None)
if kept > 60:
    print("%d of %d buffers are still there" % (kept, len(alive)))
    sys.exit(1)
'''
