PROPERTY = "C21"
NEEDS = "A process that opens and closes devices again and again."
BREAKS = "The executer of every handle ever opened is kept, with everything it refers to, after the handle is closed."
EDITS = [("__init__.py", "    return CommandExecuterForPlatform(*args, **kwargs)\n",
 "    executer = CommandExecuterForPlatform(*args, **kwargs)\n    _executers[id(executer.io)] = executer\n    return executer\n"),
 ("__init__.py", "def create_platform_command_executer(", "_executers = {}\n\ndef create_platform_command_executer(")]
DEMO = '''
import gc
import sys
import weakref
import infi.asi
from infi.asi import SCSIReadCommand, create_platform_command_executer
from fakesg import FakeSg
from infi.asi.coroutines.sync_adapter import sync_wait

alive = []
for n in range(60):
    io = FakeSg(lambda cdb, hdr, out: dict(data=b"12345678"))
    executer = create_platform_command_executer(io)
    sync_wait(executer.call(SCSIReadCommand(b"\\x12\\0\\0\\0\\x08\\0", 8)))
    io.close()
    alive.append(weakref.ref(executer))
    io = executer = None
for _ in range(3):
    gc.collect()
kept = sum(1 for r in alive if r() is not None)
if kept > 30:
    print("%d of %d executers are still there" % (kept, len(alive)))
    sys.exit(1)
'''
