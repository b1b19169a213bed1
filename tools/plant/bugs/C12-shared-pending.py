PROPERTY = "C12"
NEEDS = "Two executers with commands outstanding at the same time (send, or two threads); one at a time never shows it."
BREAKS = "The table of outstanding commands is shared by all executers: a completion on one handle completes a command of another."
EDITS = [("__init__.py", "class CommandExecuterBase(CommandExecuter):\n    def __init__(self, max_queue_size=DEFAULT_MAX_QUEUE_SIZE):\n        self.pending_packets = dict()\n",
 "class CommandExecuterBase(CommandExecuter):\n    pending_packets = dict()\n\n    def __init__(self, max_queue_size=DEFAULT_MAX_QUEUE_SIZE):\n")]
DEMO = '''
import sys
from fakesg import FakeSg
from infi.asi import SCSIReadCommand
from infi.asi.linux import LinuxCommandExecuter
from infi.asi.coroutines.sync_adapter import sync_wait

got = {}
executers = {}
for name in "ab":
    e = executers[name] = LinuxCommandExecuter(FakeSg(lambda cdb, hdr, out, name=name: dict(data=name.encode() * 8)))
for name, e in executers.items():
    sync_wait(e.send(SCSIReadCommand(b"\\x12\\0\\0\\0\\x08\\0", 8), lambda data, error, name=name: got.setdefault(name, []).append((data, error))))
for name, e in executers.items():
    sync_wait(e.wait())
if got != {"a": [(b"aaaaaaaa", None)], "b": [(b"bbbbbbbb", None)]}:
    print("wrong completions: %r" % (got,))
    sys.exit(1)
'''
