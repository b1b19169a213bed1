PROPERTY = "C01"
NEEDS = "Several commands outstanding whose completions arrive in another order than they were sent."
BREAKS = "Completions are matched with commands in the order they were sent."
EDITS = [("__init__.py", "        result, packet_id = yield self._os_receive()\n", "        result, packet_id = yield self._os_receive()\n        packet_id = next(iter(self.pending_packets))    # first in, first out\n")]
HELPERS = []
DEMO = '''
import sys
from infi.asi import CommandExecuterBase, SCSIReadCommand
from infi.asi.coroutines.sync_adapter import sync_wait

class Executer(CommandExecuterBase):
    def __init__(self):
        super(Executer, self).__init__(4)
        self.queue = []
    def _os_prepare_to_send(self, command, packet_index):
        return (command, packet_index)
    def _os_send(self, os_data):
        self.queue.append(os_data)
        yield None
    def _os_receive(self):
        command, index = self.queue.pop()
        yield (command.command, index)

e, got = Executer(), {}
for name in (b"a", b"b", b"c"):
    sync_wait(e.send(SCSIReadCommand(name, 0), lambda data, error, name=name: got.__setitem__(name, data)))
sync_wait(e.wait())
if got != {b"a": b"a", b"b": b"b", b"c": b"c"}:
    sys.exit(repr(got))
'''
