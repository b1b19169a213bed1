PROPERTY = "C02"
NEEDS = "Asking is_queue_full() when exactly the maximum number of commands is outstanding."
BREAKS = "is_queue_full() says there is room when there is none, and the send that follows is refused."
EDITS = [("__init__.py", "        return len(self.pending_packets) >= self.max_queue_size\n", "        return len(self.pending_packets) > self.max_queue_size\n")]
HELPERS = []
DEMO = '''
import sys
from infi.asi import CommandExecuterBase, SCSIReadCommand
from infi.asi.coroutines.sync_adapter import sync_wait

class Executer(CommandExecuterBase):
    def _os_prepare_to_send(self, command, packet_index):
        return command
    def _os_send(self, os_data):
        yield None

e = Executer(3)
for i in range(3):
    if e.is_queue_full():
        sys.exit("full with %d" % i)
    sync_wait(e.send(SCSIReadCommand(b"x" * 6, 0)))
if not e.is_queue_full():
    sys.exit("says there is room with 3 of 3 outstanding")
'''
