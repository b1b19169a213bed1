PROPERTY = "C02"
NEEDS = "A callback that sends the next command, as a caller that keeps the queue full does, with the queue full (or with the freed index coming up again)."
BREAKS = "The slot of a handled completion is freed only after its callback has run: the callback's own send is refused."
EDITS = [("__init__.py", '''        request, callback = self.pending_packets.pop(packet_id, (None, None))
''', '''        request, callback = self.pending_packets.get(packet_id, (None, None))
'''), ("__init__.py", '''        yield True

    def _get_os_data''', '''        self.pending_packets.pop(packet_id)
        yield True

    def _get_os_data''')]
HELPERS = ["fakesg.py"]
DEMO = '''
import sys
from infi.asi import CommandExecuterBase, SCSIReadCommand
from infi.asi.coroutines.sync_adapter import sync_wait

class Executer(CommandExecuterBase):
    queue = []
    def _os_prepare_to_send(self, command, packet_index):
        return (command, packet_index)
    def _os_send(self, os_data):
        self.queue.append(os_data)
        yield None
    def _os_receive(self):
        command, index = self.queue.pop(0)
        yield (command.command, index)

e = Executer(1)
done = []
def callback(data, error):
    done.append(data)
    if len(done) < 4:
        sync_wait(e.send(SCSIReadCommand(b"%d" % len(done), 0), callback))
sync_wait(e.send(SCSIReadCommand(b"0", 0), callback))
try:
    sync_wait(e.wait())
except Exception as error:
    sys.exit("a callback could not send the next command: %r" % error)
if done != [b"0", b"1", b"2", b"3"]:
    sys.exit(repr(done))
'''
HELPERS = []
