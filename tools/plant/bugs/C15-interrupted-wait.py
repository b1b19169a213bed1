PROPERTY = "C15"
NEEDS = "A greenlet timeout that fires while call() waits for its completion."
BREAKS = "When waiting is interrupted the queue is forgotten, so the late completion is taken for an unknown packet or, once the index is reused, for another command's."
EDITS = [("__init__.py", '''        while len(result) == 0:
            yield self._process_pending_response()

''', '''        try:
            while len(result) == 0:
                yield self._process_pending_response()
        except BaseException:
            # whoever waits for these is gone
            self.pending_packets.clear()
            raise

''')]
HELPERS = []
DEMO = '''
import sys
from infi.asi import CommandExecuterBase, SCSIReadCommand
from infi.asi.coroutines.sync_adapter import sync_wait

class Interrupted(BaseException):
    pass
class Executer(CommandExecuterBase):
    queue = []
    interrupt = False
    def _os_prepare_to_send(self, command, packet_index):
        return (command, packet_index)
    def _os_send(self, os_data):
        self.queue.append(os_data)
        yield None
    def _os_is_in_flight(self, os_data):
        return True
    def _os_receive(self):
        if self.interrupt:
            self.interrupt = False
            raise Interrupted()
        command, index = self.queue.pop(0)
        yield (command.command, index)

e = Executer(2)
e.interrupt = True
try:
    sync_wait(e.call(SCSIReadCommand(b"first", 0)))
    sys.exit("not interrupted")
except Interrupted:
    pass
for name in (b"second", b"third", b"fourth"):
    try:
        got = sync_wait(e.call(SCSIReadCommand(name, 0)))
    except Exception as error:
        sys.exit("%r after an interrupted command: %r" % (name, error))
    if got != name:
        sys.exit("%r got the result of %r" % (name, got))
'''
