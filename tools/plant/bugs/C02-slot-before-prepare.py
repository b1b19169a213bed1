PROPERTY = "C02"
NEEDS = "A command that cannot be prepared (too long a CDB, no memory for its buffer), and then as many again as the queue has slots."
BREAKS = "Its slot stays taken: the executer ends up refusing every command, and wait() never returns."
EDITS = [("__init__.py", '''        os_data = self._os_prepare_to_send(command, packet_index)

        self.pending_packets[packet_index] = (os_data, callback)
''', '''        self.pending_packets[packet_index] = (None, callback)
        os_data = self._os_prepare_to_send(command, packet_index)
        self.pending_packets[packet_index] = (os_data, callback)
''')]
HELPERS = ["fakesg.py"]
DEMO = '''
import sys
from fakesg import FakeSg
from infi.asi import SCSIReadCommand
from infi.asi.linux import LinuxCommandExecuter
from infi.asi.coroutines.sync_adapter import sync_wait

e = LinuxCommandExecuter(FakeSg(lambda cdb, hdr, out: dict(data=b"a" * 8)), 2)
for i in range(4):
    try:
        sync_wait(e.call(SCSIReadCommand(b"x" * 300, 8)))
    except ValueError:
        pass
if sync_wait(e.call(SCSIReadCommand(b"\\x12\\0\\0\\0\\x08\\0", 8))) != b"a" * 8:
    sys.exit("wrong data")
'''
