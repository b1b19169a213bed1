PROPERTY = "C12"
NEEDS = "Two threads that send commands through executers of their own; one loses the processor while it looks at a response it has read."
BREAKS = "All responses are parsed in one structure of the class: a thread sees the status, or the packet id, of the other's command."
EDITS = [("linux.py", '''        buf = create_string_buffer(string, len(string))
        sgio = SGIO.from_buffer(buf)
        sgio.source_buffer = buf
        return sgio

    @classmethod
    def sizeof(cls):
        return sizeof(cls)
''', '''        if SGIO.response is None:
            SGIO.response = SGIO()
        memmove(addressof(SGIO.response), string, len(string))
        return SGIO.response

    @classmethod
    def sizeof(cls):
        return sizeof(cls)

SGIO.response = None
''')]
HELPERS = ["fakesg.py"]
DEMO = '''
import sys, threading
from fakesg import FakeSg, fixed_sense
from infi.asi import SCSIReadCommand, linux
from infi.asi.coroutines.sync_adapter import sync_wait

good = FakeSg(lambda cdb, header, out: dict(data=b"good"))
bad = FakeSg(lambda cdb, header, out: dict(status=2, driver=8, sense=fixed_sense(5, 0x24, 0)))
def other():
    try:
        sync_wait(linux.LinuxCommandExecuter(bad).call(SCSIReadCommand(b"\\x12\\0\\0\\0\\x04\\0", 4)))
    except Exception:
        pass
class Executer(linux.LinuxCommandExecuter):
    def _get_os_data(self, packet_id):
        # the thread loses the processor here, and another one has a command of its own failed
        t = threading.Thread(target=other)
        t.start()
        t.join()
        return super(Executer, self)._get_os_data(packet_id)
data = sync_wait(Executer(good).call(SCSIReadCommand(b"\\x12\\0\\0\\0\\x04\\0", 4)))
if data != b"good":
    sys.exit("the command returned %r" % data)
'''
