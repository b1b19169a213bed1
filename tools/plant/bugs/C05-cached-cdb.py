PROPERTY = "C05"
NEEDS = "A command object that is executed, then changed (its address, for example), then executed again."
BREAKS = "The CDB is built once and kept, so the second execution reads or writes the first execution's blocks."
EDITS = [("cdb/__init__.py", '''        return type(self).write_to_string(self)
''', '''        if getattr(self, "_datagram", None) is None:
            self._datagram = type(self).write_to_string(self)
        return self._datagram
''')]
HELPERS = ["fakedev.py"]
DEMO = '''
import sys
from fakedev import Recorder, run
from infi.asi.cdb.read import Read10Command

dev = Recorder(b"a" * 512, b"b" * 512)
command = Read10Command(3, 1)
run(command, dev)
command.logical_block_address = 7
run(command, dev)
addresses = [int.from_bytes(c.command[2:6], "big") for c in dev.commands]
if addresses != [3, 7]:
    sys.exit("read blocks %r instead of 3 and 7" % addresses)
'''
