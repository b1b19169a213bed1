PROPERTY = "C10"
NEEDS = "A registration through a target port whose relative identifier is above 255."
BREAKS = "The full status reports another target port for it."
EDITS = [("cdb/persist/input.py", "    relative_target_port_identifier = be_uint_field(where=bytes_ref[18:20])\n", "    relative_target_port_identifier = be_uint_field(where=bytes_ref[19])\n")]
HELPERS = ["fakedev.py"]
DEMO = '''
import struct, sys
from fakedev import Recorder, run
from infi.asi.cdb.persist.input import PersistentReserveInCommand
for port in (1, 255, 256, 0x1234):
    d = struct.pack(">Q4xBBxxxxHI", 77, 1, 5, port, 24) + b"\\x05" + b"i" * 23
    r = run(PersistentReserveInCommand(3, 4096), Recorder(struct.pack(">II", 3, len(d)) + d))
    if r.full_status_descriptors[0].relative_target_port_identifier != port:
        sys.exit("port %d reported as %d" % (port, r.full_status_descriptors[0].relative_target_port_identifier))
'''
