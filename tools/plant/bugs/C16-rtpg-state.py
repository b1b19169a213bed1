PROPERTY = "C16"
NEEDS = "A target port group that is offline (14) or in transition (15)."
BREAKS = "Only three bits of the access state are read, so an offline group reads as standing by."
EDITS = [("cdb/rtpg.py", "    asymetric_access_state = be_int_field(where=bytes_ref[0].bits[0:4])\n", "    asymetric_access_state = be_int_field(where=bytes_ref[0].bits[0:3])\n")]
HELPERS = ["fakedev.py"]
DEMO = '''
import struct, sys
from fakedev import Recorder, run
from infi.asi.cdb.rtpg import RTPGCommand
for state in range(16):
    group = bytes([state | 0x80, 0xdf, 0, 7, 0, 2, 0, 1, 0, 0, 0, 1])
    r = run(RTPGCommand(), Recorder(struct.pack(">I", len(group)) + group))
    if r.descriptor_list[0].asymetric_access_state != state:
        sys.exit("state %d read as %d" % (state, r.descriptor_list[0].asymetric_access_state))
'''
