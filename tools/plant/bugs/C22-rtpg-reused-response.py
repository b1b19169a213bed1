PROPERTY = "C22"
NEEDS = "The same command object executed again while the first result is still in use."
BREAKS = "The response object belongs to the command, so executing it again rewrites the result of the first execution."
EDITS = [("cdb/rtpg.py", "            response = TargetPortGroupLengthOnlyResponse()\n", "            response = self.response\n"),
 ("cdb/rtpg.py", "            response=TargetPortGroupExtendedResponse()\n", "            response = self.response\n"),
 ("cdb/rtpg.py", "        assert parameter_data_format in (0,1),\"wrong parameter_data_format value {}\".format(parameter_data_format)\n",
  "        assert parameter_data_format in (0,1),\"wrong parameter_data_format value {}\".format(parameter_data_format)\n"
  "        self.response = (TargetPortGroupExtendedResponse if parameter_data_format else TargetPortGroupLengthOnlyResponse)()\n")]
HELPERS = ["fakedev.py"]
DEMO = '''
import struct, sys
from fakedev import Recorder, run
from infi.asi.cdb.rtpg import RTPGCommand
groups = [bytes([state | 0x80, 0xdf, 0, 7, 0, 2, 0, 1, 0, 0, 0, 1]) for state in (0, 1)]
for fmt in (0, 1):
    replies = [struct.pack(">I", len(g) + (4 if fmt else 0)) + (bytes([0x10, 0, 0, 0]) if fmt else b"") + g for g in groups]
    command = RTPGCommand(fmt)
    device = Recorder(*replies)
    before = run(command, device)
    after = run(command, device)
    states = [r.descriptor_list[0].asymetric_access_state for r in (before, after)]
    if states != [0, 1]:
        sys.exit("the states are reported as %r" % states)
'''
