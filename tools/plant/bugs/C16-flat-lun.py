PROPERTY = "C16"
NEEDS = "A device that reports LUNs in flat space addressing (method 01b)."
BREAKS = "Flat space LUN numbers are taken for simple ones: they do not raise, and the number still has the method's bits in it."
EDITS = [("cdb/report_luns.py", "        if item & 0xC000000000000000: #", "        if item & 0x8000000000000000: #")]
HELPERS = ["fakedev.py"]
DEMO = '''
import struct, sys
from fakedev import Recorder, run
from infi.asi.cdb.report_luns import ReportLunsCommand, UnsupportedReportLuns
for lun in (0x4001, 0x8001, 0xC001):
    try:
        r = run(ReportLunsCommand(), Recorder(struct.pack(">II", 16, 0) + struct.pack(">QQ", 0, lun << 48)))
        sys.exit("LUN %x in an unsupported format gave %r" % (lun, r.lun_list))
    except UnsupportedReportLuns:
        pass
r = run(ReportLunsCommand(), Recorder(struct.pack(">II", 16, 0) + struct.pack(">QQ", 0, 5 << 48)))
if list(r.lun_list) != [0, 5]:
    sys.exit(repr(r.lun_list))
'''
