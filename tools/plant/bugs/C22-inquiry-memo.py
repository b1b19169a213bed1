PROPERTY = "C22"
NEEDS = "Two callers get the same INQUIRY data, and one of them changes the object it got."
BREAKS = "Decoded INQUIRY data are kept by content and handed to everybody: what one caller writes on its result, others read as the device's identity."
EDITS = [("cdb/inquiry/__init__.py", "        result = self.result_class()\n        result.unpack(result_datagram)\n        yield result\n",
 "        key = (self.result_class, bytes(result_datagram))\n        if key not in _decoded:\n            if len(_decoded) >= 16:\n                _decoded.clear()\n"
 "            result = self.result_class()\n            result.unpack(result_datagram)\n            _decoded[key] = result\n        yield _decoded[key]\n"),
 ("cdb/inquiry/__init__.py", "# spc4r30: 6.4.1 (page 259)\n", "_decoded = {}    # paths to the same device answer alike\n\n\n# spc4r30: 6.4.1 (page 259)\n")]
HELPERS = ["fakedev.py"]
DEMO = '''
import sys
from fakedev import Recorder, run
from infi.asi.cdb.inquiry.standard import StandardInquiryCommand
data = bytes([0, 0, 6, 2, 31, 0, 0, 0]) + b"VENDOR  " + b"PRODUCT         " + b"1.0 "
first = run(StandardInquiryCommand(), Recorder(data))
first.product_identification = first.product_identification.lower()
second = run(StandardInquiryCommand(), Recorder(data))
if second.product_identification.strip() != "PRODUCT":
    sys.exit("the device is said to be a %r" % second.product_identification)
'''
