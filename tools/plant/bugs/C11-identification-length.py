PROPERTY = "C11"
NEEDS = "A device identification page of 256 bytes or more (it is cut at the allocation length of 252)."
BREAKS = "Only the low byte of its length is looked at, so most designators are lost."
EDITS = [("cdb/inquiry/vpd_pages/device_identification.py", "    page_length = be_uint_field(where=bytes_ref[2:4])\n", "    page_length = be_uint_field(where=bytes_ref[3])\n")]
HELPERS = ["fakedev.py"]
DEMO = '''
import sys
from fakedev import Recorder, run
from infi.asi.cdb.inquiry.vpd_pages import get_vpd_page
designator = bytes([0x01, 0x03, 0, 8]) + b"\\x50\\x01\\x02\\x03\\x04\\x05\\x06\\x07"
page = designator * 22
response = bytes([0, 0x83]) + len(page).to_bytes(2, "big") + page
r = run(get_vpd_page(0x83)(), Recorder(response[:252]))
if len(r.designators_list) < 20:
    sys.exit("20 whole designators were received, %d are reported" % len(r.designators_list))
'''
