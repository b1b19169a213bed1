PROPERTY = "C11"
NEEDS = "A device with a 16 byte EUI-64 based designator."
BREAKS = "The identifier extension and company of a 16 byte EUI-64 designator are decoded as those of a 12 byte one."
EDITS = [("cdb/inquiry/vpd_pages/designators.py", "                   0x10: EUI64_16Byte_Designator\n", "                   0x10: EUI64_12Byte_Designator\n")]
HELPERS = []
DEMO = '''
import sys
from infi.asi.cdb.inquiry.vpd_pages.device_identification import DeviceIdentificationVPDPageBuffer as Page
body = bytes([1, 2, 0, 16]) + bytes(range(0x30, 0x40))
page = Page()
page.unpack(bytes([0, 0x83, 0, len(body)]) + body)
d = page.designators_list[0]
if getattr(d, "identifier_extension", None) != int.from_bytes(bytes(range(0x30, 0x38)), "big") or d.ieee_company != 0x38393a:
    sys.exit("decoded as %r" % d)
'''
