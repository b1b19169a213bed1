PROPERTY = "C17"
NEEDS = "An enclosure with subenclosures that have element types of their own."
BREAKS = "Only the primary enclosure's element types are taken; the subenclosures' types are lost and the texts are read from the wrong place."
EDITS = [("cdb/diagnostic/ses_pages/configuration.py", "        return sum(desc.type_descriptor_headers_num for desc in self.enclosure_descriptor_list)\n", "        return self.enclosure_descriptor_list[0].type_descriptor_headers_num\n")]
HELPERS = []
DEMO = '''
import sys
from infi.asi.cdb.diagnostic.ses_pages.configuration import ConfigurationDiagnosticPagesData as Page
def enclosure(i, types):
    return bytes([0x11, i, types, 36]) + b"IDENTIFY" + b"VENDOR  " + b"PRODUCT         " + b"REV "
headers = [(2, 1, 0, 4), (3, 2, 0, 3), (4, 3, 1, 5)]
texts = [b"psus", b"fan", b"temps"]
body = bytes([0, 0, 0, 9]) + enclosure(0, 2) + enclosure(1, 1) + b"".join(bytes(h) for h in headers) + b"".join(texts)
page = Page(None)
page.unpack(bytes([1, 1]) + len(body).to_bytes(2, "big") + body)
got = [(h.element_type, h.possible_elements_num, h.subenclosure_identifier) for h in page.type_descriptor_header_list]
if got != [h[:3] for h in headers] or [bytes(t) if not isinstance(t, str) else t.encode() for t in page.type_descriptor_text_list] != texts:
    sys.exit("types %r, texts %r" % (got, page.type_descriptor_text_list))
'''
