PROPERTY = "C17"
NEEDS = "Status pages of two enclosures read at the same time (two greenlets or threads), with different numbers of elements."
BREAKS = "The one that completes first is decoded with the configuration of the other enclosure."
EDITS = [("cdb/diagnostic/__init__.py", '''        self.result_class = result_class
        self.conf_page = conf_page
''', '''        self.result_class = result_class
        ReceiveDiagnosticResultCommand.conf_page = conf_page
''')]
HELPERS = ["fakedev.py"]
DEMO = '''
import sys
from fakedev import Recorder, run
from infi.asi.cdb.diagnostic.ses_pages import ConfigurationDiagnosticPagesData, EnclosureStatusDiagnosticPagesCommand

def configuration(element_type, count):
    body = bytes([0, 0, 0, 9]) + bytes([0x11, 0, 1, 36]) + b"IDENTIFY" + b"VENDOR  " + b"PRODUCT         " + b"REV " + bytes([element_type, count, 0, 0])
    page = ConfigurationDiagnosticPagesData(None)
    page.unpack(bytes([1, 0]) + len(body).to_bytes(2, "big") + body)
    return page
def status(count):
    body = bytes([0, 0, 0, 9]) + bytes([1, 0, 0, 0]) * (count + 1)
    return bytes([2, 0]) + len(body).to_bytes(2, "big") + body
one, two = configuration(2, 3), configuration(3, 1)
first, second = EnclosureStatusDiagnosticPagesCommand(one), EnclosureStatusDiagnosticPagesCommand(two)
for command, count in ((first, 3), (second, 1)):
    page = run(command, Recorder(status(count)))
    got = [len(d.individual_elements) for d in page.status_descriptors]
    if got != [count]:
        sys.exit("%d elements, reported as %r" % (count, got))
'''
