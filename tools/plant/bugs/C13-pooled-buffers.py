PROPERTY = "C13"
NEEDS = "Two reads of the same length outstanding at the same time on one executer."
BREAKS = "Data buffers are kept for reuse by length, so two outstanding commands get the same buffer and the device's data for one overwrite the other's."
EDITS = [("linux.py", '''                sgio.set_data_buffer(create_string_buffer(command.max_response_length))
''', '''                # page-aligned allocations are expensive, so keep them
                sgio.set_data_buffer(_read_buffers.setdefault(command.max_response_length,
                                                              create_string_buffer(command.max_response_length)))
'''), ("linux.py", '''SENSE_SIZE = 0xFF

''', '''SENSE_SIZE = 0xFF

_read_buffers = {}

''')]
HELPERS = []
DEMO = '''
import sys
from infi.asi.linux import SGIO
from infi.asi import SCSIReadCommand
a = SGIO.create(0, SCSIReadCommand(b"x" * 6, 512))
b = SGIO.create(1, SCSIReadCommand(b"x" * 6, 512))
if a.dxferp == b.dxferp:
    sys.exit("two commands share one data buffer")
'''
