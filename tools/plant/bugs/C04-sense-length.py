PROPERTY = "C04"
NEEDS = "A device whose sense data is longer than 32 bytes (descriptor format with several descriptors)."
BREAKS = "The error carries only the first 32 sense bytes."
EDITS = [("linux.py", "            return (self._check_condition(string_at(response_sgio.sbp, SENSE_SIZE)), packet_id)\n",
"            length = min(response_sgio.sb_len_wr or SENSE_SIZE, 32)    # longer ones are not decoded anyway\n"
"            return (self._check_condition(string_at(response_sgio.sbp, length).ljust(SENSE_SIZE, b'\\0')), packet_id)\n")]
HELPERS = ["fakesg.py"]
DEMO = '''
import sys
from ctypes import create_string_buffer, cast, c_void_p
from infi.asi.linux import LinuxCommandExecuter, SGIO
from infi.asi import SCSIReadCommand

e = LinuxCommandExecuter(None)
for n in (18, 32, 60, 252):
    sense = bytes([0x72, 5, 0x24, 0, 0, 0, 0, n - 8]) + bytes([0x80, n - 10]) + bytes(range(1, n - 9))
    sgio = SGIO.create(0, SCSIReadCommand(b"x" * 6, 0))
    sgio.sense_buffer.raw = sense.ljust(255, b"\\0")
    sgio.status = 2
    sgio.sb_len_wr = n
    error, index = e._handle_raw_response(sgio.to_raw())
    if bytes(error.sense_buffer if hasattr(error, "sense_buffer") else error.args[0])[:n] != sense:
        sys.exit("%d sense bytes did not arrive" % n)
'''
HELPERS = []
