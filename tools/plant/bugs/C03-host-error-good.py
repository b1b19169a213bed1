PROPERTY = "C03"
NEEDS = "A read that the host adapter ends with DID_ERROR (0x07) although the SCSI status is GOOD: an underrun, a reset link."
BREAKS = "The command is reported successful, with a buffer the device never filled, although the host adapter failed it."
EDITS = [("linux.py", "        if response_sgio.host_status != 0:\n            error = AsiSCSIError((\"SCSI host status is not zero: %s\" +",
 "        # DID_ERROR may not be fatal: some drivers report it for a mere underrun\n"
 "        if response_sgio.host_status not in (HOST_STATUS_CODES['SG_ERR_DID_OK'], HOST_STATUS_CODES['SG_ERR_DID_ERROR']):\n"
 "            error = AsiSCSIError((\"SCSI host status is not zero: %s\" +")]
DEMO = '''
import sys
from fakesg import FakeSg
from infi.asi import SCSIReadCommand
from infi.asi.errors import AsiSCSIError
from infi.asi.linux import LinuxCommandExecuter
from infi.asi.coroutines.sync_adapter import sync_wait

for host in (1, 3, 5, 7, 8):
    e = LinuxCommandExecuter(FakeSg(lambda cdb, hdr, out: dict(host=host)))
    try:
        data = sync_wait(e.call(SCSIReadCommand(b"\\x12\\0\\0\\0\\x24\\0", 36)))
    except AsiSCSIError:
        continue
    print("host status %d was reported as success: %r" % (host, data))
    sys.exit(1)
'''
