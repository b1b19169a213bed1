"""SCSI facts used by the oracles, written from the standards (SPC-4, SBC-3,
SES-3) and not from the code under test."""

GOOD, CHECK, BUSY, CONFLICT, TASK_SET_FULL, ACA, ABORTED = 0x00, 0x02, 0x08, 0x18, 0x28, 0x30, 0x40
FAILING_STATUS = (BUSY, CONFLICT, TASK_SET_FULL, ACA, ABORTED)

SENSE_KEYS = ("NO_SENSE RECOVERED_ERROR NOT_READY MEDIUM_ERROR HARDWARE_ERROR ILLEGAL_REQUEST UNIT_ATTENTION "
              "DATA_PROTECT BLANK_CHECK VENDOR_SPECIFIC COPY_ABORTED ABORTED_COMMAND RESERVED VOLUME_OVERFLOW "
              "MISCOMPARE COMPLETED").split()

# what T10 calls the additional sense codes hosts meet most
ASC_NAMES = dict(((int(l[:2], 16), int(l[3:5], 16)), l[6:]) for l in """\
00 00 NO ADDITIONAL SENSE INFORMATION
03 00 PERIPHERAL DEVICE WRITE FAULT
04 01 LOGICAL UNIT IS IN PROCESS OF BECOMING READY
04 02 LOGICAL UNIT NOT READY, INITIALIZING COMMAND REQUIRED
04 0a LOGICAL UNIT NOT ACCESSIBLE, ASYMMETRIC ACCESS STATE TRANSITION
04 0b LOGICAL UNIT NOT ACCESSIBLE, TARGET PORT IN STANDBY STATE
04 0c LOGICAL UNIT NOT ACCESSIBLE, TARGET PORT IN UNAVAILABLE STATE
08 00 LOGICAL UNIT COMMUNICATION FAILURE
08 01 LOGICAL UNIT COMMUNICATION TIME-OUT
0b 01 WARNING - SPECIFIED TEMPERATURE EXCEEDED
0c 02 WRITE ERROR - AUTO REALLOCATION FAILED
11 00 UNRECOVERED READ ERROR
1a 00 PARAMETER LIST LENGTH ERROR
1d 00 MISCOMPARE DURING VERIFY OPERATION
20 00 INVALID COMMAND OPERATION CODE
21 00 LOGICAL BLOCK ADDRESS OUT OF RANGE
24 00 INVALID FIELD IN CDB
25 00 LOGICAL UNIT NOT SUPPORTED
26 00 INVALID FIELD IN PARAMETER LIST
27 00 WRITE PROTECTED
27 07 SPACE ALLOCATION FAILED WRITE PROTECT
28 00 NOT READY TO READY CHANGE, MEDIUM MAY HAVE CHANGED
29 00 POWER ON, RESET, OR BUS DEVICE RESET OCCURRED
29 02 SCSI BUS RESET OCCURRED
29 07 I_T NEXUS LOSS OCCURRED
2a 01 MODE PARAMETERS CHANGED
2a 03 RESERVATIONS PREEMPTED
2a 06 ASYMMETRIC ACCESS STATE CHANGED
2c 00 COMMAND SEQUENCE ERROR
2f 00 COMMANDS CLEARED BY ANOTHER INITIATOR
32 00 NO DEFECT SPARE LOCATION AVAILABLE
38 07 THIN PROVISIONING SOFT THRESHOLD REACHED
3a 00 MEDIUM NOT PRESENT
3e 00 LOGICAL UNIT HAS NOT SELF-CONFIGURED YET
3f 01 MICROCODE HAS BEEN CHANGED
3f 03 INQUIRY DATA HAS CHANGED
3f 0e REPORTED LUNS DATA HAS CHANGED
43 00 MESSAGE ERROR
44 00 INTERNAL TARGET FAILURE
45 00 SELECT OR RESELECT FAILURE
47 00 SCSI PARITY ERROR
48 00 INITIATOR DETECTED ERROR MESSAGE RECEIVED
49 00 INVALID MESSAGE ERROR
4b 00 DATA PHASE ERROR
4e 00 OVERLAPPED COMMANDS ATTEMPTED
53 02 MEDIUM REMOVAL PREVENTED
55 03 INSUFFICIENT RESOURCES
5d 00 FAILURE PREDICTION THRESHOLD EXCEEDED
67 06 ATTACHMENT OF LOGICAL UNIT FAILED
""".splitlines())


def asc_name(asc, ascq):
    """The name, or the words it has to contain, or None when it is not known here."""
    if asc == 0x40 and ascq >= 0x80:
        return "DIAGNOSTIC FAILURE ON COMPONENT"
    if asc == 0x4d:
        return "TAGGED OVERLAPPED COMMANDS"
    if asc == 0x70:
        return "DECOMPRESSION EXCEPTION SHORT ALGORITHM ID OF"
    return ASC_NAMES.get((asc, ascq))

SCSI_STATUS_NAMES = {"GOOD": 0, "CHECK_CONDITION": 2, "CONDITION_MET": 4, "BUSY": 8, "RESERVATION_CONFLICT": 0x18,
                     "TASK_SET_FULL": 0x28, "QUEUE_FULL": 0x28, "ACA_ACTIVE": 0x30, "TASK_ABORTED": 0x40}
# include/scsi/sg.h and Documentation/scsi of Linux
HOST_NAMES = {"OK": 0, "NO_CONNECT": 1, "BUS_BUSY": 2, "TIME_OUT": 3, "BAD_TARGET": 4, "ABORT": 5, "PARITY": 6, "ERROR": 7,
              "RESET": 8, "BAD_INTR": 9, "PASSTHROUGH": 10, "SOFT_ERROR": 11}
DRIVER_NAMES = {"OK": 0, "BUSY": 1, "SOFT": 2, "MEDIA": 3, "ERROR": 4, "INVALID": 5, "TIMEOUT": 6, "HARD": 7, "SENSE": 8}
# include sys/scsi.h of AIX
ADAPTER_NAMES = {"HOST_IO_BUS_ERR": 1, "TRANSPORT_FAULT": 2, "CMD_TIMEOUT": 3, "NO_DEVICE_RESPONSE": 4, "ADAPTER_HDW_FAILURE": 5,
                 "ADAPTER_SFW_FAILURE": 6, "WW_NAME_CHANGE": 7, "FUSE_OR_TERMINAL_PWR": 8, "TRANSPORT_RESET": 9, "TRANSPORT_BUSY": 10,
                 "TRANSPORT_DEAD": 11, "VERIFY_DEVICE": 12, "TRANSPORT_MIGRATED": 13, "ERROR_NO_RETRY": 14, "ERROR_DELAY_LOG": 15}


def be(n, v):
    return int(v).to_bytes(n, "big")


def un(b):
    return int.from_bytes(b, "big")


def fixed_sense(key, asc, ascq, info=0, deferred=False, length=18, valid=True, extra=b"", spec=0,
                flags=0, csi=0, fru=0):
    b = bytearray(max(length, 8))
    b[0] = (0x80 if valid else 0) | (0x71 if deferred else 0x70)
    b[2] = key | flags
    b[3:7] = be(4, info)
    b[7] = max(0, length - 8)
    if length >= 12:
        b[8:12] = be(4, csi)
    if length >= 14:
        b[12], b[13] = asc, ascq
    if length >= 18:
        b[14] = fru
        b[15:18] = be(3, spec)
    if extra:
        b[18:18 + len(extra)] = extra
        b[7] = len(b) - 8
    return bytes(b[:252])


def descriptor(kind, body):
    return bytes([kind, len(body)]) + body


def desc_sense(key, asc, ascq, descriptors=b"", deferred=False):
    return bytes([0x73 if deferred else 0x72, key, asc, ascq, 0, 0, 0, len(descriptors)]) + descriptors


def decode_sense(raw):
    """(key, asc, ascq), or None when the bytes do not state them."""
    if not raw:
        return None
    code = raw[0] & 0x7f
    if code in (0x70, 0x71):
        if len(raw) < 14:
            return None
        return raw[2] & 0xf, raw[12], raw[13]
    if code in (0x72, 0x73):
        if len(raw) < 4:
            return None
        return raw[1] & 0xf, raw[2], raw[3]
    return None
